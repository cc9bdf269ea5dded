//! C30 blocks carried between trees.
use crate::chainx::{put_tip, Any};
use crate::model::*;
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// a node of the universe: a block that some tree emitted, and the way to it
struct Node {
    b: Blk,
    parent: Option<usize>,
    depth: usize,
    kids: Vec<usize>,
}
struct Way {
    nonce: H,
    txs: Vec<H>,
    ts: u64,
    founder: Addr,
}
const T0: u64 = 1_700_000_000;

fn way(tip: &Blk, v: usize) -> Result<Way, Fail> {
    let h = tip.h() + 1;
    let closing = (h % u(EPOCH)).is_zero();
    let n = h.low_u64() * 10 + v as u64;
    let txs: Vec<H> = match (closing, v) {
        (true, _) => vec![],
        (_, 0) => vec![hh(n)],
        (_, 1) => vec![hh(n), hh(n + 1), hh(n)],
        _ => (0..9).map(|i| hh(n + i)).collect(),
    };
    let ts = tip.ts() + [10, 700, 600][v];
    let nonce = mine(&tip.hash, &tip.d(), &txs, true).ok_or("no nonce found")?;
    Ok(Way { nonce, txs, ts, founder: addr(40 + v as u64) })
}
fn emit(t: &mut BlockChainTree, w: &Way) -> Result<Blk, Fail> {
    Blk::of(ok("emission", guard(|| block_on(t.emmit_new_main_block(&w.nonce, &w.founder, &w.txs, w.ts))))?)
}

/// where the universe starts: the genesis block, or near the end of an epoch
fn base(dir: &Path, near_end: bool) -> Result<Vec<Blk>, Fail> {
    let mut m = Idx { base: u(0), v: vec![Blk::of(genesis())?] };
    {
        let t = open_tree(dir)?;
        flush(&t)?;
    }
    if near_end {
        craft_height(dir, EPOCH - 3)?;
        let t = open_tree(dir)?;
        m = Idx { base: u(EPOCH - 3), v: vec![] };
        put_tip(&t, &mut m, diff(3), T0)?;
        flush(&t)?;
    }
    Ok(m.v)
}

/// what a node does with a block it is sent
fn receive(t: &BlockChainTree, raw: &[u8], how: usize) -> Result<Option<BlockArc>, Fail> {
    let mc = t.get_main_chain();
    let b = match guard(|| block::deserialize_main_chain_block(raw)) {
        Err(p) => return Err(format!("decoding {p}").into()),
        Ok(Err(_)) => return Ok(None),
        Ok(Ok(b)) => b,
    };
    let last = ok("get_last_block", guard(|| mc.get_last_block()))?.ok_or("no last block")?;
    match guard(|| b.validate(Some(last))) {
        Err(p) => return Err(format!("validation {p}").into()),
        Ok(Ok(true)) => {}
        _ => return Ok(None),
    }
    let r = match how {
        0 => guard(|| mc.add_block(b.clone()).map_err(|e| short(&e))),
        _ => guard(|| t.add_new_block(b.clone(), &[]).map_err(|e| short(&e))),
    };
    match r {
        Err(p) => Err(format!("appending {p}").into()),
        Ok(Ok(())) => Ok(Some(b)),
        Ok(Err(_)) => Ok(None),
    }
}

struct Universe {
    /// blocks below the nodes
    roots: Vec<Blk>,
    start: PathBuf,
    nodes: Vec<Node>,
}
impl Universe {
    /// every way of emitting `depth` blocks, each emission on a tree that was handed the blocks before it
    fn make(scratch: &Path, near_end: bool, depth: usize, ways: usize) -> Result<Universe, Fail> {
        let start = scratch.join(format!("start{}", near_end as u8));
        let _ = std::fs::remove_dir_all(&start);
        let roots = base(&start, near_end)?;
        let mut un = Universe { roots, start, nodes: vec![] };
        let mut front: Vec<Option<usize>> = vec![None];
        let d = scratch.join("emitting");
        for level in 0..depth {
            let mut next = vec![];
            for at in front {
                for v in 0..ways {
                    copy_dir(&un.start, &d);
                    let mut t = open_tree(&d)?;
                    for k in un.path(at) {
                        let raw = &un.nodes[k].b.raw;
                        receive(&t, raw, 0)?.ok_or_else(|| format!("an emitted block of height {} is not accepted in its place", un.nodes[k].b.h()))?;
                    }
                    let w = way(un.tip(at), v)?;
                    let b = emit(&mut t, &w)?;
                    let id = un.nodes.len();
                    if let Some(p) = at {
                        un.nodes[p].kids.push(id);
                    }
                    un.nodes.push(Node { b, parent: at, depth: level, kids: vec![] });
                    next.push(Some(id));
                }
            }
            front = next;
        }
        Ok(un)
    }
    fn tip(&self, at: Option<usize>) -> &Blk {
        match at {
            Some(k) => &self.nodes[k].b,
            None => self.roots.last().unwrap(),
        }
    }
    fn path(&self, at: Option<usize>) -> Vec<usize> {
        let mut v = vec![];
        let mut x = at;
        while let Some(k) = x {
            v.push(k);
            x = self.nodes[k].parent;
        }
        v.reverse();
        v
    }
    fn kids(&self, at: Option<usize>) -> Vec<usize> {
        match at {
            Some(k) => self.nodes[k].kids.clone(),
            None => (0..self.nodes.len()).filter(|k| self.nodes[*k].parent.is_none()).collect(),
        }
    }
    fn idx(&self, at: Option<usize>) -> Idx {
        let mut v: Vec<Blk> = self.roots.clone();
        v.extend(self.path(at).into_iter().map(|k| self.nodes[k].b.clone()));
        Idx { base: v[0].h(), v }
    }
    /// blocks elsewhere in the universe
    fn absent(&self, at: Option<usize>) -> Vec<H> {
        let p = self.path(at);
        self.nodes.iter().enumerate().filter(|(i, _)| !p.contains(i)).map(|(_, n)| n.b.hash).collect()
    }
}

/// the replica holds exactly what the model says
fn holds(t: &BlockChainTree, m: &Idx, absent: &[H], what: &str) -> R {
    let ch = Ch::M(t.get_main_chain());
    m.check_range(&ch, absent, what, 0)
}

/// every altered form of a block's bytes that is tried
fn altered(raw: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for i in 0..raw.len() {
        for x in [raw[i] ^ 1, raw[i] ^ 0x80, 0, 0xff, raw[i].wrapping_add(1), raw[i].wrapping_sub(1)] {
            if x != raw[i] {
                let mut r = raw.to_vec();
                r[i] = x;
                v.push((format!("byte {i} set to {x}"), r));
            }
        }
        v.push((format!("cut to {i} bytes"), raw[..i].to_vec()));
        let mut r = raw.to_vec();
        r.remove(i);
        v.push((format!("byte {i} removed"), r));
        let mut r = raw.to_vec();
        r.insert(i, 0);
        v.push((format!("a byte inserted at {i}"), r));
    }
    for n in [1usize, 31, 32, 33, 64] {
        let mut r = raw.to_vec();
        r.extend(vec![0; n]);
        v.push((format!("{n} bytes appended"), r));
    }
    v.sort_by(|a, b| a.1.cmp(&b.1));
    v.dedup_by(|a, b| a.1 == b.1);
    v
}

/// forms of a block with several fields changed together, consistently encoded
fn reforged(b: &BlockArc, prev: &Blk) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let genuine = b.dump().unwrap();
    let (pt, pd) = (prev.ts(), lz(&prev.d()));
    let own = lz(&b.get_info().difficulty);
    let mut bits = vec![own, pd, 1, own + 1, own.max(1) - 1, pd + 1, pd.max(1) - 1, 256, 0];
    bits.sort();
    bits.dedup();
    let mut times: Vec<u64> = [pt, pt + 1, pt + 599, pt + 600, pt + 601, pt - 1, pt + (1 << 32), pt + (1 << 32) + 600, 0, u64::MAX, b.get_info().timestamp].to_vec();
    times.sort();
    times.dedup();
    for ts in &times {
        for d in &bits {
            let mut x = Any::of(b);
            x.info().timestamp = *ts;
            x.info().difficulty = diff(*d);
            v.push((format!("time {ts} and {d} bits"), x));
        }
    }
    for d in [prev.h(), prev.h() + 2, u(0), U256::MAX, prev.h() + 1 + pow2(64)] {
        for ph in [prev.hash, hh(9)] {
            let mut x = Any::of(b);
            x.info().height = d;
            x.info().previous_hash = ph;
            v.push((format!("height {d} and parent {}", s8(&ph)), x));
        }
    }
    if let Any::T(f, r, l, i) = Any::of(b) {
        let mut lists: Vec<Vec<H>> = vec![vec![], vec![hh(77)]];
        for k in 0..l.len() {
            let mut y = l.clone();
            y.remove(k);
            lists.push(y);
            let mut y = l.clone();
            y[k][31] ^= 1;
            lists.push(y);
            let mut y = l.clone();
            y.swap(0, k);
            lists.push(y);
        }
        let mut y = l.clone();
        y.push(*l.last().unwrap_or(&hh(1)));
        lists.push(y);
        for y in lists {
            let r2 = merkle(&y);
            v.push((format!("{} transactions and the old root", y.len()), Any::T(f, r, y.clone(), i.clone())));
            v.push((format!("{} transactions and their root", y.len()), Any::T(f, r2, y.clone(), i.clone())));
            v.push((format!("another kind with the root of {} transactions", y.len()), Any::S(r2, i.clone())));
        }
    }
    let mut v: Vec<(String, Vec<u8>)> = v.into_iter().map(|(n, x)| (n, x.arc().dump().unwrap())).filter(|x| x.1 != genuine).collect();
    v.sort_by(|a, b| a.1.cmp(&b.1));
    v.dedup_by(|a, b| a.1 == b.1);
    v
}

/// one message at a replica whose content is `m`: accepted exactly as the statement says.
/// Gives the block by which the replica grew.
fn deliver(c: &mut Ctx, t: &BlockChainTree, m: &mut Idx, raw: &[u8], genuine: Option<bool>, how: usize, what: &str) -> Result<bool, Fail> {
    c.transitions += 1;
    let tip = m.v.last().unwrap().clone();
    let r = receive(t, raw, how).map_err(|e| Fail::from(format!("{what}: {}", e.msg)))?;
    if let Some(g) = genuine {
        same!(r.is_some(), g, "{what}: accepted");
    }
    if let Some(b) = r {
        // whatever was accepted is a correct successor
        let k = Blk::of(b)?;
        same!(k.h(), tip.h() + 1, "{what}: height of the accepted block");
        ensure!(Any::of(&k.b).verdict(&tip), "{what}: accepted although it is no correct successor");
        m.v.push(k);
        return Ok(true);
    }
    Ok(false)
}

fn c30(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let (depth, ways) = c.pick((4, 3), (6, 3));
    for near_end in [false, true] {
        let un: std::cell::OnceCell<Result<Universe, String>> = std::cell::OnceCell::new();
        let get = |c: &Ctx| -> Result<&Universe, Fail> {
            un.get_or_init(|| Universe::make(&c.scratch, near_end, depth, ways).map_err(|e| e.msg)).as_ref().map_err(|e| Fail::from(format!("emitting the blocks: {e}")))
        };
        let total: usize = (1..depth).map(|l| ways.pow(l as u32)).sum();
        for at in std::iter::once(None).chain((0..total).map(Some)) {
            let ats = at.map_or("start".to_string(), |k| format!("block {k}"));
            for order in 0..4usize {
                c.case(|| format!("replica at {ats} (near an epoch's end: {near_end}), reached in way {order}: every block, every alteration, then emission"), |c| {
                    let un = get(c)?;
                    let d = c.dir("replica");
                    copy_dir(&un.start, &d);
                    let mut t = open_tree(&d)?;
                    let mut m = un.idx(None);
                    let path = un.path(at);
                    for (i, k) in path.iter().enumerate() {
                        let what = format!("on the way, block {k}");
                        match order {
                            0 => {}
                            1 => {
                                // the later ones first, and the earlier ones again
                                for j in path.iter().rev() {
                                    if j != k {
                                        deliver(c, &t, &mut m, &un.nodes[*j].b.raw, Some(false), i % 2, &format!("{what}, but {j} first"))?;
                                    }
                                }
                            }
                            2 => {
                                for (n, x) in altered(&un.nodes[*k].b.raw).iter().enumerate().filter(|(n, _)| n % 7 == i) {
                                    // one that happens to be a correct block would be another history
                                    let Ok(Ok(b)) = guard(|| block::deserialize_main_chain_block(&x.1)) else {
                                        continue;
                                    };
                                    if Any::of(&b).verdict(m.v.last().unwrap()) {
                                        continue;
                                    }
                                    deliver(c, &t, &mut m, &x.1, Some(false), n % 2, &format!("{what}, {}", x.0))?;
                                }
                            }
                            _ => {
                                flush(&t)?;
                                drop(t);
                                t = open_tree(&d)?;
                            }
                        }
                        deliver(c, &t, &mut m, &un.nodes[*k].b.raw, Some(true), (i + order) % 2, &what)?;
                        deliver(c, &t, &mut m, &un.nodes[*k].b.raw, Some(false), i % 2, &format!("{what} again"))?;
                    }
                    holds(&t, &un.idx(at), &un.absent(at), "replica")?;
                    // whatever is not a child of the last block is refused
                    let kids = un.kids(at);
                    for (k, n) in un.nodes.iter().enumerate() {
                        if !kids.contains(&k) {
                            deliver(c, &t, &mut m, &n.b.raw, Some(false), k % 2, &format!("block {k}"))?;
                        }
                    }
                    for r in &un.roots {
                        deliver(c, &t, &mut m, &r.raw, Some(false), 0, "a block below the start")?;
                    }
                    holds(&t, &un.idx(at), &un.absent(at), "replica after refused blocks")?;
                    // every alteration of the children
                    let mut grown = 0;
                    for k in &kids {
                        let forms = altered(&un.nodes[*k].b.raw).into_iter().enumerate().filter(|(n, _)| (n + order) % 4 == 0 || c.thorough()).collect::<Vec<_>>();
                        let forged = reforged(&un.nodes[*k].b.b, un.tip(at)).into_iter().enumerate();
                        for (n, (name, raw)) in forms.into_iter().chain(forged) {
                            let what = format!("block {k} with {name}");
                            if grown >= c.pick(8, 60) {
                                // enough of those that are correct blocks
                                if let Ok(Ok(b)) = guard(|| block::deserialize_main_chain_block(&raw)) {
                                    if b.get_info().height == m.height() && Any::of(&b).verdict(m.v.last().unwrap()) {
                                        c.count("correct blocks not followed", 1);
                                        continue;
                                    }
                                }
                            }
                            if deliver(c, &t, &mut m, &raw, None, n % 2, &what)? {
                                // it was a correct block: look at it, then go back
                                let now = m.v.last().unwrap().hash;
                                let absent: Vec<H> = un.absent(at).into_iter().filter(|h| *h != now).collect();
                                holds(&t, &m, &absent, &what)?;
                                grown += 1;
                                drop(t);
                                copy_dir(&un.start, &d);
                                t = open_tree(&d)?;
                                m = un.idx(None);
                                for k in &path {
                                    deliver(c, &t, &mut m, &un.nodes[*k].b.raw, Some(true), 0, "on the way again")?;
                                }
                            }
                        }
                        c.transitions += 1;
                    }
                    c.count("altered blocks that are correct blocks", grown);
                    holds(&t, &un.idx(at), &un.absent(at), "replica after altered blocks")?;
                    // it goes on as the tree that emitted the blocks did
                    let v = order % ways;
                    let w = way(un.tip(at), v)?;
                    let b = emit(&mut t, &w)?;
                    same!(hex(&b.raw), hex(&un.nodes[kids[v]].b.raw), "block emitted by a replica at {ats}");
                    for (i, k) in kids.iter().enumerate() {
                        let mut m = un.idx(Some(kids[v]));
                        deliver(c, &t, &mut m, &un.nodes[*k].b.raw, Some(false), i % 2, "a competing block after the emission")?;
                    }
                    let end = Some(kids[v]);
                    holds(&t, &un.idx(end), &un.absent(end), "replica after an emission")?;
                    flush(&t)?;
                    drop(t);
                    let t = open_tree(&d)?;
                    holds(&t, &un.idx(end), &un.absent(end), "replica reopened")?;
                    c.state(&(near_end, at, order));
                    c.traces += 1;
                    Ok(())
                });
            }
        }
    }
    derivative(c);
    long(c);
}

/// derivative chains carried between trees
fn derivative(c: &mut Ctx) {
    let depth = c.pick(4usize, 6);
    let receive = |d: &DerivativeChain, anchor: &Blk, raw: &[u8]| -> Result<Option<Blk>, Fail> {
        if raw.first() != Some(&3) {
            return Ok(None);
        }
        let b = match guard(|| DerivativeBlock::parse(&raw[1..])) {
            Err(p) => return Err(format!("decoding {p}").into()),
            Ok(Err(_)) => return Ok(None),
            Ok(Ok(b)) => b,
        };
        let prev: BlockArc = match ok("get_last_block", guard(|| d.get_last_block()))? {
            Some(b) => Arc::new(b),
            None => anchor.b.clone(),
        };
        match guard(|| b.validate(Some(prev))) {
            Err(p) => return Err(format!("validation {p}").into()),
            Ok(Ok(true)) => {}
            _ => return Ok(None),
        }
        match guard(|| d.add_block(&b)) {
            Err(p) => Err(format!("appending {p}").into()),
            Ok(Ok(())) => Ok(Some(Blk::of(Arc::new(b))?)),
            Ok(Err(_)) => Ok(None),
        }
    };
    for bits in [1u32, 5] {
        // all time patterns
        for pat in 0..2usize.pow(depth as u32) {
            c.case(|| format!("derivative chain of {depth} blocks, times {pat:b}, anchored at {bits} bits"), |c| {
                let (d1, d2) = (c.dir("source"), c.dir("replica"));
                let mut m = Idx { base: u(0), v: vec![Blk::of(genesis())?] };
                let mut t1 = open_tree(&d1)?;
                put_tip(&t1, &mut m, diff(bits), T0)?;
                let t2 = open_tree(&d2)?;
                let anchor = m.v[1].clone();
                ok("add_block", Ok(Ch::M(t2.get_main_chain()).add(&anchor)?))?;
                let mut t2 = t2;
                let (o, other) = (addr(5), addr(6));
                let mut v: Vec<Blk> = vec![];
                let mut foreign: Vec<Blk> = vec![];
                for (owner, list) in [(o, &mut v), (other, &mut foreign)] {
                    for i in 0..depth {
                        let (ph, pd, pt) = list.last().map_or((anchor.hash, diff(1), anchor.ts()), |b| (b.hash, b.d(), b.ts()));
                        let n = mine(&ph, &pd, &[], true).ok_or("no nonce")?;
                        let ts = pt + if (pat >> i) & 1 == 1 { 50 } else { 900 };
                        list.push(Blk::of(ok("emission", guard(|| block_on(t1.emmit_new_derivative_block(&n, &owner, ts))))?)?);
                    }
                }
                let d = ok("get_derivative_chain", guard(|| t2.get_derivative_chain(&o)))?;
                let mut got = Idx::default();
                for i in 0..depth {
                    // out of order, of another kind, altered
                    for j in (0..depth).filter(|j| *j != i) {
                        ensure!(receive(&d, &anchor, &v[j].raw)?.is_none(), "block {j} was accepted in the place of {i}");
                        c.transitions += 1;
                    }
                    ensure!(receive(&d, &anchor, &anchor.raw)?.is_none(), "a main block was accepted");
                    let prev = got.v.last().unwrap_or(&anchor).clone();
                    for (name, raw) in altered(&v[i].raw).into_iter().chain(reforged(&v[i].b, &prev)) {
                        let what = format!("block {i} with {name}");
                        let Ok(Ok(b)) = guard(|| DerivativeBlock::parse(&raw[1.min(raw.len())..])) else { continue };
                        let b: BlockArc = Arc::new(b);
                        let prev = got.v.last().unwrap_or(&anchor);
                        if raw.first() == Some(&3) && Any::of(&b).verdict(prev) {
                            continue;
                        }
                        ensure!(receive(&d, &anchor, &raw).map_err(|e| Fail::from(format!("{what}: {}", e.msg)))?.is_none(), "{what}: accepted");
                        c.transitions += 1;
                    }
                    got.check(&Ch::D(d.clone()), &v[i..].iter().map(|b| b.hash).collect::<Vec<_>>(), "replica")?;
                    let b = receive(&d, &anchor, &v[i].raw)?.ok_or_else(|| format!("emitted derivative block {i} is not accepted in its place"))?;
                    ensure!(b.raw == v[i].raw, "the block accepted differs from the one sent");
                    got.v.push(b);
                }
                got.check(&Ch::D(d.clone()), &foreign[1..].iter().map(|b| b.hash).filter(|h| !v.iter().any(|b| b.hash == *h)).collect::<Vec<_>>(), "complete replica")?;
                drop(d);
                flush(&t2)?;
                drop(t2);
                let mut t2 = open_tree(&d2)?;
                let d = ok("get_derivative_chain", guard(|| t2.get_derivative_chain(&o)))?;
                got.check(&Ch::D(d), &[], "replica reopened")?;
                // both go on alike
                let tip = v.last().unwrap();
                let n = mine(&tip.hash, &tip.d(), &[], true).ok_or("no nonce")?;
                let x = Blk::of(ok("emission", guard(|| block_on(t1.emmit_new_derivative_block(&n, &o, tip.ts() + 600))))?)?;
                let y = Blk::of(ok("emission", guard(|| block_on(t2.emmit_new_derivative_block(&n, &o, tip.ts() + 600))))?)?;
                same!(hex(&x.raw), hex(&y.raw), "next block of source and replica");
                c.state(&("derivative", bits, pat));
                c.traces += 1;
                Ok(())
            });
        }
    }
}

/// long chains with lists of many sizes, block by block through the encoding
fn long(c: &mut Ctx) {
    let n = c.pick(150usize, 1500);
    for kind in 0..3usize {
        c.case(|| format!("chain of {n} blocks carried over, kind {kind}"), |c| {
            let (d1, d2) = (c.dir("source"), c.dir("replica"));
            let mut t1 = open_tree(&d1)?;
            let mut t2 = open_tree(&d2)?;
            let mut m = Idx { base: u(0), v: vec![Blk::of(genesis())?] };
            let mut sizes: Vec<usize> = ladder(1100).into_iter().filter(|s| *s > 0).collect();
            sizes.splice(3..3, [2049, 5000, 9001]);
            for i in 0..n {
                let tip = m.v.last().unwrap().clone();
                let l = match kind {
                    0 => 1 + i % 3,
                    1 => sizes[i % sizes.len()],
                    _ => 1,
                };
                let txs: Vec<H> = (0..l as u64).map(|k| hh(i as u64 * 3000 + k)).collect();
                let w = Way {
                    nonce: mine(&tip.hash, &tip.d(), &txs, true).ok_or("no nonce")?,
                    txs,
                    ts: tip.ts() + if lz(&tip.d()) > 5 || i % 4 == 0 { 601 } else { [1, 600, 599][i % 3] },
                    founder: addr(i as u64 % 5),
                };
                let b = emit(&mut t1, &w)?;
                deliver(c, &t2, &mut m, &b.raw, Some(true), i % 2, &format!("block {i}"))?;
                if kind == 2 && i % 13 == 12 {
                    flush(&t2)?;
                    drop(t2);
                    t2 = open_tree(&d2)?;
                }
            }
            holds(&t1, &m, &[], "source")?;
            holds(&t2, &m, &[], "replica")?;
            flush(&t2)?;
            drop(t2);
            holds(&open_tree(&d2)?, &m, &[], "replica reopened")?;
            c.max("chain length", m.v.len() as u64);
            c.state(&("long", kind));
            c.traces += 1;
            Ok(())
        });
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        level: "model_checking",
        run: c30,
        exhaustive: true,
        shards: 8,
        rule: "explicit-state exploration: the universe is every block emitted along every way of the stated depth and branching; the reachable states of a replica are the nodes of that universe, each reached in four ways (plain, out of order with repeats, with altered blocks in between, with reopenings); in each state every block of the universe and every listed alteration of the next blocks is delivered; states = (start, node, way), transitions = deliveries",
        assumptions: &["SHA-256 collisions do not occur among the enumerated blocks", "a node handles a received block by decoding it, validating it against its last block and appending it"],
    }]
}

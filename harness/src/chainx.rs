//! C13 validation, C14 main chain index, C15 derivative chains, C16 emission, C18 concurrent chains.
use crate::ledger::{linearizable, Clock, Done};
use crate::model::*;
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

const OWNER: &str = "02aa";
const GEN: H = [7; 32];

/// a block for height h; `kind` 0: transactions, 1: summarize, 2: derivative
fn blk(kind: u8, h: U256, tag: u64) -> Blk {
    let b: BlockArc = match kind {
        0 => tblock(h, tag),
        1 => sblock(h, tag),
        _ => Arc::new(dblock(h, tag)),
    };
    Blk::of(b).unwrap_or_else(|e| panic!("{}", e.msg))
}

struct One {
    dir: PathBuf,
    ch: Option<Ch>,
    early: Option<Ch>,
    main: bool,
    m: Idx,
    absent: Vec<H>,
    tag: u64,
    /// the chain belongs to a tree
    tree: bool,
    t: Option<BlockChainTree>,
    failed: Option<Blk>,
}
impl One {
    fn open(dir: PathBuf, main: bool) -> Result<One, Fail> {
        One::open_as(dir, main, false)
    }
    fn open_as(dir: PathBuf, main: bool, tree: bool) -> Result<One, Fail> {
        let mut o = One { dir, ch: None, early: None, main, m: Idx::default(), absent: vec![], tag: 0, tree, t: None, failed: None };
        o.reopen()?;
        if main {
            o.m.v.push(Blk::of(genesis())?);
        }
        Ok(o)
    }
    fn reopen(&mut self) -> R {
        self.ch = None;
        self.early = None;
        self.t = None;
        if self.tree {
            let t = open_tree(&self.dir)?;
            let c = Ch::M(t.get_main_chain());
            self.t = Some(t);
            self.early = Some(c.clone());
            self.ch = Some(c);
            return Ok(());
        }
        let c = if self.main { Ch::M(open_main(&self.dir)?) } else { Ch::D(open_deriv(&self.dir, OWNER, &GEN)?) };
        self.early = Some(c.clone());
        self.ch = Some(c);
        Ok(())
    }
    fn kind(&self, n: u64) -> u8 {
        if self.main { (n % 2) as u8 } else { 2 }
    }
    fn step(&mut self, op: usize) -> R {
        let h = self.m.height();
        self.tag += 10;
        let t = self.tag;
        let k = self.kind(t / 10);
        let ch = self.ch.clone().unwrap();
        let (b, good) = match op {
            0 => (blk(k, h, t), true),
            1 => (blk(if self.main { 1 - k } else { 2 }, h, t + 1), true),
            2 => (blk(k, h.checked_sub(u(1)).unwrap_or(u(9)), t), false),
            3 => (blk(k, h + 1, t), false),
            4 => match self.m.v.last() {
                Some(b) => (b.clone(), false),
                None => (blk(k, u(1), t), false),
            },
            5 => {
                let z = h.is_zero();
                (blk(k, u(0), t), z)
            }
            6 => (blk(k, U256::MAX, t), false),
            7 => (blk(k, h + (U256::one() << 64), t), false),
            8 => {
                ch.flush()?;
                return Ok(());
            }
            _ => {
                ch.flush()?;
                drop(ch);
                return self.reopen();
            }
        };
        let r = ch.add(&b)?;
        match (r, good) {
            (Ok(()), true) => self.m.v.push(b),
            (Err(_), false) => {
                if !self.m.v.iter().any(|x| x.hash == b.hash) {
                    self.absent.push(b.hash)
                }
            }
            (Ok(()), false) => return Err(format!("a block of height {} was accepted at chain height {h}", b.h()).into()),
            (Err(e), true) => return Err(format!("a block of the right height {h} was refused: {e}").into()),
        }
        Ok(())
    }
    /// appends with the storage calls of the mask failing, or the block that failed last
    fn faulty(&mut self, op: usize) -> R {
        self.tag += 10;
        let b = match op {
            3 => match self.failed.take() {
                Some(b) if b.h() == self.m.height() => b,
                _ => return Ok(()),
            },
            _ => blk(self.kind(self.tag / 10), self.m.height(), self.tag),
        };
        let mask = [1u64, 2, 4, 0][op];
        let tx = tx(&key(1), &addr(2), self.tag, u(5), None);
        let ch = self.ch.as_ref().unwrap();
        vsched::arm_faults(mask);
        let r = match &self.t {
            Some(t) => guard(|| t.add_new_block(b.b.clone(), std::slice::from_ref(&tx)).map_err(|e| short(&e))),
            None => ch.add(&b),
        };
        let (_, hits, _) = vsched::disarm_faults();
        match r {
            Err(e) => return Err(e.into()),
            Ok(Ok(())) => {
                self.absent.retain(|h| *h != b.hash);
                self.m.v.push(b);
            }
            Ok(Err(e)) => {
                ensure!(hits > 0, "an append failed without a fault: {e}");
                self.absent.push(b.hash);
                self.failed = Some(b);
            }
        }
        Ok(())
    }
    fn check(&self, what: &str) -> R {
        self.m.check(self.ch.as_ref().unwrap(), &self.absent, what)?;
        self.m.check(self.early.as_ref().unwrap(), &self.absent, &format!("{what}, through an earlier handle"))
    }
}
const OPN: [&str; 10] = ["append", "append'", "stale", "gap", "again", "zero", "max", "wide", "flush", "reopen"];

fn names(s: &[usize]) -> String {
    s.iter().map(|i| OPN[*i]).collect::<Vec<_>>().join(" ")
}
pub fn tuples(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..k {
        v = v.into_iter().flat_map(|x: Vec<usize>| (0..n).map(move |i| { let mut y = x.clone(); y.push(i); y })).collect();
    }
    v
}

/// appends that fail in between
fn failing(c: &mut Ctx, chains: &[(bool, bool)]) {
    let depth = c.pick(4, 6);
    const FOPN: [&str; 8] = ["append", "gap", "flush", "reopen", "append, first call fails", "append, second call fails", "append, third call fails", "the failed one again"];
    for (main, tree) in chains.iter().copied() {
        for pre in tuples(8, 2) {
            let fnames = |s: &[usize]| s.iter().map(|i| FOPN[*i]).collect::<Vec<_>>().join(", ");
            c.case(|| format!("{} chain{}, failures: {}, then all sequences of {}", if main { "main" } else { "derivative" }, if tree { " of a tree" } else { "" }, fnames(&pre), depth - 2), |c| {
                for rest in tuples(8, depth - 2) {
                    let seq: Vec<usize> = pre.iter().chain(&rest).copied().collect();
                    if !seq.iter().any(|x| *x > 3) {
                        continue;
                    }
                    let mut o = One::open_as(c.dir("x"), main, tree)?;
                    for (i, op) in seq.iter().enumerate() {
                        let r = if *op < 4 { o.step([0, 3, 8, 9][*op]) } else { o.faulty(*op - 4) };
                        r.map_err(|e| Fail::from(format!("step {i} of [{}]: {}", fnames(&seq), e.msg)))?;
                        c.transitions += 1;
                        if i + 1 >= depth - 1 {
                            o.check(&format!("after [{}]", fnames(&seq[..=i])))?;
                        }
                    }
                    c.state(&("failing", main, tree, o.m.v.len(), o.absent.len(), seq.last()));
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
}
fn c14(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let depth = c.pick(4, 5);
    for main in [true, false] {
        for pre in tuples(10, 2) {
            c.case(|| format!("{} chain: {}, then all sequences of {}", if main { "main" } else { "derivative" }, names(&pre), depth - 2), |c| {
                for rest in tuples(10, depth - 2) {
                    let seq: Vec<usize> = pre.iter().chain(&rest).copied().collect();
                    let mut o = One::open(c.dir("x"), main)?;
                    for (i, op) in seq.iter().enumerate() {
                        o.step(*op).map_err(|e| Fail::from(format!("step {i} of [{}]: {}", names(&seq), e.msg)))?;
                        c.transitions += 1;
                        // prefixes are checked by the sequences that end there
                        if i + 1 >= depth - 1 || rest.iter().all(|x| *x == 0) {
                            o.check(&format!("after [{}]", names(&seq[..=i])))?;
                        }
                    }
                    c.state(&(main, o.m.v.len(), o.absent.len(), seq.last()));
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
    failing(c, &[(true, true), (true, false), (false, false)]);
    // long chains, across the byte boundaries of the height
    let n = c.pick(700u64, 66_000);
    for main in [true, false] {
        c.case(|| format!("{} chain of {n} blocks, refused blocks in between", if main { "main" } else { "derivative" }), |c| {
            let mut o = One::open(c.dir("x"), main)?;
            for i in 0..n {
                o.step((i % 3 == 0) as usize)?;
                c.transitions += 1;
                if i % 50 == 0 {
                    for bad in [2, 3, 4, 5, 6, 7] {
                        o.step(bad)?;
                    }
                    o.absent.truncate(30);
                }
                if i % 256 < 3 || i % 97 == 0 {
                    let f = if i % 970 == 0 { 0 } else { o.m.v.len() - 3.min(o.m.v.len()) };
                    o.m.check_range(o.ch.as_ref().unwrap(), &o.absent, &format!("after {i} blocks"), f)?;
                }
                if i % 301 == 300 && i < 10_000 {
                    o.step(9)?;
                }
            }
            o.check("at the end")?;
            o.step(9)?;
            o.check("after reopening")?;
            c.max("chain length", o.m.v.len() as u64);
            c.state(&("long", main));
            Ok(())
        });
    }
    // a chain at every height around the byte boundaries (configuration rewritten)
    let hs: Vec<U256> = if c.thorough() { ints_dense() } else { ints_bytes() };
    for main in [true, false] {
        for part in hs.chunks(16) {
            c.case(|| format!("{} chain continued at heights {:x} ..", if main { "main" } else { "derivative" }, part[0]), |c| {
                for h in part {
                    if *h < u(3) || *h > U256::MAX - 5 {
                        continue;
                    }
                    let mut o = One::open(c.dir("x"), main)?;
                    o.step(8)?;
                    o.ch = None;
                    o.early = None;
                    let f = if main { o.dir.join("MAIN/Chain.config") } else { o.dir.join("DERIVATIVES").join(OWNER).join("Chain.config") };
                    let Ok(mut v) = std::fs::read(&f) else { c.count("height not crafted", 1); continue };
                    if v.len() < 32 {
                        c.count("height not crafted", 1);
                        continue;
                    }
                    v[..32].copy_from_slice(&be32(h));
                    std::fs::write(&f, v).unwrap();
                    o.reopen()?;
                    if o.ch.as_ref().unwrap().height()? != *h {
                        c.count("height not crafted", 1);
                        continue;
                    }
                    o.m = Idx { base: *h, v: vec![] };
                    for op in [0, 3, 2, 4, 0, 6, 1, 7, 3, 9, 0] {
                        if op == 4 && o.m.v.is_empty() {
                            continue;
                        }
                        if op == 7 && o.m.height().checked_add(U256::one() << 64).is_none() {
                            continue;
                        }
                        o.step(op)?;
                        c.transitions += 1;
                        o.check(&format!("from height {h:x}"))?;
                    }
                    c.state(&("at", main, h));
                }
                Ok(())
            });
        }
    }
    // blocks of every size
    c.case(|| "blocks of 0 to 6000 transactions".into(), |c| {
        let mut o = One::open(c.dir("x"), true)?;
        for n in [0usize, 1, 2, 3, 7, 8, 31, 32, 33, 100, 127, 128, 1000, 1023, 1024, 3000, 6000] {
            let txs: Vec<H> = (0..n as u64).map(hh).collect();
            let h = o.m.height();
            let b = Blk::of(Arc::new(TransactionBlock::new(u(n as u64), info(1, hh(1), hh(2), h, diff(1), addr(3)), merkle(&txs), txs)))?;
            ok("add_block", Ok(o.ch.as_ref().unwrap().add(&b)?))?;
            o.m.v.push(b);
            o.check(&format!("block of {n} transactions"))?;
            c.state(&("size", n));
        }
        o.step(9)?;
        o.check("after reopening")
    });
}

// ---------------------------------------------------------------- C15

struct World {
    dir: PathBuf,
    t: Option<BlockChainTree>,
    main: Idx,
    own: BTreeMap<usize, (H, Idx)>,
    handles: BTreeMap<usize, Ch>,
    tag: u64,
}
impl World {
    fn open(dir: PathBuf) -> Result<World, Fail> {
        let t = open_tree(&dir)?;
        Ok(World { dir, t: Some(t), main: Idx { base: u(0), v: vec![Blk::of(genesis())?] }, own: BTreeMap::new(), handles: BTreeMap::new(), tag: 0 })
    }
    fn get(&mut self, o: usize, a: &Addr) -> Result<DerivativeChain, Fail> {
        let tip = self.main.v.last().unwrap().hash;
        let t = self.t.as_mut().unwrap();
        let d = ok("get_derivative_chain", guard(|| t.get_derivative_chain(a)))?;
        let e = self.own.entry(o).or_insert_with(|| (tip, Idx::default()));
        same!(hex(&*d.genesis_hash), hex(&e.0), "anchor of owner {o}");
        self.handles.entry(o).or_insert(Ch::D(d.clone()));
        Ok(d)
    }
    fn add(&mut self, o: usize, a: &Addr) -> R {
        let d = Ch::D(self.get(o, a)?);
        self.tag += 10;
        let m = &mut self.own.get_mut(&o).unwrap().1;
        let b = blk(2, m.height(), self.tag);
        d.add(&b)?.map_err(|e| Fail::from(format!("owner {o}: a block of the right height {} was refused: {e}", m.height())))?;
        m.v.push(b);
        Ok(())
    }
    fn bad(&mut self, o: usize, a: &Addr) -> R {
        let d = Ch::D(self.get(o, a)?);
        self.tag += 10;
        let h = self.own[&o].1.height();
        for x in [h + 1, h.checked_sub(u(1)).unwrap_or(u(5)), U256::MAX] {
            ensure!(d.add(&blk(2, x, self.tag))?.is_err(), "owner {o}: a block of height {x} was accepted at height {h}");
        }
        Ok(())
    }
    fn main(&mut self) -> R {
        self.tag += 10;
        let b = blk((self.tag / 10 % 2) as u8, self.main.height(), self.tag);
        let ch = Ch::M(self.t.as_ref().unwrap().get_main_chain());
        ok("add_block", Ok(ch.add(&b)?))?;
        self.main.v.push(b);
        Ok(())
    }
    fn emit(&mut self, o: usize, a: &Addr, dt: u64) -> R {
        self.get(o, a)?;
        let (anchor, m) = &self.own[&o];
        let (ph, pd, pt) = match m.v.last() {
            Some(b) => (b.hash, b.d(), b.ts()),
            None => {
                let b = self.main.v.iter().find(|b| b.hash == *anchor).unwrap();
                (b.hash, diff(1), b.ts())
            }
        };
        let Some(n) = mine(&ph, &pd, &[], true) else { return Ok(()) };
        let t = self.t.as_mut().unwrap();
        let b = ok("emission", guard(|| block_on(t.emmit_new_derivative_block(&n, a, pt + dt))))?;
        same!(b.get_info().height, m.height(), "height of the emitted derivative block of owner {o}");
        same!(hex(&b.get_info().previous_hash), hex(&ph), "parent of the emitted derivative block of owner {o}");
        let b = Blk::of(b)?;
        self.own.get_mut(&o).unwrap().1.v.push(b);
        Ok(())
    }
    fn reopen(&mut self) -> R {
        flush(self.t.as_ref().unwrap())?;
        self.t = None;
        self.handles.clear();
        self.t = Some(open_tree(&self.dir)?);
        Ok(())
    }
    fn check(&mut self, ad: &[Addr], what: &str) -> R {
        let mc = Ch::M(self.t.as_ref().unwrap().get_main_chain());
        let mut foreign = vec![];
        for (_, (_, m)) in &self.own {
            foreign.extend(m.v.iter().map(|b| b.hash));
        }
        self.main.check(&mc, &foreign, &format!("{what}: main chain"))?;
        for o in self.own.keys().copied().collect::<Vec<_>>() {
            let d = Ch::D(self.get(o, &ad[o])?);
            let mut foreign: Vec<H> = self.main.v.iter().map(|b| b.hash).collect();
            for (p, (_, m)) in &self.own {
                if *p != o {
                    foreign.extend(m.v.iter().map(|b| b.hash));
                }
            }
            let m = &self.own[&o].1;
            m.check(&d, &foreign, &format!("{what}: owner {o}"))?;
            m.check(&self.handles[&o], &foreign, &format!("{what}: owner {o}, first handle"))?;
        }
        Ok(())
    }
}

fn c15(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    // two owners that differ in one bit
    let a = addr(7);
    let mut b = a;
    b[32] ^= 1;
    let ad = [a, b];
    let ops = ["get A", "add A", "add B", "emit A", "main", "reopen", "bad A", "get B", "emit B", "flush"];
    let run = |c: &mut Ctx, seq: &[usize]| -> R {
        let mut w = World::open(c.dir("x"))?;
        let what = |n: usize| seq[..n].iter().map(|i| ops[*i]).collect::<Vec<_>>().join(", ");
        for (i, op) in seq.iter().enumerate() {
            let r = match op {
                0 => w.get(0, &ad[0]).map(|_| ()),
                1 => w.add(0, &ad[0]),
                2 => w.add(1, &ad[1]),
                3 => w.emit(0, &ad[0], 700),
                4 => w.main(),
                5 => w.reopen(),
                6 => w.bad(0, &ad[0]),
                7 => w.get(1, &ad[1]).map(|_| ()),
                8 => w.emit(1, &ad[1], 10),
                _ => flush(w.t.as_ref().unwrap()),
            };
            r.map_err(|e| Fail::from(format!("[{}]: {}", what(i + 1), e.msg)))?;
            c.transitions += 1;
        }
        w.check(&ad, &format!("after [{}]", what(seq.len())))?;
        if seq.last() != Some(&5) {
            w.reopen()?;
            w.check(&ad, &format!("after [{}, reopen]", what(seq.len())))?;
        }
        c.state(&(w.main.v.len(), w.own.iter().map(|(k, v)| (*k, v.1.v.len(), w.main.v.iter().position(|b| b.hash == v.0))).collect::<Vec<_>>()));
        c.traces += 1;
        Ok(())
    };
    let (n1, d1, n2, d2) = c.pick((10, 4, 5, 5), (10, 5, 6, 7));
    for (n, d) in [(n1, d1), (n2, d2)] {
        for pre in tuples(n, 2) {
            c.case(|| format!("all histories of {d} out of {n} operations beginning with {}, {}", ops[pre[0]], ops[pre[1]]), |c| {
                for rest in tuples(n, d - 2) {
                    let seq: Vec<usize> = pre.iter().chain(&rest).copied().collect();
                    run(c, &seq)?;
                }
                Ok(())
            });
        }
    }
    // many owners, each differing from the first in one byte
    for part in 0..4usize {
        c.case(|| format!("owners that differ in one byte, part {part}"), |c| {
            let mut w = World::open(c.dir("x"))?;
            let mut ad = vec![a];
            for i in (0..33).filter(|i| i % 4 == part) {
                for x in [0x01u8, 0x80, 0x20] {
                    let mut o = a;
                    o[i] ^= x;
                    ad.push(o);
                }
            }
            ad.push([part as u8; 33]);
            ad.push([0xff - part as u8; 33]);
            ad.push([b'a' + part as u8; 33]);
            ad.push(ROOT);
            ad.push(addr(2));
            for round in 0..3 {
                for (i, x) in ad.clone().iter().enumerate() {
                    if i % 5 == 0 {
                        w.main()?;
                    }
                    if i % 3 == round % 3 || round == 0 {
                        w.get(i, x)?;
                    }
                    for k in 0..(i + round) % 3 {
                        if (k + round) % 2 == 0 { w.add(i, x)? } else { w.emit(i, x, 700)? }
                    }
                    if i + 8 > ad.len() {
                        w.emit(i, x, 700)?;
                    }
                    c.transitions += 1;
                }
                w.check(&ad, &format!("round {round}"))?;
                w.reopen()?;
                w.check(&ad, &format!("round {round} reopened"))?;
            }
            c.state(&("owners", part));
            Ok(())
        });
    }
    failing(c, &[(false, false)]);
    vsched::set_no_flusher(true);
    crate::persist::single_faults(c, &[crate::persist::P::DGet(0), crate::persist::P::DGet(5), crate::persist::P::DEmit(0), crate::persist::P::DEmit(5), crate::persist::P::DAdd(1), crate::persist::P::DAdd(6)]);
}

// ---------------------------------------------------------------- C16

/// the state an emission must not disturb
fn rest(t: &BlockChainTree, hs: &[H]) -> Result<Vec<U256>, Fail> {
    let mut v = vec![];
    for a in [ROOT, addr(1), addr(2), addr(3)] {
        v.push(ok("get_amount", guard(|| t.get_amount(&a)))?);
        v.push(ok("get_gas", guard(|| t.get_gas(&a)))?);
    }
    let mc = t.get_main_chain();
    for h in hs {
        v.push(U256::from(ok("transaction_exists", guard(|| mc.transaction_exists(h)))? as u64));
    }
    Ok(v)
}

pub struct Attempt<'a> {
    pub txs: &'a [H],
    pub nonce: H,
    pub founder: Addr,
    pub ts: u64,
}
/// one emission of a main block, judged by the statement
pub fn emit_main(t: &mut BlockChainTree, m: &mut Idx, a: &Attempt, what: &dyn Fn() -> String) -> Result<bool, Fail> {
    let tip = m.v.last().unwrap().clone();
    let h = tip.h() + 1;
    let closing = (h % u(EPOCH)).is_zero();
    let exp = pow_ok(&tip.hash, &tip.d(), a.txs, &a.nonce) && a.txs.is_empty() == closing;
    let before = rest(t, a.txs)?;
    let r = guard(|| block_on(t.emmit_new_main_block(&a.nonce, &a.founder, a.txs, a.ts)));
    let b = match r {
        Err(p) => return Err(format!("{}: emission {p}", what()).into()),
        Ok(Ok(_)) if !exp => return Err(format!("{}: emitted, but must be refused", what()).into()),
        Ok(Err(e)) if exp => return Err(format!("{}: refused, but must be emitted: {}", what(), short(&e)).into()),
        Ok(Err(_)) => {
            same!(rest(t, a.txs)?, before, "{}: balances and transactions after the refused emission", what());
            None
        }
        Ok(Ok(b)) => Some(b),
    };
    if let Some(b) = b {
        let i = b.get_info();
        same!(hex(&i.previous_hash), hex(&tip.hash), "{}: parent", what());
        same!(i.height, h, "{}: height", what());
        same!(hex(&i.founder), hex(&a.founder), "{}: founder", what());
        same!(hex(b.get_founder()), hex(&a.founder), "{}: founder", what());
        same!(hex(&i.pow), hex(&a.nonce), "{}: nonce", what());
        same!(i.timestamp, a.ts, "{}: timestamp", what());
        let nd = retarget(lz(&tip.d()), tip.ts(), a.ts);
        same!(lz(&i.difficulty), nd, "{}: difficulty bits after {} bits at {} and now {}", what(), lz(&tip.d()), tip.ts(), a.ts);
        if closing {
            ensure!(b.transactions().map_or(true, |x| x.is_empty()), "{}: a closing block carries transactions", what());
        } else {
            same!(b.transactions().map(|x| x.iter().map(|y| hex(y)).collect::<Vec<_>>()), Some(a.txs.iter().map(|y| hex(y)).collect::<Vec<_>>()), "{}: transactions", what());
            same!(hex(&b.get_merkle_root()), hex(&merkle(a.txs)), "{}: root", what());
            same!(b.get_fee(), fee_of(nd), "{}: fee at {nd} bits", what());
            let mut bal = before.clone();
            let now = rest(t, a.txs)?;
            same!(now, { bal.truncate(now.len()); bal }, "{}: balances after an ordinary block", what());
        }
        m.v.push(Blk::of(b)?);
    }
    let ch = Ch::M(t.get_main_chain());
    let from = m.v.len().saturating_sub(4);
    m.check_range(&ch, &[], &what(), from)?;
    Ok(exp)
}
/// one emission of a derivative block
fn emit_deriv(t: &mut BlockChainTree, main: &Idx, m: &mut (H, Idx), owner: &Addr, nonce: H, ts: u64, what: &dyn Fn() -> String) -> Result<bool, Fail> {
    let (ph, pd, pt) = match m.1.v.last() {
        Some(b) => (b.hash, b.d(), b.ts()),
        None => {
            let b = main.v.iter().find(|b| b.hash == m.0).ok_or("anchor unknown")?;
            (b.hash, diff(1), b.ts())
        }
    };
    let exp = pow_ok(&ph, &pd, &[], &nonce);
    let before = rest(t, &[])?;
    let r = guard(|| block_on(t.emmit_new_derivative_block(&nonce, owner, ts)));
    match r {
        Err(p) => return Err(format!("{}: emission {p}", what()).into()),
        Ok(Ok(_)) if !exp => return Err(format!("{}: emitted, but must be refused", what()).into()),
        Ok(Err(e)) if exp => return Err(format!("{}: refused, but must be emitted: {}", what(), short(&e)).into()),
        Ok(Err(_)) => {}
        Ok(Ok(b)) => {
            let i = b.get_info();
            same!(hex(&i.previous_hash), hex(&ph), "{}: parent", what());
            same!(i.height, m.1.height(), "{}: height", what());
            same!(hex(&i.founder), hex(owner), "{}: founder", what());
            same!(hex(&i.pow), hex(&nonce), "{}: nonce", what());
            same!(i.timestamp, ts, "{}: timestamp", what());
            same!(lz(&i.difficulty), retarget(lz(&pd), pt, ts), "{}: difficulty bits after {} bits at {pt} and now {ts}", what(), lz(&pd));
            m.1.v.push(Blk::of(b)?);
        }
    }
    same!(rest(t, &[])?, before, "{}: balances after a derivative emission", what());
    let d = Ch::D(ok("get_derivative_chain", guard(|| t.get_derivative_chain(owner)))?);
    let from = m.1.v.len().saturating_sub(4);
    m.1.check_range(&d, &[], &what(), from)?;
    let ch = Ch::M(t.get_main_chain());
    main.check_range(&ch, &[], &what(), main.v.len().saturating_sub(3))?;
    Ok(exp)
}
/// puts a tip of the wanted difficulty and time on the main chain
pub fn put_tip(t: &BlockChainTree, m: &mut Idx, d: H, ts: u64) -> R {
    let h = m.height();
    let txs = vec![hh(h.low_u64()), hh(3)];
    let b: BlockArc = Arc::new(TransactionBlock::new(fee_of(lz(&d)), info(ts, hh(1), hh(2), h, d, addr(1)), merkle(&txs), txs));
    let b = Blk::of(b)?;
    let ch = Ch::M(t.get_main_chain());
    ok("add_block", Ok(ch.add(&b)?))?;
    m.v.push(b);
    Ok(())
}
fn lists() -> Vec<Vec<H>> {
    vec![vec![], vec![hh(1)], vec![hh(1), hh(2)], vec![hh(2), hh(1)], vec![hh(1), hh(1)], (0..5).map(hh).collect(), (0..17).map(hh).collect(), vec![[0xff; 32]], vec![[0; 32], hh(4)]]
}
fn dts(ts: u64) -> Vec<u64> {
    let mut v: Vec<u64> = [-601i64, -600, -1, 0, 1, 10, 599, 600, 601, 1200, 100_000].iter().map(|d| (ts as i128 + *d as i128).clamp(0, u64::MAX as i128) as u64).collect();
    // differences that vanish, or are the target time, in narrower arithmetic
    for k in [8, 16, 31, 32, 33, 63] {
        v.extend([ts.saturating_add(1 << k), ts.saturating_add((1 << k) + 600)]);
    }
    v.extend([0, u64::MAX]);
    v.dedup();
    v
}
/// nonce for the attempt: 0 good, 1 bad, 2: good for the width below, not this one
fn pick_nonce(p: &H, d: &H, txs: &[H], kind: usize) -> Option<H> {
    if lz(d) > 20 {
        return if kind == 0 { None } else { mine(p, &diff(8), txs, true) };
    }
    match kind {
        0 => mine(p, d, txs, true),
        1 => mine(p, d, txs, false),
        _ => {
            let w = lz(d).checked_sub(1)?;
            let r = merkle(txs);
            (0..1u64 << 21).map(nonce).find(|n| lz(&sha(&[p, &r, n])) == w)
        }
    }
}

fn c16(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let dir = c.dir("tree");
    let mut t = open_tree(&dir).unwrap_or_else(|e| panic!("{}", e.msg));
    let mut m = Idx { base: u(0), v: vec![Blk::of(genesis()).unwrap_or_else(|e| panic!("{}", e.msg))] };
    let mut nown = c.shard << 32;
    let base = 1_700_000_000u64;
    // every single attempt from every kind of tip
    let bits: Vec<u32> = c.pick(vec![1, 2, 3, 7, 8, 9, 16, 40, 255, 256], (1..=18).chain([24, 40, 128, 247, 248, 254, 255, 256]).collect());
    for d in &bits {
        for (ts, name) in [(base, "ordinary"), (0, "zero"), (u64::MAX - 300, "latest")] {
            for k in 0..3usize {
                c.case(|| format!("tip of {d} bits at {name} time, nonce kind {k}: every list, time and founder"), |c| {
                    for txs in lists() {
                        for now in dts(ts) {
                            for f in [addr(2), ROOT] {
                                put_tip(&t, &mut m, diff(*d), ts)?;
                                let tip = m.v.last().unwrap();
                                let Some(n) = pick_nonce(&tip.hash, &tip.d(), &txs, k) else { continue };
                                let w = format!("tip of {d} bits at {ts}, {} transactions, now {now}, nonce kind {k}", txs.len());
                                let a = Attempt { txs: &txs, nonce: n, founder: f, ts: now };
                                emit_main(&mut t, &mut m, &a, &|| w.clone())?;
                                c.transitions += 1;
                            }
                        }
                        c.state(&(d, ts, k, txs.len()));
                    }
                    Ok(())
                });
            }
        }
    }
    // transaction lists of every size
    for n in ladder(c.pick(5001, 70_000)).into_iter().filter(|n| *n > 5) {
        c.case(|| format!("lists of {n} transactions"), |c| {
            let txs: Vec<H> = (0..n as u64).map(|i| hh(i * 3 + n as u64)).collect();
            for k in 0..2 {
                put_tip(&t, &mut m, diff(4), base)?;
                let tip = m.v.last().unwrap();
                let Some(x) = pick_nonce(&tip.hash, &tip.d(), &txs, k) else { continue };
                let a = Attempt { txs: &txs, nonce: x, founder: addr(2), ts: base + 10 };
                emit_main(&mut t, &mut m, &a, &|| format!("list of {n} transactions, nonce kind {k}"))?;
                c.transitions += 1;
            }
            c.state(&("list", n));
            Ok(())
        });
    }
    // derivative chains: first block on every kind of anchor, and later blocks
    for d in &bits {
        for k in 0..3usize {
            c.case(|| format!("derivative chain anchored at {d} bits, nonce kind {k}: histories of all time differences"), |c| {
                for t1 in dts(base) {
                    nown += 1;
                    let o = addr(nown);
                    put_tip(&t, &mut m, diff(*d), base)?;
                    ok("get_derivative_chain", guard(|| t.get_derivative_chain(&o)))?;
                    let mut mm = (m.v.last().unwrap().hash, Idx::default());
                    put_tip(&t, &mut m, diff(3), base + 5)?;
                    let Some(n) = pick_nonce(&mm.0, &diff(1), &[], k) else { continue };
                    let w = format!("first derivative block, anchor of {d} bits, now {t1}, nonce kind {k}");
                    emit_deriv(&mut t, &m, &mut mm, &o, n, t1, &|| w.clone())?;
                    c.transitions += 1;
                    for (j, dt) in [10i64, 600, 700, -50, 10, 10, 10, 5000].iter().enumerate() {
                        let (p, pd, pt) = match mm.1.v.last() {
                            Some(b) => (b.hash, b.d(), b.ts()),
                            None => (mm.0, diff(1), base),
                        };
                        let now = (pt as i128 + *dt as i128).clamp(0, u64::MAX as i128) as u64;
                        for kk in [1, 2, 0] {
                            let Some(n) = pick_nonce(&p, &pd, &[], kk) else { continue };
                            let w = format!("derivative block {j} at {now}, nonce kind {kk}");
                            emit_deriv(&mut t, &m, &mut mm, &o, n, now, &|| w.clone())?;
                            c.transitions += 1;
                        }
                    }
                    c.state(&("deriv", d, k, t1));
                }
                Ok(())
            });
        }
    }
    // owners of unusual addresses, among them those that founded the anchor
    for k in 0..3usize {
        c.case(|| format!("derivative chains of unusual owners, nonce kind {k}"), |c| {
            for first in [base, 0, u64::MAX - 300] {
                let mut t = open_tree(&c.dir("odd"))?;
                let mut m = Idx { base: u(0), v: vec![Blk::of(genesis())?] };
                let mut mirror = ROOT;
                mirror[0] ^= 1;
                for (oi, o) in [ROOT, [0; 33], [0xff; 33], [b'|'; 33], addr(2), mirror].into_iter().enumerate() {
                    put_tip(&t, &mut m, diff(oi as u32 * 3 + 1), first)?;
                    ok("get_derivative_chain", guard(|| t.get_derivative_chain(&o)))?;
                    let mut mm = (m.v.last().unwrap().hash, Idx::default());
                    for (j, now) in dts(first).into_iter().enumerate() {
                        let (p, pd) = mm.1.v.last().map_or((mm.0, diff(1)), |b| (b.hash, b.d()));
                        for kk in [k, 1, 0] {
                            let Some(n) = pick_nonce(&p, &pd, &[], kk) else { continue };
                            let w = format!("owner {}, block {j} at {now}, nonce kind {kk}", s8(&o));
                            if emit_deriv(&mut t, &m, &mut mm, &o, n, now, &|| w.clone())? {
                                break;
                            }
                            c.transitions += 1;
                        }
                    }
                    c.state(&("owner", first, oi, k));
                }
            }
            Ok(())
        });
    }
    // all short histories of main and derivative emissions, accepted and refused
    let depth = c.pick(4, 6);
    let kinds = ["main fast", "main slow", "main exact", "main bad nonce", "main empty", "deriv A", "deriv B", "deriv A bad"];
    for d in [1u32, 2, 8] {
        for pre in tuples(kinds.len(), 2) {
            c.case(|| format!("from {d} bits all histories of {depth} emissions beginning with {}, {}", kinds[pre[0]], kinds[pre[1]]), |c| {
                for more in tuples(kinds.len(), depth - 2) {
                    let seq: Vec<usize> = pre.iter().chain(&more).copied().collect();
                    if seq.iter().all(|k| [3, 4, 7].contains(k)) && c.tier == Tier::Quick && depth > 4 {
                        continue;
                    }
                    put_tip(&t, &mut m, diff(d), base)?;
                    let mut own = vec![];
                    for _ in 0..2 {
                        nown += 1;
                        own.push((addr(nown), None::<(H, Idx)>));
                    }
                    let mut now = base;
                    for (i, k) in seq.iter().enumerate() {
                        let w = || format!("[{}] from {d} bits", seq[..=i].iter().map(|k| kinds[*k]).collect::<Vec<_>>().join(", "));
                        let tip = m.v.last().unwrap().clone();
                        match k {
                            0..=4 => {
                                now = tip.ts() + [10u64, 700, 600, 10, 10][*k];
                                let txs: Vec<H> = if *k == 4 { vec![] } else { (0..(i as u64 + 1)).map(|x| hh(x + 5)).collect() };
                                let Some(n) = pick_nonce(&tip.hash, &tip.d(), &txs, (*k == 3) as usize) else { continue };
                                let a = Attempt { txs: &txs, nonce: n, founder: own[0].0, ts: now };
                                emit_main(&mut t, &mut m, &a, &w)?;
                            }
                            _ => {
                                let o = if *k == 6 { 1 } else { 0 };
                                let ad = own[o].0;
                                if own[o].1.is_none() {
                                    ok("get_derivative_chain", guard(|| t.get_derivative_chain(&ad)))?;
                                    own[o].1 = Some((tip.hash, Idx::default()));
                                }
                                let mm = own[o].1.as_mut().unwrap();
                                let (p, pd, pt) = match mm.1.v.last() {
                                    Some(b) => (b.hash, b.d(), b.ts()),
                                    None => (mm.0, diff(1), tip.ts()),
                                };
                                let Some(n) = pick_nonce(&p, &pd, &[], (*k == 7) as usize) else { continue };
                                emit_deriv(&mut t, &m, mm, &ad, n, pt + 30, &w)?;
                            }
                        }
                        c.transitions += 1;
                    }
                    c.state(&(d, seq, now));
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
    drop(t);
    // around the closing of an epoch
    for (e, off) in [(1u64, -2i64), (1, -1), (1, 0), (2, -1), (3, 0), (1000, -1), (4096, -1)] {
        for d in [1u32, 8] {
            c.case(|| format!("tip at height {e} epochs {off:+}, {d} bits: every list and nonce, then on through the closing block"), |c| {
                let img = c.dir("img");
                // number of blocks such that the tip's height is e*EPOCH + off
                let n = (e * EPOCH) as i64 + off + 1;
                let tip0 = tree_with_tip(&img, n as u64, d, base)?;
                let mut t = open_tree(&img)?;
                let mut m = Idx { base: tip0.h(), v: vec![tip0] };
                for a in [addr(2), addr(3)] {
                    ok("add_amount", guard(|| t.add_amount(&a, u(700))))?;
                    ok("add_gas", guard(|| t.add_gas(&a, u(300))))?;
                }
                let mut steps = 0;
                // what is on disk of the two generations of balances
                let peek = |c: &Ctx, t: &BlockChainTree| -> Result<_, Fail> {
                    flush(t)?;
                    let d = c.dir("peek");
                    copy_dir(&img, &d);
                    Ok((crate::epoch::ledger(&d)?, crate::epoch::snap(&d)?))
                };
                while steps < 4 {
                    let tip = m.v.last().unwrap().clone();
                    let closing = ((tip.h() + 1) % u(EPOCH)).is_zero();
                    let stored = peek(c, &t)?;
                    for kk in [1usize, 2, 0] {
                        for txs in lists().iter().take(4) {
                            if kk == 0 && txs.is_empty() == closing {
                                continue;
                            }
                            let Some(nn) = pick_nonce(&tip.hash, &tip.d(), txs, kk) else { continue };
                            let h = tip.h() + 1;
                            let w = || format!("height {h}, nonce kind {kk}, {} transactions", txs.len());
                            emit_main(&mut t, &mut m, &Attempt { txs, nonce: nn, founder: addr(5), ts: base + 100 }, &w)?;
                            c.transitions += 1;
                        }
                    }
                    let now = peek(c, &t)?;
                    crate::epoch::same_led(&now.0, &stored.0, "balances stored after refused emissions")?;
                    crate::epoch::same_led(&now.1, &stored.1, "snapshot stored after refused emissions")?;
                    let txs: Vec<H> = if closing { vec![] } else { vec![hh(1), hh(9)] };
                    let nn = pick_nonce(&tip.hash, &tip.d(), &txs, 0).unwrap();
                    let h = tip.h() + 1;
                    emit_main(&mut t, &mut m, &Attempt { txs: &txs, nonce: nn, founder: addr(5), ts: tip.ts() + 700 }, &|| format!("height {h}"))?;
                    c.state(&("closing", h, d));
                    steps += 1;
                }
                Ok(())
            });
        }
    }
    vsched::set_no_flusher(true);
    crate::persist::single_faults(c, &[crate::persist::P::Emit, crate::persist::P::DEmit(0), crate::persist::P::DEmit(5), crate::persist::P::Roll]);
}

// ---------------------------------------------------------------- C13

#[derive(Clone)]
pub enum Any {
    T(U256, H, Vec<H>, BasicInfo),
    S(H, BasicInfo),
    D(BasicInfo),
}
impl Any {
    pub fn of(b: &BlockArc) -> Any {
        let i = b.get_info().clone();
        match b.dump().unwrap()[0] {
            2 => Any::T(b.get_fee(), b.get_merkle_root(), b.transactions().unwrap().to_vec(), i),
            4 => Any::S(b.get_merkle_root(), i),
            _ => Any::D(i),
        }
    }
    pub fn info(&mut self) -> &mut BasicInfo {
        match self {
            Any::T(_, _, _, i) | Any::S(_, i) | Any::D(i) => i,
        }
    }
    pub fn arc(&self) -> BlockArc {
        match self.clone() {
            Any::T(f, r, t, i) => Arc::new(TransactionBlock::new(f, i, r, t)),
            Any::S(r, i) => Arc::new(SummarizeBlock { default_info: i, merkle_tree_root: r }),
            Any::D(i) => Arc::new(DerivativeBlock { default_info: i }),
        }
    }
    /// the verdict of the statement
    pub fn verdict(&self, p: &Blk) -> bool {
        let (i, txs, root): (&BasicInfo, Vec<H>, bool) = match self {
            Any::T(_, r, t, i) => (i, t.clone(), *r == merkle(t)),
            Any::S(_, i) => (i, vec![], true),
            Any::D(i) => (i, vec![], true),
        };
        // a derivative chain starts from the starting difficulty
        let pd = if matches!(self, Any::D(_)) && p.raw[0] != 3 { diff(1) } else { p.d() };
        root && i.previous_hash == p.hash && i.difficulty == diff(retarget(lz(&pd), p.ts(), i.timestamp)) && pow_ok(&p.hash, &pd, &txs, &i.pow)
    }
}
fn judge(c: &mut Ctx, a: &Any, p: &Blk, what: impl Fn() -> String) -> Result<bool, Fail> {
    c.transitions += 1;
    let exp = a.verdict(p);
    let b = a.arc();
    let got = guard(|| b.validate(Some(p.b.clone()))).map_err(|e| Fail::from(format!("{}: validation {e}", what())))?;
    let got = got.unwrap_or(false);
    ensure!(got == exp, "{}: {}", what(), if got { "validates although it must not" } else { "does not validate although it is a correct successor" });
    // the link check alone
    let named = b.get_info().previous_hash;
    let mut near = named;
    near[c.transitions as usize / 8 % 32] ^= 0x80 >> (c.transitions % 8);
    for h in [named, p.hash, near] {
        same!(guard(|| b.verify_block(&h))?, h == named, "{}: link check against {}", what(), hex(&h));
    }
    // without a parent: a verdict, no crash
    guard(|| b.validate(None).is_ok()).map_err(|e| Fail::from(format!("{}: validation without parent {e}", what())))?;
    Ok(exp)
}
fn fl(x: &mut [u8], b: usize) {
    x[b / 8] ^= 0x80 >> (b % 8)
}
/// every single-bit change and every structural change of a block
fn corrupt(c: &mut Ctx, a: &Any, p: &Blk, others: &[Blk], what: &str) -> R {
    for b in 0..256 {
        for (f, name) in [(0, "parent hash"), (1, "difficulty"), (2, "nonce"), (3, "root")] {
            let mut x = a.clone();
            match f {
                0 => fl(&mut x.info().previous_hash, b),
                1 => fl(&mut x.info().difficulty, b),
                2 => fl(&mut x.info().pow, b),
                _ => match &mut x {
                    Any::T(_, r, _, _) | Any::S(r, _) => fl(r, b),
                    _ => continue,
                },
            }
            judge(c, &x, p, || format!("{what} with bit {b} of the {name} changed"))?;
        }
    }
    for b in 0..264 {
        let mut x = a.clone();
        fl(&mut x.info().founder, b);
        judge(c, &x, p, || format!("{what} with bit {b} of the founder changed"))?;
    }
    for h in [u(0), u(1), U256::MAX, a.clone().info().height + 1] {
        let mut x = a.clone();
        x.info().height = h;
        judge(c, &x, p, || format!("{what} with height {h}"))?;
    }
    let mut ts = dts(p.ts());
    ts.extend((0..64).map(|k| a.clone().info().timestamp ^ (1 << k)));
    for t in ts {
        let mut x = a.clone();
        x.info().timestamp = t;
        judge(c, &x, p, || format!("{what} with timestamp {t}"))?;
        // and with the difficulty adapted to that time
        let pd = if matches!(a, Any::D(_)) && p.raw[0] != 3 { diff(1) } else { p.d() };
        x.info().difficulty = diff(retarget(lz(&pd), p.ts(), t));
        judge(c, &x, p, || format!("{what} with timestamp {t} and its difficulty"))?;
    }
    for d in 0..=256 {
        let mut x = a.clone();
        x.info().difficulty = diff(d);
        judge(c, &x, p, || format!("{what} with difficulty of {d} bits"))?;
    }
    for n in 0..64u64 {
        let mut x = a.clone();
        x.info().pow = nonce(n);
        judge(c, &x, p, || format!("{what} with nonce {n}"))?;
    }
    if let Any::T(_, _, t, _) = a {
        let n = t.len();
        let mut vs: Vec<Vec<H>> = vec![vec![]];
        for i in 0..n {
            let mut y = t.clone();
            y.remove(i);
            vs.push(y);
            let mut y = t.clone();
            y.push(t[i]);
            vs.push(y);
            let mut y = t.clone();
            y[i] = hh(4711);
            vs.push(y);
            for b in (0..256).step_by(5) {
                let mut y = t.clone();
                fl(&mut y[i], b);
                vs.push(y);
            }
            for j in i + 1..n {
                let mut y = t.clone();
                y.swap(i, j);
                vs.push(y);
            }
        }
        for y in vs {
            for fix in [false, true] {
                let mut x = a.clone();
                let l = y.len();
                if let Any::T(_, r, t, _) = &mut x {
                    *t = y.clone();
                    if fix {
                        *r = merkle(t);
                    }
                }
                judge(c, &x, p, || format!("{what} with a changed list of {l} transactions{}", if fix { " and its root" } else { "" }))?;
            }
        }
        for f in [u(0), u(1), U256::MAX] {
            let mut x = a.clone();
            if let Any::T(g, _, _, _) = &mut x {
                *g = f;
            }
            judge(c, &x, p, || format!("{what} with fee {f}"))?;
        }
    }
    for (i, o) in others.iter().enumerate() {
        judge(c, a, o, || format!("{what} against another parent ({i})"))?;
        let mut x = a.clone();
        x.info().previous_hash = o.hash;
        judge(c, &x, o, || format!("{what} moved to another parent ({i})"))?;
    }
    // a parent changed in one field is another parent
    let mut q = Any::of(&p.b);
    q.info().timestamp ^= 1;
    let q = Blk::of(q.arc())?;
    judge(c, a, &q, || format!("{what} against its parent with another timestamp"))?;
    let mut x = a.clone();
    x.info().previous_hash = q.hash;
    judge(c, &x, &q, || format!("{what} moved to its parent with another timestamp"))?;
    Ok(())
}

/// heights a parent may have, on both sides of what might be taken for special
fn parent_heights() -> Vec<U256> {
    let mut v: Vec<U256> = [0u64, 1, 2, 41, EPOCH - 2, EPOCH - 1, EPOCH, EPOCH + 1, 2 * EPOCH - 1, 2 * EPOCH, u64::MAX].map(u).to_vec();
    v.extend([u(1) << 64, (u(1) << 64) + 1, u(1) << 255, U256::MAX - 1, U256::MAX]);
    v
}
fn c13(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let base = 1_700_000_000u64;
    let dir = c.dir("tree");
    let mut t = open_tree(&dir).unwrap_or_else(|e| panic!("{}", e.msg));
    let mut m = Idx { base: u(0), v: vec![Blk::of(genesis()).unwrap_or_else(|e| panic!("{}", e.msg))] };
    let mut nown = c.shard << 32;
    // everything the tree emits, and every corruption of it
    let kinds: Vec<(&str, i64)> = vec![("fast", 5), ("exact", 600), ("slow", 900), ("backwards", -40)];
    let depth = c.pick(5, 7);
    for d in [1u32, 2, 7, 8] {
        for pre in tuples(4, 2) {
            c.case(|| format!("main chain emitted from {d} bits: all time patterns of {depth} beginning {}, {}", kinds[pre[0]].0, kinds[pre[1]].0), |c| {
                for more in tuples(4, depth - 2) {
                    let seq: Vec<usize> = pre.iter().chain(&more).copied().collect();
                    put_tip(&t, &mut m, diff(d), base)?;
                    for (i, k) in seq.iter().enumerate() {
                        let p = m.v.last().unwrap().clone();
                        let txs: Vec<H> = (0..(i as u64 % 3 + 1)).map(|x| hh(x + i as u64)).collect();
                        let n = mine(&p.hash, &p.d(), &txs, true).unwrap();
                        let now = (p.ts() as i64 + kinds[*k].1) as u64;
                        let b = ok("emission", guard(|| block_on(t.emmit_new_main_block(&n, &addr(2), &txs, now))))?;
                        let a = Any::of(&b);
                        let w = format!("main block {i} of {:?} from {d} bits", seq.iter().map(|k| kinds[*k].0).collect::<Vec<_>>());
                        let v = ok("validation", guard(|| b.validate(Some(p.b.clone()))))?;
                        ensure!(v, "{w}: the emitted block does not validate against its parent");
                        ensure!(judge(c, &a, &p, || w.clone())?, "{w}: the emitted block is not a correct successor");
                        c.state(&(d, &seq[..=i]));
                        if i + 1 == seq.len() && (more.iter().all(|x| *x == more[0]) || c.thorough()) {
                            let n = m.v.len();
                            let o = m.v[n.saturating_sub(3)..n - 1].to_vec();
                            corrupt(c, &a, &p, &o, &w)?;
                        }
                        m.v.push(Blk::of(b)?);
                        c.traces += 1;
                    }
                }
                Ok(())
            });
        }
        // derivative chains anchored at tips of that difficulty
        for pre in tuples(4, 1) {
            c.case(|| format!("derivative chain anchored at {d} bits: all time patterns of {depth} beginning {}", kinds[pre[0]].0), |c| {
                for more in tuples(4, depth - 1) {
                    let seq: Vec<usize> = pre.iter().chain(&more).copied().collect();
                    put_tip(&t, &mut m, diff(d), base)?;
                    nown += 1;
                    let o = addr(nown);
                    let mut p = m.v.last().unwrap().clone();
                    for (i, k) in seq.iter().enumerate() {
                        let pd = if i == 0 { diff(1) } else { p.d() };
                        let n = mine(&p.hash, &pd, &[], true).unwrap();
                        let now = (p.ts() as i64 + kinds[*k].1) as u64;
                        let b = ok("emission", guard(|| block_on(t.emmit_new_derivative_block(&n, &o, now))))?;
                        let a = Any::of(&b);
                        let w = format!("derivative block {i} of {:?}, anchor of {d} bits", seq.iter().map(|k| kinds[*k].0).collect::<Vec<_>>());
                        let v = ok("validation", guard(|| b.validate(Some(p.b.clone()))))?;
                        ensure!(v, "{w}: the emitted block does not validate against its parent");
                        ensure!(judge(c, &a, &p, || w.clone())?, "{w}: the emitted block is not a correct successor");
                        c.state(&("d", d, &seq[..=i]));
                        if more.iter().all(|x| *x == more[0]) && (i == 0 || i + 1 == seq.len()) {
                            let oth = m.v[m.v.len() - 2..].to_vec();
                            corrupt(c, &a, &p, &oth, &w)?;
                        }
                        p = Blk::of(b)?;
                        c.traces += 1;
                    }
                }
                Ok(())
            });
        }
    }
    drop(t);
    // closing blocks
    for e in [1u64, 3] {
        for d in [1u32, 5] {
            c.case(|| format!("the block that closes epoch {e} at {d} bits, its successor and corruptions of both"), |c| {
                let img = c.dir("img");
                let tip = tree_with_tip(&img, e * EPOCH, d, base)?;
                let mut t = open_tree(&img)?;
                for (k, txs, dt) in [("closing", vec![], 50u64), ("next", vec![hh(1), hh(2)], 900)] {
                    let p = if k == "closing" { tip.clone() } else { Blk::of(t.get_main_chain().get_last_block().map_err(|e| Fail::from(short(&e)))?.unwrap())? };
                    let n = mine(&p.hash, &p.d(), &txs, true).unwrap();
                    let b = ok("emission", guard(|| block_on(t.emmit_new_main_block(&n, &addr(2), &txs, p.ts() + dt))))?;
                    let v = ok("validation", guard(|| b.validate(Some(p.b.clone()))))?;
                    ensure!(v, "the emitted {k} block does not validate against its parent");
                    let a = Any::of(&b);
                    corrupt(c, &a, &p, &[Blk::of(genesis())?], k)?;
                    c.state(&("closing", e, d, k));
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
    // transaction lists of every size, altered all along
    for n in ladder(c.pick(5001, 70_000)).into_iter().filter(|n| *n > 3) {
        c.case(|| format!("successors with {n} transactions, altered all along the list"), |c| {
            let p = Blk::of(Any::S(hh(9), info(base, hh(3), hh(5), u(41), diff(3), addr(1))).arc())?;
            let txs: Vec<H> = (0..n as u64).map(|i| hh(i * 5 + n as u64)).collect();
            let good = |txs: &[H], r: H, k: usize| -> Option<Any> {
                let x = pick_nonce(&p.hash, &p.d(), txs, k)?;
                Some(Any::T(fee_of(3), r, txs.to_vec(), info(base + 600, x, p.hash, u(42), diff(3), addr(2))))
            };
            let r = merkle(&txs);
            for k in 0..2 {
                if let Some(a) = good(&txs, r, k) {
                    judge(c, &a, &p, || format!("list of {n} transactions, nonce kind {k}"))?;
                }
            }
            for i in positions(n).into_iter().step_by(if n > 500 { 4 } else { 1 }) {
                let mut y = txs.clone();
                y[i][31] ^= 1;
                // the root is that of the unaltered list, the nonce fits the altered one
                if let Some(a) = good(&y, r, 0) {
                    judge(c, &a, &p, || format!("list of {n} transactions, transaction {i} altered"))?;
                }
                y.remove(i);
                if let Some(a) = good(&y, r, 0) {
                    judge(c, &a, &p, || format!("list of {n} transactions, transaction {i} removed"))?;
                }
            }
            c.state(&("list", n));
            Ok(())
        });
    }
    // synthetic successors of every kind on parents of every kind and difficulty
    let ds: Vec<u32> = (0..=256).collect();
    for d in ds {
        c.case(|| format!("parents of {d} bits: successors of every kind, time and nonce kind"), |c| {
            let all = parent_heights();
            let heights = if d == 0 || d > 8 { vec![all[d as usize % all.len()]] } else { all };
            for h in heights {
            let parents: Vec<Blk> = vec![
                Blk::of(Any::T(fee_of(d), merkle(&[hh(1)]), vec![hh(1)], info(base, hh(3), hh(4), h, diff(d), addr(1))).arc())?,
                Blk::of(Any::S(hh(9), info(base, hh(3), hh(5), h, diff(d), addr(1))).arc())?,
                Blk::of(Any::D(info(base, hh(3), hh(6), h, diff(d), addr(1))).arc())?,
            ];
            for (pi, p) in parents.iter().enumerate() {
                for kind in 0..3usize {
                    if (kind == 2) != (pi == 2) && !(kind == 2 && pi != 2) {
                        continue;
                    }
                    let pd = if kind == 2 && pi != 2 { diff(1) } else { p.d() };
                    for txs in [vec![], vec![hh(1)], vec![hh(1), hh(2), hh(3)]] {
                        if kind != 0 && !txs.is_empty() {
                            continue;
                        }
                        for k in 0..3 {
                            let Some(n) = pick_nonce(&p.hash, &pd, &txs, k) else { continue };
                            for now in dts(base) {
                                for dd in [-1i32, 0, 1] {
                                    let nd = (retarget(lz(&pd), base, now) as i32 + dd).clamp(0, 256) as u32;
                                    let i = info(now, n, p.hash, h.overflowing_add(u(1)).0, diff(nd), addr(2));
                                    let a = match kind {
                                        0 => Any::T(fee_of(nd), merkle(&txs), txs.clone(), i),
                                        1 => Any::S(hh(8), i),
                                        _ => Any::D(i),
                                    };
                                    // a difficulty of zero bits precedes the start: no chain has it
                                    if lz(&pd) == 0 && dd == 0 {
                                        continue;
                                    }
                                    if lz(&pd) == 0 {
                                        guard(|| a.arc().validate(Some(p.b.clone())).is_ok())?;
                                        continue;
                                    }
                                    judge(c, &a, p, || format!("successor kind {kind} of parent kind {pi} ({d} bits, height {h}), {} transactions, nonce kind {k}, time {now}, {nd} bits", txs.len()))?;
                                }
                            }
                            c.state(&("syn", d, h, pi, kind, k, txs.len()));
                        }
                    }
                }
            }
            }
            Ok(())
        });
    }
    // crafted difficulties: no crash
    c.case(|| "parents and blocks with arbitrary difficulty values: a verdict, no crash".into(), |c| {
        for x in 0..600u64 {
            let mut dv = hh(x);
            for i in 0..(x % 33) as usize {
                dv[i] = 0;
            }
            if x % 7 == 0 {
                dv = [0; 32];
                dv[(x % 32) as usize] = x as u8;
            }
            for now in [0, 5, 600, 601, u64::MAX] {
                let p = Blk::of(Any::D(info(1, hh(3), hh(6), u(1), dv, addr(1))).arc())?;
                for a in [Any::D(info(now, hh(x), p.hash, u(2), dv, addr(1))), Any::S(hh(1), info(now, hh(x), p.hash, u(2), dv, addr(1))), Any::T(u(1), merkle(&[]), vec![], info(now, hh(x), p.hash, u(2), dv, addr(1)))] {
                    let b = a.arc();
                    guard(|| b.validate(Some(p.b.clone())).is_ok()).map_err(|e| Fail::from(format!("difficulty {}: validation {e}", hex(&dv))))?;
                    c.transitions += 1;
                }
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum O {
    /// append candidate (0 and 1 compete for the next height, 2 is for the one after)
    Add(usize),
    Height,
    Last,
    At(u64),
    By(usize),
    Flush,
    Rec(usize),
    Got(usize),
    /// emit candidate 3 (on the tip the program starts from) or 4 (on candidate 3)
    Emit(usize),
}
use O::*;
#[derive(Clone, Debug, PartialEq, Eq)]
enum Rs {
    Done(bool),
    Num(U256),
    Raw(Option<usize>),
    Junk(String),
}
#[derive(Clone)]
struct Mo {
    v: Vec<usize>,
    rec: u8,
}
impl Mo {
    fn go(&mut self, o: &O) -> Rs {
        match o {
            Add(k) => {
                let at = if *k == 2 { 1 } else { 0 };
                let good = self.v.len() == at;
                if good {
                    self.v.push(*k);
                }
                Rs::Done(good)
            }
            Height => Rs::Num(U256::from(self.v.len())),
            Last => Rs::Raw(self.v.last().copied().or(Some(99))),
            At(i) => Rs::Raw(self.v.get(*i as usize).copied()),
            By(k) => Rs::Raw(self.v.contains(k).then_some(*k)),
            Flush => Rs::Done(true),
            Rec(k) => {
                self.rec |= 1 << k;
                Rs::Done(true)
            }
            Got(k) => Rs::Done(self.rec >> k & 1 == 1),
            Emit(k) => {
                let good = if *k == 3 { self.v.is_empty() } else { self.v == [3] };
                if good {
                    self.v.push(*k);
                }
                Rs::Done(good)
            }
        }
    }
}
fn which(raw: Option<Vec<u8>>, cands: &[Blk], prev: &Blk) -> Rs {
    match raw {
        None => Rs::Raw(None),
        Some(r) if r == prev.raw => Rs::Raw(Some(99)),
        Some(r) => match cands.iter().position(|b| b.raw == r) {
            Some(i) => Rs::Raw(Some(i)),
            None => Rs::Junk(hex(&r)),
        },
    }
}
/// a tree whose emissions take part, and what candidates 3 and 4 are emitted from
#[derive(Clone)]
struct Em {
    tree: Arc<Mutex<BlockChainTree>>,
    owner: Addr,
    plan: Vec<(H, u64)>,
    list: Vec<H>,
}
impl Em {
    /// candidates 3 and 4, with nonces that fit their own parent only
    fn plan(&mut self, main: bool, cands: &mut Vec<Blk>, prev: &Blk, tag: u64) {
        self.plan.clear();
        self.list = if main { vec![hh(tag), hh(tag + 5)] } else { vec![] };
        for k in 3..5 {
            let parent = if k == 3 { prev.clone() } else { cands[3].clone() };
            let ts = parent.ts() + TARGET;
            let wrong: Vec<&Blk> = cands.iter().chain([prev]).filter(|b| b.hash != parent.hash).collect();
            let n = (0..).map(nonce).find(|n| pow_ok(&parent.hash, &parent.d(), &self.list, n) && wrong.iter().all(|w| !pow_ok(&w.hash, &w.d(), &self.list, n))).unwrap();
            let i = info(ts, n, parent.hash, parent.h() + 1, parent.d(), self.owner);
            let b: BlockArc = if main {
                Arc::new(TransactionBlock::new(fee_of(lz(&parent.d())), i, merkle(&self.list), self.list.clone()))
            } else {
                Arc::new(DerivativeBlock { default_info: i })
            };
            self.plan.push((n, ts));
            cands.push(Blk::of(b).unwrap_or_else(|e| panic!("{}", e.msg)));
        }
    }
    fn emit(&self, main: bool, k: usize, cands: &[Blk]) -> Result<Rs, String> {
        let (n, ts) = self.plan[k - 3];
        let mut t = self.tree.lock().unwrap();
        let r = if main { block_on_sched(t.emmit_new_main_block(&n, &self.owner, &self.list, ts)) } else { block_on_sched(t.emmit_new_derivative_block(&n, &self.owner, ts)) };
        Ok(match r {
            Err(_) => Rs::Done(false),
            Ok(b) => {
                let raw = b.dump().map_err(|e| short(&e))?;
                if raw == cands[k].raw { Rs::Done(true) } else { Rs::Junk(hex(&raw)) }
            }
        })
    }
}
#[allow(clippy::too_many_arguments)]
fn act(ch: &Ch, o: &O, base: &U256, cands: &[Blk], prev: &Blk, txs: &[Transaction], decoded: bool, em: &Option<Em>) -> Result<Rs, String> {
    fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
        r.map_err(|e| short(&e))
    }
    guard(|| -> Result<Rs, String> {
        Ok(match o {
            Add(k) => Rs::Done(ch.add(&cands[*k])?.is_ok()),
            Height => {
                let h = match ch { Ch::M(c) => c.get_height(), Ch::D(c) => c.get_height() };
                if h < *base { Rs::Junk(format!("height {h}")) } else { Rs::Num(h - base) }
            }
            Last => match ch {
                Ch::M(c) if decoded => which(e(c.get_last_block())?.map(|b| b.dump().unwrap()), cands, prev),
                Ch::M(c) => which(e(c.get_last_raw_block())?, cands, prev),
                Ch::D(c) if decoded => which(e(c.get_last_block())?.map(|b| b.dump().unwrap()), cands, prev),
                Ch::D(c) => which(e(c.get_last_raw_block())?, cands, prev),
            },
            At(i) => {
                let h = base + u(*i);
                match ch {
                    Ch::M(c) if decoded => which(e(c.find_by_height(&h))?.map(|b| b.dump().unwrap()), cands, prev),
                    Ch::M(c) => which(e(c.find_raw_by_height(&h))?, cands, prev),
                    Ch::D(c) if decoded => which(e(c.find_by_height(&h))?.map(|b| b.dump().unwrap()), cands, prev),
                    Ch::D(c) => which(e(c.find_raw_by_height(&h))?, cands, prev),
                }
            }
            By(k) => {
                let x = cands[*k].hash;
                match ch {
                    Ch::M(c) if decoded => which(e(c.find_by_hash(&x))?.map(|b| b.dump().unwrap()), cands, prev),
                    Ch::M(c) => which(e(c.find_raw_by_hash(&x))?, cands, prev),
                    Ch::D(c) if decoded => which(e(c.find_by_hash(&x))?.map(|b| b.dump().unwrap()), cands, prev),
                    Ch::D(c) => which(e(c.find_raw_by_hash(&x))?, cands, prev),
                }
            }
            Flush => {
                let r = match ch {
                    Ch::M(c) => guard(|| block_on_sched(c.flush())),
                    Ch::D(c) => guard(|| block_on_sched(c.flush())),
                };
                Rs::Done(e(r?).map(|_| true)?)
            }
            Rec(k) => match ch {
                Ch::M(c) => Rs::Done(e(c.add_transaction(&txs[*k])).map(|_| true)?),
                _ => Rs::Done(true),
            },
            Got(k) => match ch {
                Ch::M(c) => {
                    let h = Transactionable::hash(&txs[*k]);
                    let r = e(c.get_transaction(&h))?;
                    if let Some(t) = &r {
                        if crate::submit::ref_dump(t) != crate::submit::ref_dump(&txs[*k]) {
                            return Ok(Rs::Junk("another transaction".into()));
                        }
                    }
                    Rs::Done(r.is_some())
                }
                _ => Rs::Done(true),
            },
            Emit(k) => em.as_ref().unwrap().emit(matches!(ch, Ch::M(_)), *k, cands)?,
        })
    })?
}

struct Stage {
    dir: PathBuf,
    ch: Ch,
    m: Idx,
    main: bool,
    tag: u64,
    key: Key,
    em: Option<Em>,
    owner: String,
}
impl Stage {
    fn new(dir: PathBuf, main: bool, emits: bool) -> Result<Stage, Fail> {
        let mut em = None;
        let mut owner = OWNER.to_string();
        let ch = if emits {
            let mut t = open_tree(&dir)?;
            let who = addr(77);
            owner = hex(&who);
            let ch = if main { Ch::M(t.get_main_chain()) } else { Ch::D(ok("get_derivative_chain", guard(|| t.get_derivative_chain(&who)))?) };
            em = Some(Em { tree: Arc::new(Mutex::new(t)), owner: who, plan: vec![], list: vec![] });
            ch
        } else if main {
            Ch::M(open_main(&dir)?)
        } else {
            Ch::D(open_deriv(&dir, OWNER, &GEN)?)
        };
        let mut s = Stage {
            ch,
            em,
            owner,
            dir,
            m: Idx::default(),
            main,
            tag: 0,
            key: key(1),
        };
        if main {
            s.m.v.push(Blk::of(genesis())?);
        } else {
            let b = blk(2, u(0), 1);
            ok("add_block", Ok(s.ch.add(&b)?))?;
            s.m.v.push(b);
        }
        s.ch.flush()?;
        Ok(s)
    }
}

fn sched(c: &mut Ctx, st: &mut Stage, progs: &[Vec<O>], bound: usize, decoded: bool) -> R {
    let flushes = progs.iter().flatten().any(|o| *o == Flush);
    let wants_rec = progs.iter().flatten().any(|o| matches!(o, Rec(_) | Got(_)));
    let scratch = c.scratch.join("copy");
    let mut traces = 0;
    let st0 = std::cell::RefCell::new(st);
    let cap = c.pick(60_000, 400_000);
    let r = vsched::explore(bound, cap, &mut |prefix| {
        let mut st = st0.borrow_mut();
        st.tag += 100;
        let tag = st.tag;
        let base = st.m.height();
        let kind = if st.main { (tag / 100 % 2) as u8 } else { 2 };
        let mut cands = vec![blk(kind, base, tag), blk(if st.main { 1 - kind } else { 2 }, base, tag + 10), blk(kind, base + 1, tag + 20)];
        let mut em = st.em.clone();
        if let Some(em) = &mut em {
            em.plan(st.main, &mut cands, st.m.v.last().unwrap(), tag);
        }
        let cands: Arc<Vec<Blk>> = Arc::new(cands);
        let txs: Arc<Vec<Transaction>> = Arc::new(if wants_rec { (0..2).map(|i| tx(&st.key, &addr(1), tag + i, u(5), Some(vec![1, 2]))).collect() } else { vec![] });
        let prev = Arc::new(st.m.v.last().unwrap().clone());
        let clock = Clock::new();
        let out: Arc<Mutex<Vec<(Done, O, Result<Rs, String>)>>> = Arc::new(Mutex::new(vec![]));
        let mut bodies: Vec<vsched::Body> = vec![];
        for (th, ops) in progs.iter().enumerate() {
            let (ch, cands, txs, prev, clock, out, ops, em) = (st.ch.clone(), cands.clone(), txs.clone(), prev.clone(), clock.clone(), out.clone(), ops.clone(), em.clone());
            bodies.push(Box::new(move || {
                for o in &ops {
                    let start = clock.tick();
                    let r = act(&ch, o, &base, &cands, &prev, &txs, decoded, &em);
                    let end = clock.tick();
                    let mut g = out.lock().unwrap();
                    let k = g.len();
                    g.push((Done { th, start, end, op: k }, *o, r));
                }
            }));
        }
        let x = vsched::run_once(bodies, prefix);
        if let Some(f) = &x.failed {
            return Err(format!("{f}; schedule {:?}", x.trace));
        }
        traces += 1;
        let o = out.lock().unwrap().clone();
        for (d, op, r) in &o {
            if let Err(p) = r {
                return Err(format!("thread {} {op:?}: {p}; schedule {:?}", d.th, x.trace));
            }
        }
        let h = match &st.ch { Ch::M(c) => c.get_height(), Ch::D(c) => c.get_height() };
        if h < base || h > base + 2 {
            return Err(format!("height {h} after starting from {base}; schedule {:?}", x.trace));
        }
        let mut fin: Vec<usize> = vec![];
        for i in 0..(h - base).low_u64() {
            match act(&st.ch, &At(i), &base, &cands, &prev, &txs, decoded, &None)? {
                Rs::Raw(Some(k)) if k < 5 => fin.push(k),
                e => return Err(format!("height {} holds {e:?} afterwards; schedule {:?}", base + u(i), x.trace)),
            }
        }
        let ev: Vec<Done> = o.iter().map(|x| x.0.clone()).collect();
        let good = linearizable(
            &ev,
            &Mo { v: vec![], rec: 0 },
            &|m: &Mo, k| {
                let mut m2 = m.clone();
                (m2.go(&o[k].1) == *o[k].2.as_ref().unwrap()).then_some(m2)
            },
            &|m: &Mo| m.v == fin,
        );
        if !good {
            return Err(format!("no one-at-a-time order explains {:?} with the final blocks {fin:?}; schedule {:?}", o.iter().map(|x| (x.0.th, x.1, &x.2)).collect::<Vec<_>>(), x.trace));
        }
        for k in &fin {
            st.m.v.push(cands[*k].clone());
        }
        let absent: Vec<H> = (0..cands.len()).filter(|k| !fin.contains(k)).map(|k| cands[k].hash).collect();
        let from = st.m.v.len().saturating_sub(4);
        let w = || format!("after schedule {:?}", x.trace);
        st.m.check_range(&st.ch, &absent, "afterwards", from).map_err(|e| format!("{} {}", e.msg, w()))?;
        if flushes {
            // what a crash right now would leave: at least everything before the program started
            // its flush, in order, linked and complete
            copy_dir(&st.dir, &scratch);
            let ch = if st.main { Ch::M(open_main(&scratch).map_err(|e| e.msg + &w())?) } else { Ch::D(open_deriv(&scratch, &st.owner, &GEN).map_err(|e| e.msg + &w())?) };
            let ph = ch.height().map_err(|e| e.msg)?;
            if ph > st.m.height() || ph < base {
                return Err(format!("reopened after the flush the chain has height {ph}, before {base}, after {}; {}", st.m.height(), w()));
            }
            let mut m2 = Idx { base: st.m.base, v: st.m.v[..(ph - st.m.base).low_u64() as usize].to_vec() };
            if m2.v.is_empty() {
                m2.v = vec![];
            }
            let from = m2.v.len().saturating_sub(4);
            m2.check_range(&ch, &[], "reopened after the flush", from).map_err(|e| format!("{} {}", e.msg, w()))?;
        }
        if st.m.v.len() > 40 && flushes {
            // keep the copy small
            let main = st.main;
            let d = st.dir.clone();
            let nd = d.with_extension(format!("n{}", st.tag));
            let key = std::mem::replace(&mut st.key, key(1));
            let tag = st.tag;
            let n = Stage::new(nd, main, st.em.is_some()).map_err(|e| e.msg)?;
            **st = n;
            st.tag = tag;
            st.key = key;
            let _ = std::fs::remove_dir_all(&d);
        }
        Ok(x)
    });
    let s = r.map_err(Fail::from)?;
    c.count("schedules", s.executions);
    c.count("scheduling_decisions", s.choice_points);
    c.max("decisions_per_schedule", s.max_depth as u64);
    if s.capped {
        c.count("capped", 1);
    }
    c.transitions += s.steps;
    c.traces += traces;
    Ok(())
}

/// Closing an epoch while another thread uses the main chain's handle.
fn closing(c: &mut Ctx, tpl: &Path, tip: &Blk, other: &[O], bound: usize) -> R {
    use crate::epoch::{ledger, snap};
    let d = c.dir("close");
    let d = d.as_path();
    let (ts, founder) = (tip.ts() + TARGET, addr(78));
    let base = tip.h() + 1;
    let rivals = vec![blk(0, base, 900), blk(1, base, 910), blk(0, base + 1, 920)];
    let n = (0..).map(nonce).find(|n| pow_ok(&tip.hash, &tip.d(), &[], n) && rivals.iter().all(|w| !pow_ok(&w.hash, &w.d(), &[], n))).unwrap();
    let led: BTreeMap<Vec<u8>, (U256, U256)> = BTreeMap::from([(ROOT.to_vec(), (cycle(), u(0))), (addr(1).to_vec(), (u(700), u(40))), (addr(2).to_vec(), (u(3), u(0))), (addr(3).to_vec(), (u(0), u(9)))]);
    let after = crate::epoch::after_close(&led);
    let mut traces = 0;
    let txs: Arc<Vec<Transaction>> = Arc::new((0..2).map(|i| tx(&key(1), &addr(1), 33 + i, u(5), None)).collect());
    let r = vsched::explore(bound, 100_000, &mut |prefix| {
        let e = |f: Fail| f.msg;
        let _ = std::fs::remove_dir_all(d);
        copy_dir(tpl, d);
        let t = open_tree(d).map_err(e)?;
        for (a, (x, g)) in &led {
            let a: Addr = a.as_slice().try_into().unwrap();
            if a != ROOT {
                t.set_amount(&a, *x).map_err(|e| short(&e))?;
                t.add_gas(&a, *g).map_err(|e| short(&e))?;
            }
        }
        let ch = Ch::M(t.get_main_chain());
        let clock = Clock::new();
        let out: Arc<Mutex<Vec<(Done, O, Result<Rs, String>)>>> = Arc::new(Mutex::new(vec![]));
        // candidate 3 is the closing block; its root is whatever the tree computes
        let made: Arc<Mutex<Option<(Vec<u8>, H)>>> = Arc::default();
        let cell = Arc::new(Mutex::new(t));
        let mut bodies: Vec<vsched::Body> = vec![];
        {
            let (cell, clock, out, made) = (cell.clone(), clock.clone(), out.clone(), made.clone());
            bodies.push(Box::new(move || {
                let start = clock.tick();
                let r = guard(|| {
                    let mut t = cell.lock().unwrap();
                    block_on_sched(t.emmit_new_main_block(&n, &founder, &[], ts)).map(|b| (b.dump().unwrap(), b.hash().unwrap())).ok()
                });
                let end = clock.tick();
                let r = r.map(|b| {
                    let good = b.is_some();
                    *made.lock().unwrap() = b;
                    Rs::Done(good)
                });
                let mut g = out.lock().unwrap();
                let k = g.len();
                g.push((Done { th: 0, start, end, op: k }, Emit(3), r));
            }));
        }
        {
            let (ch, cands, txs, tip, clock, out, ops) = (ch.clone(), rivals.clone(), txs.clone(), tip.clone(), clock.clone(), out.clone(), other.to_vec());
            bodies.push(Box::new(move || {
                for o in &ops {
                    let start = clock.tick();
                    let r = act(&ch, o, &base, &cands, &tip, &txs, false, &None);
                    let end = clock.tick();
                    let mut g = out.lock().unwrap();
                    let k = g.len();
                    g.push((Done { th: 1, start, end, op: k }, *o, r));
                }
            }));
        }
        let x = vsched::run_once(bodies, prefix);
        if let Some(f) = &x.failed {
            return Err(format!("{f}; schedule {:?}", x.trace));
        }
        traces += 1;
        let made = made.lock().unwrap().clone();
        let known = |r: &Rs| match (r, &made) {
            (Rs::Junk(j), Some((raw, _))) if *j == hex(raw) => Rs::Raw(Some(3)),
            _ => r.clone(),
        };
        let mut o = vec![];
        for (d, op, r) in out.lock().unwrap().iter() {
            match r {
                Err(p) => return Err(format!("thread {} {op:?}: {p}; schedule {:?}", d.th, x.trace)),
                Ok(r) => o.push((d.clone(), *op, known(r))),
            }
        }
        let h = ch.height().map_err(e)?;
        if h < base || h > base + 2 {
            return Err(format!("height {h} after starting from {base}; schedule {:?}", x.trace));
        }
        let mut fin = vec![];
        let mut cands = rivals.clone();
        for i in 0..(h - base).low_u64() {
            match known(&act(&ch, &At(i), &base, &rivals, tip, &txs, false, &None)?) {
                Rs::Raw(Some(k)) => fin.push(k),
                e => return Err(format!("height {} holds {e:?} afterwards; schedule {:?}", base + u(i), x.trace)),
            }
        }
        if let Some((raw, hash)) = &made {
            match act(&ch, &Last, &base, &rivals, tip, &txs, false, &None)? {
                Rs::Junk(j) if fin.len() == 1 && j != hex(raw) => return Err(format!("the last block is not the emitted one; schedule {:?}", x.trace)),
                _ => {}
            }
            let Ch::M(m) = &ch else { unreachable!() };
            match m.find_raw_by_hash(hash) {
                Ok(Some(r)) if r == *raw => {}
                _ => return Err(format!("the emitted block is not found by its hash; schedule {:?}", x.trace)),
            }
            let b = m.find_by_hash(hash).map_err(|e| short(&e))?.ok_or("no emitted block")?;
            cands.push(Blk::of(b).map_err(e)?);
        }
        let ev: Vec<Done> = o.iter().map(|x| x.0.clone()).collect();
        let good = linearizable(
            &ev,
            &Mo { v: vec![], rec: 0 },
            &|m: &Mo, k| {
                let mut m2 = m.clone();
                (m2.go(&o[k].1) == o[k].2).then_some(m2)
            },
            &|m: &Mo| m.v == fin,
        );
        if !good {
            return Err(format!("no one-at-a-time order explains {:?} with the final blocks {fin:?}; schedule {:?}", o.iter().map(|x| (x.0.th, x.1, &x.2)).collect::<Vec<_>>(), x.trace));
        }
        let w = format!("after schedule {:?}", x.trace);
        let mut m = Idx { base: tip.h(), v: vec![tip.clone()] };
        m.v.extend(fin.iter().map(|k| cands[*k].clone()));
        let absent: Vec<H> = (0..cands.len()).filter(|k| !fin.contains(k)).map(|k| cands[k].hash).collect();
        m.check_range(&ch, &absent, &w, 0).map_err(e)?;
        let t = cell.lock().unwrap();
        crate::util::flush(&t).map_err(e)?;
        drop(t);
        drop((ch, cell));
        // the balances of a refused closing are as they were
        let led2 = if made.is_some() { &after } else { &led };
        crate::epoch::same_led(&ledger(d).map_err(e)?, led2, &format!("balances, closing accepted: {}, {w}", made.is_some())).map_err(e)?;
        if made.is_some() {
            crate::epoch::same_led(&snap(d).map_err(e)?, &led, &format!("snapshot {w}")).map_err(e)?;
        }
        let t = open_tree(d).map_err(|f| f.msg + &w)?;
        m.check_range(&Ch::M(t.get_main_chain()), &absent, &format!("reopened {w}"), 0).map_err(e)?;
        Ok(x)
    });
    let s = r.map_err(Fail::from)?;
    c.count("schedules", s.executions);
    c.count("scheduling_decisions", s.choice_points);
    c.max("decisions_per_schedule", s.max_depth as u64);
    if s.capped {
        c.count("capped", 1);
    }
    c.transitions += s.steps;
    c.traces += traces;
    Ok(())
}

fn c18(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    {
        // an epoch's end beside another thread
        let tpl = c.dir("tpl");
        let tip = tree_with_tip(&tpl, EPOCH, 1, 1_700_000_000).unwrap_or_else(|e| panic!("{}", e.msg));
        let one = [Add(0), Flush, Height, Last, At(0), By(0), Rec(0), Got(0)];
        for a in one {
            for b in one {
                // queries after queries bring nothing that the parts below do not cover
                let bound = c.pick(1, 2);
                c.case(|| format!("main: closing an epoch | {a:?}, {b:?}"), |c| {
                    c.state(&("closing", a, b));
                    closing(c, &tpl, &tip, &[a, b], bound)
                });
            }
            c.case(|| format!("main: closing an epoch | {a:?}"), |c| {
                c.state(&("closing", a));
                closing(c, &tpl, &tip, &[a], c.pick(2, 3))
            });
        }
    }
    for main in [true, false] {
        let d = c.dir(if main { "m" } else { "d" });
        let mut st = Stage::new(d, main, false).unwrap_or_else(|e| panic!("{}", e.msg));
        let nm = if main { "main" } else { "derivative" };
        let readers: Vec<O> = vec![Height, Last, At(0), At(1), By(0), By(1), By(2)];
        let bound = c.pick(3, 8);
        // two appenders (competing or extending) and the reader's every pair of queries
        let appenders: Vec<Vec<O>> = vec![vec![Add(0)], vec![Add(0), Add(2)], vec![Add(2), Add(0)], vec![Add(0), Add(1)], vec![Add(1), Add(2)]];
        for a in &appenders {
            for b in &appenders {
                for decoded in [false, true] {
                    c.case(|| format!("{nm}: {a:?} | {b:?} decoded={decoded}"), |c| {
                        c.state(&(main, a, b, decoded));
                        sched(c, &mut st, &[a.clone(), b.clone()], bound, decoded)
                    });
                }
            }
            for q in &readers {
                for r in &readers {
                    for decoded in [false, true] {
                        c.case(|| format!("{nm}: {a:?} | {q:?}, {r:?} decoded={decoded}"), |c| {
                            c.state(&(main, a, q, r, decoded));
                            sched(c, &mut st, &[a.clone(), vec![*q, *r]], bound, decoded)
                        });
                    }
                }
            }
        }
        // three threads
        for q in &readers {
            for p in [[Add(0), Add(1)], [Add(0), Add(2)]] {
                c.case(|| format!("{nm}: {p:?} | {q:?} three threads"), |c| {
                    c.state(&(main, p, q));
                    sched(c, &mut st, &[vec![p[0]], vec![p[1]], vec![*q]], if c.thorough() { 4 } else { 2 }, false)
                });
            }
        }
        c.case(|| format!("{nm}: three appenders"), |c| sched(c, &mut st, &[vec![Add(0)], vec![Add(1)], vec![Add(2)]], if c.thorough() { 5 } else { 3 }, false));
        if c.thorough() {
            for q in &readers {
                for r in &readers {
                    c.case(|| format!("{nm}: three threads of two, {q:?} {r:?}"), |c| {
                        c.state(&(main, q, r, 3));
                        sched(c, &mut st, &[vec![Add(0), Add(2)], vec![Add(1), *q], vec![*r]], 3, false)
                    });
                }
            }
        }
        // flushing
        let fb = c.pick(2, 3);
        let fl: Vec<Vec<Vec<O>>> = vec![
            vec![vec![Flush], vec![Add(0)]],
            vec![vec![Flush], vec![Add(0), Add(2)]],
            vec![vec![Flush], vec![Flush]],
            vec![vec![Add(0), Flush], vec![Add(2)]],
            vec![vec![Add(0), Flush], vec![Add(1), Flush]],
            vec![vec![Flush], vec![Last, Height]],
            vec![vec![Add(0), Flush], vec![Flush, Add(2)]],
        ];
        for p in &fl {
            c.case(|| format!("{nm}: {p:?}"), |c| {
                c.state(&(main, p));
                sched(c, &mut st, p, fb, false)
            });
        }
        // emission beside the use of shared handles
        let d = c.dir(if main { "me" } else { "de" });
        let mut se = Stage::new(d, main, true).unwrap_or_else(|e| panic!("{}", e.msg));
        let emitters = [vec![Emit(3)], vec![Emit(3), Emit(4)], vec![Emit(3), Add(2)], vec![Add(0), Emit(3)], vec![Emit(4), Emit(3)]];
        for e in &emitters {
            let mut other: Vec<Vec<O>> = appenders.clone();
            for q in &readers {
                for r in &readers {
                    other.push(vec![*q, *r]);
                }
            }
            if main {
                other.extend([vec![Rec(0), Got(0)], vec![Got(0), Rec(0)]]);
            }
            for o in other {
                c.case(|| format!("{nm}: {e:?} | {o:?}"), |c| {
                    c.state(&(main, e, &o, 9));
                    sched(c, &mut se, &[e.clone(), o.clone()], bound, false)
                });
            }
            for o in [vec![Flush], vec![Add(0), Flush], vec![Flush, Last]] {
                c.case(|| format!("{nm}: {e:?} | {o:?}"), |c| {
                    c.state(&(main, e, &o, 9));
                    sched(c, &mut se, &[e.clone(), o.clone()], fb, false)
                });
            }
            c.case(|| format!("{nm}: {e:?} | three threads"), |c| {
                c.state(&(main, e, 8));
                sched(c, &mut se, &[e.clone(), vec![Add(0)], vec![Add(1), Last]], if c.thorough() { 3 } else { 1 }, false)
            });
        }
        drop(se);
        // recorded transactions
        if main {
            for p in [
                vec![vec![Rec(0)], vec![Got(0), Got(0)]],
                vec![vec![Rec(0), Got(0)], vec![Rec(0), Got(0)]],
                vec![vec![Rec(0), Got(1)], vec![Rec(1), Got(0)]],
                vec![vec![Rec(0), Add(0)], vec![At(0), Got(0)]],
                vec![vec![Add(0), Rec(0)], vec![Got(0), Last]],
            ] {
                c.case(|| format!("{nm}: {p:?}"), |c| {
                    c.state(&(main, &p));
                    sched(c, &mut st, &p, bound, false)
                });
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", level: "model_checking", run: c13, exhaustive: true, shards: 8,
            rule: "a case is a family of emitted chains (all time patterns of the stated length) with every single-bit and structural corruption of emitted blocks, or all synthetic successors of parents of one difficulty; states = distinct histories and (difficulty, kinds, nonce kind) classes, transitions = validations judged by an independent verdict",
            assumptions: &["SHA-256 collisions do not occur among the enumerated blocks", "a derivative chain's first block starts from the starting difficulty, as the tree emits it"] },
        Prop { id: "C14", level: "model_checking", run: c14, exhaustive: true, shards: 8,
            rule: "all operation sequences of the stated depth over ten operations (two appends, six refused appends, flush, reopen), long chains and chains continued at every boundary height; after the steps every query over every height and hash is compared with a reference index; states = (kind, length, refusals, last operation) and heights",
            assumptions: &["heights beyond those reachable by appending are set through the configuration file"] },
        Prop { id: "C15", level: "model_checking", run: c15, exhaustive: true, shards: 8,
            rule: "all histories of the stated depth over ten operations on two owners that differ in one bit, plus families of owners that differ in one byte; every index, anchor and cross-lookup compared with a reference model, again after reopening; states = (main length, per-owner length and anchor)",
            assumptions: &[] },
        Prop { id: "C16", level: "model_checking", run: c16, exhaustive: true, shards: 8,
            rule: "every emission attempt in the product of tip difficulty, tip time, nonce kind, transaction list, time and founder; all histories of the stated depth over eight kinds of emission; all attempts on both sides of an epoch's end; each judged by an independent admission rule and the complete chain state compared; states = attempt classes and histories",
            assumptions: &["heights near an epoch's end are reached by rewriting the configuration file, then appending"] },
        Prop { id: "C18", level: "model_checking", run: c18, exhaustive: true, shards: 8,
            rule: "stateless model checking: for every program every schedule of storage-operation entries and lock waits with at most B preemptions; results and final blocks must be explained by a one-at-a-time order; with a flush in the program the directory is also copied and reopened; states = programs, transitions = scheduler steps, traces = executions",
            assumptions: &["each public sled operation is atomic; sequentially consistent memory", "work of the async runtime's helper threads is not interleaved with the controlled threads beyond their completion"] },
    ]
}
#[allow(dead_code)]
fn unused(_: &Path) {}

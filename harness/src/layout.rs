//! C32 the format of folders and encodings.
use crate::chainx::{tuples, Any};
use crate::epoch;
use crate::model::*;
use crate::persist::{acct, library_ops, near_end, owner, patch_closing, Run, St, P};
use crate::rt::*;
use crate::submit::{ref_dump, same_tx};
use crate::util::*;
use crate::{ensure, same};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;

pub type Store = BTreeMap<Vec<u8>, Vec<u8>>;

// ---------------------------------------------------------------- encodings, by hand

pub fn enc_info(i: &BasicInfo) -> Vec<u8> {
    let mut v = i.timestamp.to_be_bytes().to_vec();
    v.extend(i.previous_hash);
    v.extend(i.pow);
    v.extend(i.difficulty);
    v.extend(i.founder);
    v.extend(enc_u256(&i.height));
    v
}
pub fn enc_any(b: &Any) -> Vec<u8> {
    let mut v;
    match b {
        Any::T(fee, root, txs, i) => {
            v = vec![2u8];
            v.extend(root);
            v.extend(enc_info(i));
            v.extend(enc_u256(fee));
            v.extend(txs.concat());
        }
        Any::S(root, i) => {
            v = vec![4u8];
            v.extend(root);
            v.extend(enc_info(i));
        }
        Any::D(i) => {
            v = vec![3u8];
            v.extend(enc_info(i));
        }
    }
    v
}
pub fn enc_blk(b: &Blk) -> Vec<u8> {
    enc_any(&Any::of(&b.b))
}

// ---------------------------------------------------------------- folders, by hand

pub fn get(p: &Path) -> Result<Store, Fail> {
    ensure!(p.is_dir(), "there is no store {}", p.display());
    let db = ok("opening a store", reopen(|| sled::open(p)))?;
    let mut m = Store::new();
    for r in db.iter() {
        let (k, v) = r.map_err(|e| Fail::from(format!("reading store {}: {e}", p.display())))?;
        m.insert(k.to_vec(), v.to_vec());
    }
    Ok(m)
}
pub fn put(p: &Path, m: &Store) -> R {
    std::fs::create_dir_all(p).map_err(|e| Fail::from(e.to_string()))?;
    let db = ok("creating a store", reopen(|| sled::open(p)))?;
    for (k, v) in m {
        db.insert(k.as_slice(), v.as_slice()).map_err(|e| Fail::from(e.to_string()))?;
    }
    db.flush().map_err(|e| Fail::from(e.to_string()))?;
    Ok(())
}
fn chain_stores(m: &Idx) -> (Store, Store) {
    let (mut b, mut r) = (Store::new(), Store::new());
    for k in &m.v {
        let raw = enc_blk(k);
        r.insert(sha(&[&raw]).to_vec(), be32(&k.h()).to_vec());
        b.insert(be32(&k.h()).to_vec(), raw);
    }
    (b, r)
}
fn funds(s: &BTreeMap<usize, (U256, U256)>) -> (Store, Store) {
    let (mut a, mut g) = (Store::new(), Store::new());
    for (i, (c, x)) in s {
        if !c.is_zero() {
            a.insert(acct(*i).to_vec(), enc_u256(c));
        }
        if !x.is_zero() {
            g.insert(acct(*i).to_vec(), enc_u256(x));
        }
    }
    (a, g)
}
fn first_diff(a: &Store, b: &Store) -> String {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            return format!("under {}: {:?} instead of {:?}", hex(k), a.get(k).map(|v| hex(v)), b.get(k).map(|v| hex(v)));
        }
    }
    String::new()
}
/// the records of a chain; what lies at or above its height is not looked at
fn chain_on_disk(d: &Path, m: &Idx, anchor: Option<&H>, what: &str) -> R {
    let (b, r) = chain_stores(m);
    let cfg = std::fs::read(d.join("Chain.config")).map_err(|e| Fail::from(format!("{what}: configuration: {e}")))?;
    same!(cfg.len(), if anchor.is_some() { 96 } else { 64 }, "{what}: size of the configuration");
    same!(hex(&cfg[..32]), hex(&be32(&m.height())), "{what}: height in the configuration");
    if let Some(a) = anchor {
        same!(hex(&cfg[64..]), hex(a), "{what}: anchor in the configuration");
    }
    let lo = be32(&m.base).to_vec();
    let mut x = get(&d.join("BLOCKS"))?;
    x.retain(|k, _| *k >= lo && *k < be32(&m.height()).to_vec());
    ensure!(x == b, "{what}: stored blocks, {}", first_diff(&x, &b));
    let x = get(&d.join("REF"))?;
    for (k, v) in &r {
        same!(x.get(k).map(|v| hex(v)), Some(hex(v)), "{what}: reference of block {}", hex(k));
    }
    Ok(())
}
/// the reference reader: a flushed and closed folder holds exactly the state
pub fn on_disk(d: &Path, s: &St, what: &str) -> R {
    chain_on_disk(&d.join("MAIN"), &s.main, None, &format!("{what}: main chain"))?;
    for (o, (anchor, m)) in &s.own {
        chain_on_disk(&d.join("DERIVATIVES").join(hex(&owner(*o))), m, Some(anchor), &format!("{what}: chain of owner {o}"))?;
    }
    let txs: Store = s.txs.iter().map(|(h, x)| (h.to_vec(), ref_dump(x))).collect();
    let x = get(&d.join("MAIN").join("TRANSACTIONS"))?;
    ensure!(x == txs, "{what}: stored transactions, {}", first_diff(&x, &txs));
    let (a, g) = funds(&s.led);
    for (name, want) in [("SUMMARY", a), ("GASSUMMARY", g)] {
        let mut x = get(&d.join(name))?;
        // an explicit zero is a zero
        x.retain(|_, v| *v != [0]);
        ensure!(x == want, "{what}: store {name}, {}", first_diff(&x, &want));
    }
    if let Some(l) = &s.snap {
        let (a, g) = funds(l);
        for (name, want) in [("SUMMARYOLD", a), ("GASSUMMARYOLD", g)] {
            let mut x = get(&d.join(name))?;
            x.retain(|_, v| *v != [0]);
            ensure!(x == want, "{what}: store {name}, {}", first_diff(&x, &want));
        }
    }
    Ok(())
}
fn write_chain(d: &Path, m: &Idx, anchor: Option<&H>) -> R {
    let (b, r) = chain_stores(m);
    put(&d.join("BLOCKS"), &b)?;
    put(&d.join("REF"), &r)?;
    let mut cfg = be32(&m.height()).to_vec();
    cfg.extend(diff(1));
    cfg.extend(anchor.into_iter().flatten());
    std::fs::write(d.join("Chain.config"), cfg).map_err(|e| Fail::from(e.to_string()))
}
/// the reference writer
pub fn write(d: &Path, s: &St) -> R {
    let _ = std::fs::remove_dir_all(d);
    let main = d.join("MAIN");
    std::fs::create_dir_all(&main).map_err(|e| Fail::from(e.to_string()))?;
    write_chain(&main, &s.main, None)?;
    put(&main.join("TRANSACTIONS"), &s.txs.iter().map(|(h, x)| (h.to_vec(), ref_dump(x))).collect())?;
    for (o, (anchor, m)) in &s.own {
        write_chain(&d.join("DERIVATIVES").join(hex(&owner(*o))), m, Some(anchor))?;
    }
    let (a, g) = funds(&s.led);
    put(&d.join("SUMMARY"), &a)?;
    put(&d.join("GASSUMMARY"), &g)?;
    let (a, g) = s.snap.as_ref().map(funds).unwrap_or_default();
    put(&d.join("SUMMARYOLD"), &a)?;
    put(&d.join("GASSUMMARYOLD"), &g)
}

/// a history on a real tree; its folder read by the reference reader; the state written by the
/// reference writer and read by the tree, which goes on from there, and once more
fn through(c: &mut Ctx, seq: &[P], tpl: Option<(&Path, &St)>) -> R {
    let d = c.dir("x");
    let s = match tpl {
        Some((p, s)) => {
            copy_dir(p, &d);
            s.clone()
        }
        None => St::fresh()?,
    };
    let what = seq.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(" ");
    let mut r = Run::open(d.clone(), s)?;
    r.tag = 500;
    for op in seq {
        if !r.step(*op).map_err(|e| Fail::from(format!("[{what}]: {}", e.msg)))? {
            c.count("steps_not_applicable", 1);
            return Ok(());
        }
        if *op == P::Roll {
            patch_closing(&mut r)?;
        }
        c.transitions += 1;
    }
    flush(r.t.as_ref().unwrap())?;
    r.t = None;
    on_disk(&d, &r.s, &format!("[{what}]"))?;
    let e = c.dir("y");
    write(&e, &r.s)?;
    let mut q = Run::open(e.clone(), r.s.clone())?;
    q.tag = r.tag;
    q.blocks = r.blocks.clone();
    q.made = r.made.clone();
    q.compare(&format!("[{what}] written by hand"))?;
    for op in [P::Block, P::DAdd(0), P::DEmit(1), P::Spend, P::Emit, P::Submit] {
        q.step(op).map_err(|e| Fail::from(format!("[{what}] written by hand, then: {}", e.msg)))?;
        c.transitions += 1;
    }
    q.compare(&format!("[{what}] written by hand, going on"))?;
    flush(q.t.as_ref().unwrap())?;
    q.t = None;
    on_disk(&e, &q.s, &format!("[{what}] written by hand, going on"))?;
    c.state(&(seq.to_vec(), tpl.is_some()));
    c.traces += 2;
    Ok(())
}

fn c32(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let full = library_ops();
    let depth = c.pick(3, 4);
    for pre in tuples(full.len(), 1) {
        c.case(|| format!("all histories of up to {depth} operations that start with {:?}", full[pre[0]]), |c| {
            for n in 0..depth {
                for rest in tuples(full.len(), n) {
                    let seq: Vec<P> = pre.iter().chain(&rest).map(|i| full[*i]).collect();
                    through(c, &seq, None)?;
                }
            }
            Ok(())
        });
    }
    c.case(|| "the empty history".into(), |c| through(c, &[], None));
    let small = [P::Block, P::Spend, P::DEmit(0), P::Submit, P::Reopen];
    let depth = c.pick(4, 6);
    for pre in tuples(small.len(), 2) {
        c.case(|| format!("all histories of {depth} main operations that start with {pre:?}"), |c| {
            for rest in tuples(small.len(), depth - 2) {
                let mut seq = vec![P::Coins, P::Gas];
                seq.extend(pre.iter().chain(&rest).map(|i| small[*i]));
                through(c, &seq, None)?;
            }
            Ok(())
        });
    }
    let ends = [P::Roll, P::Emit, P::Block, P::Spend, P::Submit, P::DEmit(1), P::Reopen];
    let depth = c.pick(3, 4);
    for left in [0, 1] {
        for pre in tuples(ends.len(), 1) {
            c.case(|| format!("{left} blocks before an epoch's end, all histories of {depth} operations that start with {:?}", ends[pre[0]]), |c| {
                let (tpl, s) = near_end(c, "tpl", left)?;
                for rest in tuples(ends.len(), depth - 1) {
                    let mut seq: Vec<P> = pre.iter().chain(&rest).map(|i| ends[*i]).collect();
                    through(c, &seq, Some((&tpl, &s)))?;
                    if !seq.contains(&P::Roll) {
                        seq.push(P::Roll);
                        through(c, &seq, Some((&tpl, &s)))?;
                    }
                }
                Ok(())
            });
        }
    }
    values(c);
    wide(c);
    archives(c);
}

/// every integer width, balance and height through folders written by hand
fn wide(c: &mut Ctx) {
    let ints = ints_bytes();
    for part in 0..8usize {
        c.case(|| format!("balances of every width, part {part}"), |c| {
            for pair in ints.chunks(2).skip(part).step_by(8) {
                let (x, y) = (pair[0], *pair.last().unwrap());
                let d = c.dir("w");
                let mut s = St::fresh()?;
                s.led = BTreeMap::from([(0, (cycle(), y)), (1, (x, y)), (2, (y, x)), (3, (u(0), x))]);
                s.snap = Some(BTreeMap::from([(1, (y, x))]));
                write(&d, &s)?;
                let mut r = Run::open(d.clone(), s)?;
                r.compare(&format!("balances {x} and {y} written by hand"))?;
                // a record that the tree writes itself
                let t = r.t();
                for (a, v) in [(acct(1), y), (acct(2), x)] {
                    ok("set_amount", guard(|| t.set_amount(&a, v)))?;
                }
                flush(t)?;
                r.s.led.get_mut(&1).unwrap().0 = y;
                r.s.led.get_mut(&2).unwrap().0 = x;
                r.t = None;
                on_disk(&d, &r.s, &format!("balances {x} and {y}"))?;
                c.state(&("balance", x.0, y.0));
                c.transitions += 2;
            }
            Ok(())
        });
        c.case(|| format!("chains ending at every width of height, part {part}"), |c| {
            for x in ints.iter().skip(part).step_by(8) {
                if *x < u(2) || *x > U256::MAX - u(4) || (*x + u(1)) % u(EPOCH) == u(0) {
                    continue;
                }
                let d = c.dir("h");
                let mut s = St::fresh()?;
                let b = tblock(*x, 5);
                s.main = Idx { base: *x, v: vec![Blk::of(b)?] };
                s.own = BTreeMap::from([(0, (s.main.v[0].hash, Idx { base: *x - 1, v: vec![Blk::of(Arc::new(dblock(*x - 1, 9)))?] }))]);
                s.led.clear();
                write(&d, &s)?;
                let mut r = Run::open(d.clone(), s)?;
                r.compare(&format!("height {x} written by hand"))?;
                for op in [P::Block, P::DAdd(0)] {
                    r.step(op)?;
                }
                flush(r.t.as_ref().unwrap())?;
                r.t = None;
                on_disk(&d, &r.s, &format!("height {x}"))?;
                c.state(&("height", x.0));
                c.transitions += 2;
            }
            Ok(())
        });
    }
}

/// encodings written by hand are read, and those the code makes are those
fn values(c: &mut Ctx) {
    let ints = if c.thorough() { ints_dense() } else { ints_bytes() };
    c.case(|| "integers".into(), |c| {
        for x in &ints {
            let e = enc_u256(x);
            let mut v = vec![];
            ok("dump_u256", guard(|| tools::dump_u256(x, &mut v)))?;
            same!(hex(&v), hex(&e), "encoding of {x}");
            same!(ok("load_u256", guard(|| tools::load_u256(&e)))?.0, *x, "encoding written by hand");
            c.transitions += 2;
            c.state(&("int", x.0));
        }
        Ok(())
    });
    let times = [0u64, 1, 255, 256, 1_700_000_000, u32::MAX as u64, 1 << 32, u64::MAX];
    for kind in 0..3usize {
        for part in 0..4usize {
            c.case(|| format!("blocks of kind {kind}, part {part}"), |c| {
                for (n, x) in ints.iter().enumerate().filter(|(n, _)| n % 4 == part) {
                    for (k, ts) in times.iter().enumerate() {
                        let tag = (n * 8 + k) as u64;
                        let i = info(*ts, hh(tag), hh(tag + 1), *x, hh(tag + 2), addr(tag));
                        let txs: Vec<H> = (0..(n + k) % 7).map(|j| hh(tag + 10 + j as u64)).collect();
                        let y = ints[(n * 7 + k) % ints.len()];
                        let b = match kind {
                            0 => Any::T(y, hh(tag + 3), txs, i),
                            1 => Any::S(hh(tag + 3), i),
                            _ => Any::D(i),
                        };
                        let want = enc_any(&b);
                        let a = b.arc();
                        same!(hex(&ok("dump", guard(|| a.dump()))?), hex(&want), "encoding of a block");
                        same!(hex(&ok("hash", guard(|| a.hash()))?), hex(&sha(&[&want])), "hash of a block");
                        let got: BlockArc = if kind == 2 {
                            Arc::new(ok("parse", guard(|| DerivativeBlock::parse(&want[1..])))?)
                        } else {
                            ok("deserialize_main_chain_block", guard(|| block::deserialize_main_chain_block(&want)))?
                        };
                        same!(hex(&enc_any(&Any::of(&got))), hex(&want), "block read from an encoding written by hand");
                        c.transitions += 2;
                    }
                    c.state(&("block", kind, n));
                }
                Ok(())
            });
        }
    }
    c.case(|| "transactions".into(), |c| {
        let k = key(3);
        for (n, x) in ints.iter().enumerate() {
            for (j, ts) in times.iter().enumerate() {
                let len = [0usize, 1, 2, 31, 32, 33, 255, 256, 1000][(n + j) % 9];
                let data = (len > 0).then(|| (0..len).map(|b| (b * 7 + n) as u8).collect::<Vec<u8>>());
                let t = tx(&k, &addr(n as u64), *ts, *x, data);
                let want = ref_dump(&t);
                same!(hex(&ok("dump", guard(|| t.dump()))?), hex(&want), "encoding of a transaction");
                same!(hex(&Transactionable::hash(&t)), hex(&sha(&[&want])), "hash of a transaction");
                let got = ok("parse", guard(|| Transaction::parse(&want[1..])))?;
                same_tx(&got, &t)?;
                c.transitions += 2;
                if j > 1 && !c.thorough() {
                    break;
                }
            }
            c.state(&("transaction", n));
        }
        Ok(())
    });
    c.case(|| "digests that signatures cover".into(), |c| {
        let k = key(3);
        for (n, x) in ints.iter().enumerate().step_by(5) {
            let data = (n % 3 > 0).then(|| vec![n as u8; n % 50 + 1]);
            let t = tx(&k, &addr(n as u64), n as u64, *x, data);
            ensure!(matches!(guard(|| t.verify()), Ok(Ok(true))), "a signed transaction does not verify");
            c.transitions += 1;
        }
        Ok(())
    });
}

/// compressed files made by hand
fn archives(c: &mut Ctx) {
    fn frame(blocks: &[(u32, Vec<u8>, u32)]) -> Vec<u8> {
        // zstd: magic, a frame header without content size, window of 8 MiB; raw and run-length blocks
        let mut v = vec![0x28, 0xb5, 0x2f, 0xfd, 0x00, 0x68];
        for (i, (kind, bytes, n)) in blocks.iter().enumerate() {
            let h = ((i + 1 == blocks.len()) as u32) | kind << 1 | n << 3;
            v.extend(&h.to_le_bytes()[..3]);
            v.extend(bytes);
        }
        v
    }
    c.case(|| "compressed files made by hand".into(), |c| {
        for n in ladder(100_000) {
            let (content, file) = match n {
                0 => (vec![], frame(&[(0, vec![], 0)])),
                _ => {
                    let raw: Vec<u8> = (0..n).map(|i| (i * 31 + i / 256) as u8).collect();
                    let mut blocks: Vec<(u32, Vec<u8>, u32)> = raw.chunks(100_000).map(|x| (0, x.to_vec(), x.len() as u32)).collect();
                    blocks.push((1, vec![0x5a], (n % 1000) as u32));
                    let mut all = raw;
                    all.extend(vec![0x5a; n % 1000]);
                    (all, frame(&blocks))
                }
            };
            let d = c.dir("z");
            let f = d.join("archive");
            std::fs::write(&f, file).unwrap();
            let got = ok("decompress_from_file", guard(|| tools::decompress_from_file(f.to_str().unwrap().into())))?;
            ensure!(got == content, "a compressed file of {n} bytes made by hand is read as {} bytes", got.len());
            // and what is written is such a file
            ok("compress_to_file", guard(|| tools::compress_to_file(f.to_str().unwrap().into(), &content)))?;
            let raw = std::fs::read(&f).unwrap();
            ensure!(raw.starts_with(&[0x28, 0xb5, 0x2f, 0xfd]), "a compressed file does not start as one");
            c.state(&("archive", n));
            c.transitions += 2;
        }
        Ok(())
    });
    // the stand-alone funds store
    c.case(|| "funds stores".into(), |c| {
        let ints = ints_bytes();
        let d = c.dir("f");
        {
            let m: Store = ints.iter().enumerate().map(|(i, x)| (addr(i as u64).to_vec(), enc_u256(x))).collect();
            put(&d, &m)?;
            let db = blockchaintree::summary_db::SummaryDB::new(ok("open", reopen(|| sled::open(&d)))?);
            for (i, x) in ints.iter().enumerate() {
                let got = ok("get_funds", guard(|| db.get_funds(&addr(i as u64))))?;
                same!(got.to_string(), x.to_string(), "funds written by hand");
                if *x < U256::MAX {
                    ok("add_funds", guard(|| block_on(db.add_funds(&addr(i as u64), &u(1)))))?;
                }
                c.transitions += 2;
            }
            ok("flush", guard(|| block_on(db.flush())))?;
        }
        let x = get(&d)?;
        for (i, v) in ints.iter().enumerate() {
            let v = if *v < U256::MAX { *v + 1 } else { *v };
            same!(x.get(&addr(i as u64).to_vec()).map(|x| hex(x)), Some(hex(&enc_u256(&v))), "stored funds");
        }
        c.state(&"funds");
        Ok(())
    });
    let _ = epoch::show;
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        level: "model_checking",
        run: c32,
        exhaustive: true,
        shards: 8,
        rule: "explicit-state exploration: all histories of the stated depth over fifteen operations, over five of them with funded accounts, and over seven around an epoch's end; after each the folder is read by a reader written from the format alone and compared record by record with the model, and the model state is written by a writer of the same kind into a new folder, which the tree opens, is compared on and continues; besides, every encoding class of integers, blocks, transactions, balances, heights, compressed files and funds, both ways; states = histories and values, transitions = operations and conversions",
        assumptions: &["the storage library's own file format is not part of the property", "the format is the one of the pinned commit"],
    }]
}

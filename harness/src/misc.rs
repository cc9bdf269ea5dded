//! C23 pool, C24 recorded transactions, C25 file utilities, C26 stand-alone funds store.
use crate::fsx;
use crate::ledger::{linearizable, Clock, Done};
use crate::model::*;
use crate::rt::*;
use crate::submit::{ref_dump, ref_hash};
use crate::util::*;
use crate::{ensure, same};
use blockchaintree::errors::{TransactionError, TxErrorKind};
use blockchaintree::summary_db::SummaryDB;
use blockchaintree::txpool::TxPool;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ C23

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct F {
    ts: u64,
    hash: H,
}
type TxRes<T> = Result<T, error_stack::Report<TransactionError>>;
impl Transactionable for F {
    fn hash_without_signature(&self) -> H {
        self.hash
    }
    fn verify(&self) -> TxRes<bool> {
        Ok(true)
    }
    fn dump(&self) -> TxRes<Vec<u8>> {
        Ok(self.hash.to_vec())
    }
    fn hash(&self) -> H {
        self.hash
    }
    fn get_dump_size(&self) -> usize {
        32
    }
    fn parse(_: &[u8]) -> TxRes<Self> {
        Err(TransactionError::Tx(TxErrorKind::Parse).into())
    }
    fn get_sender(&self) -> &Addr {
        &ROOT
    }
    fn get_receiver(&self) -> &Addr {
        &ROOT
    }
    fn get_timestamp(&self) -> u64 {
        self.ts
    }
    fn get_signature(&self) -> &[u8; 64] {
        &[0; 64]
    }
    fn get_amount(&self) -> Option<U256> {
        None
    }
    fn get_data(&self) -> Option<&[u8]> {
        None
    }
}

/// the order in which ties were seen to be resolved: (first, second)
type Ties = BTreeSet<(H, H)>;

struct Pool {
    p: TxPool,
    m: BTreeMap<H, u64>,
}
impl Pool {
    fn new(kind: usize) -> Pool {
        let p = match kind {
            0 => TxPool::new(),
            1 => TxPool::with_capacity(0),
            2 => TxPool::with_capacity(3),
            _ => TxPool::default(),
        };
        Pool { p, m: BTreeMap::new() }
    }
    fn push(&mut self, f: F) -> R {
        let fresh = !self.m.contains_key(&f.hash);
        let r = guard(|| self.p.push(Box::new(f)))?;
        same!(r, fresh, "push of {} at {}", s8(&f.hash), f.ts);
        if fresh {
            self.m.insert(f.hash, f.ts);
        }
        Ok(())
    }
    fn pop(&mut self, ties: &mut Ties) -> Result<Option<H>, Fail> {
        let r = guard(|| self.p.pop())?;
        let Some((h, item)) = r else {
            ensure!(self.m.is_empty(), "pop found nothing in a pool of {}", self.m.len());
            return Ok(None);
        };
        same!(hex(&item.hash()), hex(&h), "hash yielded with the transaction");
        let Some(ts) = self.m.remove(&h) else { return Err(format!("pop yielded {}, which is not in the pool", s8(&h)).into()) };
        same!(item.get_timestamp(), ts, "timestamp of the yielded transaction");
        if let Some((o, t)) = self.m.iter().find(|(_, t)| **t < ts) {
            return Err(format!("pop yielded {} of {ts} although {} of {t} is in the pool", s8(&h), s8(o)).into());
        }
        for (o, t) in &self.m {
            if *t == ts {
                ensure!(!ties.contains(&(*o, h)), "transactions {} and {} of one timestamp come in one order here and in the other elsewhere", s8(&h), s8(o));
                ties.insert((h, *o));
            }
        }
        Ok(Some(h))
    }
    fn check(&self, all: &[F]) -> R {
        same!(guard(|| self.p.len())?, self.m.len(), "len");
        same!(guard(|| self.p.is_empty())?, self.m.is_empty(), "is_empty");
        for f in all {
            same!(guard(|| self.p.transaction_exists(&f.hash))?, self.m.contains_key(&f.hash), "existence of {}", s8(&f.hash));
        }
        ensure!(!self.p.transaction_exists(&hh(424242)), "a transaction never admitted exists");
        let mut v: Vec<(H, u64)> = guard(|| self.p.transactions_iter().map(|x| (x.hash(), x.get_timestamp())).collect())?;
        v.sort();
        let e: Vec<(H, u64)> = self.m.iter().map(|(h, t)| (*h, *t)).collect();
        ensure!(v == e, "iteration shows {} transactions, expected {}", v.len(), e.len());
        Ok(())
    }
}

/// every ordering of 0..n
fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut v: Vec<usize> = (0..n).collect();
    fn go(k: usize, v: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == v.len() {
            out.push(v.clone());
            return;
        }
        for i in k..v.len() {
            v.swap(k, i);
            go(k + 1, v, out);
            v.swap(k, i);
        }
    }
    go(0, &mut v, &mut out);
    out
}

fn one_bytes(at: &[usize], val: u8) -> Vec<H> {
    at.iter().map(|i| { let mut h = [0x55; 32]; h[*i] = val; h }).collect()
}

fn c23(c: &mut Ctx) {
    let mut ties = Ties::new();
    // every sequence of insertions and removals
    let al = [
        F { ts: 5, hash: hh(1) },
        F { ts: 5, hash: hh(2) },
        F { ts: 3, hash: hh(3) },
        F { ts: 9, hash: hh(1) },
        F { ts: 5, hash: hh(4) },
        F { ts: u64::MAX, hash: hh(5) },
        F { ts: 0, hash: hh(6) },
    ];
    let sets: Vec<(&str, Vec<usize>, usize)> = c.pick(
        vec![("ties and a double", vec![0, 1, 2, 3, 4], 8), ("all", vec![0, 1, 2, 3, 4, 5, 6], 7)],
        vec![("ties and a double", vec![0, 1, 2, 3, 4], 9), ("all", vec![0, 1, 2, 3, 4, 5, 6], 8)],
    );
    for (name, ix, depth) in sets {
        let n = ix.len() + 1;
        // one case: all continuations of a prefix of three
        for pre in 0..n.pow(3) {
            for kind in 0..if pre == 0 { 4 } else { 1 } {
                c.case(|| format!("{name}: prefix {pre} of all sequences to depth {depth}, constructor {kind}"), |c| {
                    for rest in 0..n.pow(depth as u32 - 3) {
                        let mut code = rest * n.pow(3) + pre;
                        let mut p = Pool::new(kind);
                        let mut log = vec![];
                        for _ in 0..depth {
                            let o = code % n;
                            code /= n;
                            log.push(o);
                            let r = if o < ix.len() { p.push(al[ix[o]]) } else { p.pop(&mut ties).map(|_| ()) };
                            r.and_then(|()| p.check(&al)).map_err(|e| Fail::from(format!("{} after {log:?}", e.msg)))?;
                            c.transitions += 1;
                            c.state(&(name, &p.m));
                        }
                        // and drained
                        while p.pop(&mut ties)?.is_some() {}
                        p.check(&al)?;
                        c.traces += 1;
                    }
                    Ok(())
                });
            }
        }
    }
    // every insertion order of tied transactions gives one order of removal
    let lanes: Vec<H> = one_bytes(&[0, 7, 8, 15, 16, 24, 31], 0x80);
    let mut mixed = one_bytes(&[0, 7], 0x99);
    mixed.extend(one_bytes(&[3, 30], 0x11));
    mixed.push([0x55; 32]);
    mixed.push([0xff; 32]);
    mixed.push([0; 32]);
    let keys = key(1);
    let reals: Vec<Transaction> = (0..7u64)
        .map(|i| tx(&keys, &addr(i / 2), 1_650_000_000, u(i % 3), if i % 2 == 0 { None } else { Some(vec![i as u8]) }))
        .collect();
    let n = 7usize;
    for (name, hs) in [("lanes", &lanes), ("mixed", &mixed)] {
        for pm in perms(n).chunks(60) {
            c.case(|| format!("insertion orders of tied transactions: {name} from {:?}", pm[0]), |c| {
                for o in pm {
                    // all at one timestamp
                    let mut p = Pool::new(0);
                    for i in o {
                        p.push(F { ts: 7, hash: hs[*i] })?;
                    }
                    // something is removed and admitted again
                    let h = p.pop(&mut ties)?.ok_or("empty")?;
                    p.push(F { ts: 7, hash: h })?;
                    let mut out = vec![];
                    while let Some(h) = p.pop(&mut ties)? {
                        out.push(h);
                    }
                    same!(out.len(), n, "transactions yielded");
                    c.transitions += 2 * n as u64;
                    c.state(&(name, o));
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
    for pm in perms(n).chunks(60) {
        c.case(|| format!("insertion orders of real transactions of one timestamp from {:?}", pm[0]), |c| {
            let mut first: Option<Vec<H>> = None;
            for o in pm {
                let mut p = TxPool::new();
                for i in o {
                    let x: blockchaintree::transaction::TransactionableItem = Box::new(reals[*i].clone());
                    ensure!(guard(|| p.push(x))?, "a new transaction was not admitted");
                    let x: blockchaintree::transaction::TransactionableItem = Box::new(reals[*i].clone());
                    ensure!(!guard(|| p.push(x))?, "a transaction was admitted twice");
                }
                same!(p.len(), n, "len");
                let mut out = vec![];
                while let Some((h, x)) = guard(|| p.pop())? {
                    let i = reals.iter().position(|r| ref_hash(r) == h).ok_or("an unknown hash was yielded")?;
                    same!(x.dump().map_err(|e| short(&e))?, ref_dump(&reals[i]), "yielded transaction");
                    out.push(h);
                }
                same!(out.len(), n, "transactions yielded");
                match &first {
                    None => first = Some(out),
                    Some(f) => ensure!(*f == out, "the order of tied transactions depends on the order of insertion {o:?}"),
                }
                c.transitions += 3 * n as u64;
                c.traces += 1;
            }
            Ok(())
        });
    }
    // the order of entries itself
    let mut hs = lanes.clone();
    hs.extend(mixed.iter().copied());
    hs.extend((0..4).map(hh));
    for ts in [0u64, 5, 1 << 32, u64::MAX] {
        c.case(|| format!("order and equality of all triples of entries, the first at {ts}"), |c| {
            use blockchaintree::transaction::TransactionableItem as Item;
            let all: Vec<(u64, H, Item)> = [0u64, 4, 5, 6, (1 << 32) + 5, 1 << 32, u64::MAX].iter().flat_map(|t| hs.iter().map(move |h| (*t, *h))).map(|(t, h)| (t, h, Box::new(F { ts: t, hash: h }) as Item)).collect();
            let cmp = |a: &(u64, H, Item), b: &(u64, H, Item)| guard(|| a.2.cmp(&b.2));
            for a in all.iter().filter(|a| a.0 == ts) {
                for b in &all {
                    let o = cmp(a, b)?;
                    let what = format!("{} at {} and {} at {}", s8(&a.1), a.0, s8(&b.1), b.0);
                    same!(cmp(b, a)?, o.reverse(), "order of {what}, the other way round");
                    same!(guard(|| a.2.partial_cmp(&b.2))?, Some(o), "partial order of {what}");
                    same!(guard(|| a.2.eq(&b.2))?, o.is_eq(), "equality of {what}");
                    same!(o.is_eq(), a.0 == b.0 && a.1 == b.1, "neither of {what} comes first");
                    ensure!(a.0 == b.0 || o.is_gt() == (a.0 < b.0), "{what}: the later one comes first");
                    c.transitions += 5;
                    c.state(&("order", a.0, a.1, b.0, b.1));
                    for d in &all {
                        if o.is_gt() && cmp(b, d)?.is_gt() {
                            ensure!(cmp(a, d)?.is_gt(), "order of {what} and {} at {} goes round in a circle", s8(&d.1), d.0);
                        }
                        c.transitions += 1;
                    }
                }
            }
            Ok(())
        });
    }
    // larger pools: every multiplier pattern, with removals in between
    for n in c.pick(vec![9u64, 33, 64], vec![9, 33, 64, 127, 257]) {
        for k in 1..n.min(40) {
            for every in [0u64, 2, 3] {
                c.case(|| format!("pool of {n}, times i*{k} mod {n}/4, removal after every {every}"), |c| {
                    let mut p = Pool::new(2);
                    let fs: Vec<F> = (0..n).map(|i| F { ts: i * k % n / 4, hash: hh(i) }).collect();
                    for (i, f) in fs.iter().enumerate() {
                        p.push(*f)?;
                        if every > 0 && i as u64 % every == every - 1 {
                            p.pop(&mut ties)?;
                        }
                        c.transitions += 1;
                    }
                    p.check(&fs)?;
                    for f in &fs {
                        p.push(*f)?;
                    }
                    p.check(&fs)?;
                    let mut left = n;
                    while p.pop(&mut ties)?.is_some() {
                        left -= 1;
                        c.transitions += 1;
                    }
                    same!(left, 0, "transactions left");
                    p.check(&fs)?;
                    c.state(&(n, k, every));
                    c.traces += 1;
                    Ok(())
                });
            }
        }
    }
    // large pools: full content, order and membership at every size class
    for n in ladder(c.pick(5000, 100_000)).into_iter().filter(|n| *n > 8) {
        for way in 0..6u64 {
            c.case(|| format!("pool of {n}, order of times {way}"), |c| {
                let ts = |i: u64| match way {
                    0 => 0,
                    1 => i,
                    2 => n as u64 - i,
                    3 => i % 2 * u64::MAX,
                    4 => i * 7919 % n as u64,
                    _ => i * 31 % (n as u64 / 3),
                };
                let p = TxPool::with_capacity(n / 2);
                let mut p = if way % 2 == 0 { p } else { TxPool::new() };
                let mut m: BTreeMap<H, u64> = BTreeMap::new();
                for i in 0..n as u64 {
                    let f = F { ts: ts(i), hash: sha(&[&i.to_be_bytes()]) };
                    ensure!(guard(|| p.push(Box::new(f)))?, "transaction {i}, unlike all others, was refused");
                    m.insert(f.hash, f.ts);
                    same!(p.len(), i as usize + 1, "len");
                }
                for i in 0..n as u64 {
                    let f = F { ts: ts(i) ^ 1, hash: sha(&[&i.to_be_bytes()]) };
                    ensure!(!guard(|| p.push(Box::new(f)))?, "transaction {i} was admitted twice");
                    ensure!(p.transaction_exists(&f.hash), "transaction {i} does not exist");
                }
                same!(p.len(), n, "len");
                let v: BTreeMap<H, u64> = guard(|| p.transactions_iter().map(|x| (x.hash(), x.get_timestamp())).collect())?;
                ensure!(v == m && guard(|| p.transactions_iter().count())? == n, "iteration does not show the transactions of the pool");
                let mut last = 0;
                for left in (0..n).rev() {
                    let (h, x) = guard(|| p.pop())?.ok_or("pop found nothing")?;
                    same!(hex(&x.hash()), hex(&h), "hash yielded");
                    let t = m.remove(&h).ok_or("a transaction was yielded that is not in the pool")?;
                    same!(x.get_timestamp(), t, "timestamp");
                    ensure!(t >= last, "{t} comes after {last}");
                    last = t;
                    ensure!(!p.transaction_exists(&h), "a transaction removed exists");
                    same!(p.len(), left, "len");
                }
                ensure!(guard(|| p.pop())?.is_none() && p.is_empty(), "the pool drained is not empty");
                c.transitions += 3 * n as u64;
                c.state(&("big", n, way));
                c.traces += 1;
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ C24

/// a record of any content, or one that cannot be encoded
struct Rawr(Option<Vec<u8>>);
impl Transactionable for Rawr {
    fn hash_without_signature(&self) -> H {
        [0; 32]
    }
    fn verify(&self) -> TxRes<bool> {
        Ok(true)
    }
    fn dump(&self) -> TxRes<Vec<u8>> {
        self.0.clone().ok_or_else(|| TransactionError::Tx(TxErrorKind::Dump).into())
    }
    fn hash(&self) -> H {
        self.0.as_ref().map_or([0; 32], |v| sha(&[v]))
    }
    fn get_dump_size(&self) -> usize {
        self.0.as_ref().map_or(0, |v| v.len())
    }
    fn parse(_: &[u8]) -> TxRes<Self> {
        Err(TransactionError::Tx(TxErrorKind::Parse).into())
    }
    fn get_sender(&self) -> &Addr {
        &ROOT
    }
    fn get_receiver(&self) -> &Addr {
        &ROOT
    }
    fn get_timestamp(&self) -> u64 {
        0
    }
    fn get_signature(&self) -> &[u8; 64] {
        &[0; 64]
    }
    fn get_amount(&self) -> Option<U256> {
        None
    }
    fn get_data(&self) -> Option<&[u8]> {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum O {
    One(usize),
    Batch(&'static [usize]),
    Mixed(&'static [usize]),
    BadBatch(&'static [usize]),
    Block(&'static [usize]),
    Other(u8),
    Reopen,
}

struct Recs {
    d: PathBuf,
    t: Option<BlockChainTree>,
    txs: Vec<Transaction>,
    /// what is recorded: hash -> bytes
    m: BTreeMap<H, Vec<u8>>,
    tip: Blk,
}

/// transactions of every shape, unlike those of any other call
fn shapes(salt: u64) -> Vec<Transaction> {
    let k = key(1);
    let long: Vec<u8> = (0..70_000u32).map(|i| (i * 7 % 251) as u8).collect();
    vec![
        tx(&k, &addr(salt), 0, U256::zero(), None),
        tx(&k, &addr(salt), u64::MAX, U256::MAX, Some(vec![0])),
        tx(&k, &addr(salt), 1_650_000_000, u(256), Some(long)),
        tx(&k, &k.pk, 1_650_000_000 + salt, pow2(64), Some(vec![255; 33])),
    ]
}

fn other(b: u8, salt: u64) -> Vec<u8> {
    let mut v = ref_dump(&shapes(salt)[1]);
    v[0] = b;
    v
}

impl Recs {
    fn new(d: PathBuf, salt: u64) -> Result<Recs, Fail> {
        let t = open_tree(&d)?;
        let tip = ok("get_last_block", guard(|| t.get_main_chain().get_last_block()))?.ok_or("no genesis block")?;
        Ok(Recs { d, t: Some(t), txs: shapes(salt), m: BTreeMap::new(), tip: Blk::of(tip)? })
    }
    fn step(&mut self, o: O, salt: u64) -> R {
        let mc = self.t.as_ref().unwrap().get_main_chain();
        let pick = |ix: &[usize]| -> Vec<Transaction> { ix.iter().map(|i| self.txs[*i].clone()).collect() };
        let what = format!("{o:?}");
        let mut add = vec![];
        match o {
            O::One(i) => {
                ok(&what, guard(|| mc.add_transaction(&self.txs[i])))?;
                add.push(ref_dump(&self.txs[i]));
            }
            O::Batch(ix) => {
                let v = pick(ix);
                ok(&what, guard(|| mc.add_transactions(&v)))?;
                add.extend(v.iter().map(ref_dump));
            }
            O::Mixed(ix) => {
                // a batch in which records of other types stand between
                let mut v: Vec<Rawr> = pick(ix).iter().map(|x| Rawr(Some(ref_dump(x)))).collect();
                v.insert(1.min(v.len()), Rawr(Some(other(3, salt))));
                ok(&what, guard(|| mc.add_transactions(&v)))?;
                add.extend(v.into_iter().map(|x| x.0.unwrap()));
            }
            O::BadBatch(ix) => {
                let mut v: Vec<Rawr> = pick(ix).iter().map(|x| Rawr(Some(ref_dump(x)))).collect();
                v.push(Rawr(None));
                refused(&what, guard(|| mc.add_transactions(&v)))?;
            }
            O::Block(ix) => {
                let v = pick(ix);
                let hs: Vec<H> = v.iter().map(ref_hash).collect();
                let tip = &self.tip;
                let i = info(tip.ts() + 600, hh(salt), tip.hash, tip.h() + 1, tip.d(), addr(salt));
                let b: BlockArc = Arc::new(TransactionBlock::new(fee_of(lz(&tip.d())), i, merkle(&hs), hs));
                let k = Blk::of(b.clone())?;
                ok(&what, guard(|| self.t.as_ref().unwrap().add_new_block(b, &v)))?;
                self.tip = k;
                add.extend(v.iter().map(ref_dump));
            }
            O::Other(b) => {
                let r = Rawr(Some(other(b, salt)));
                ok(&what, guard(|| mc.add_transaction(&r)))?;
                add.push(r.0.unwrap());
            }
            O::Reopen => {
                flush(self.t.as_ref().unwrap())?;
                drop(mc);
                self.t = None;
                self.t = Some(open_tree(&self.d)?);
            }
        }
        for a in add {
            self.m.insert(sha(&[&a]), a);
        }
        Ok(())
    }
    fn check(&self, salt: u64) -> R {
        let mc = self.t.as_ref().unwrap().get_main_chain();
        let mut all: Vec<Vec<u8>> = self.txs.iter().map(ref_dump).collect();
        for b in [1u8, 3, 7] {
            all.push(other(b, salt));
        }
        for d in all {
            recorded(&mc, &d, self.m.contains_key(&sha(&[&d])))?;
        }
        // what identifies nothing: unsigned hashes, neighbours, block hashes
        for x in &self.txs {
            let mut h = ref_hash(x);
            absent(&mc, &x.hash_without_signature())?;
            h[31] ^= 1;
            absent(&mc, &h)?;
            h[31] ^= 1;
            h[0] ^= 0x80;
            absent(&mc, &h)?;
        }
        absent(&mc, &self.tip.hash)?;
        absent(&mc, &[0; 32])?;
        absent(&mc, &hh(99_999))
    }
}
fn absent(mc: &MainChain, h: &H) -> R {
    ensure!(!ok("transaction_exists", guard(|| mc.transaction_exists(h)))?, "{}, under which nothing was recorded, exists", s8(h));
    ensure!(ok("get_transaction_raw", guard(|| mc.get_transaction_raw(h)))?.is_none(), "{}, under which nothing was recorded, has a record", s8(h));
    ensure!(ok("get_transaction", guard(|| mc.get_transaction(h)))?.is_none(), "{}, under which nothing was recorded, has a transaction", s8(h));
    Ok(())
}
/// the record `d` is found exactly (or is absent)
fn recorded(mc: &MainChain, d: &[u8], there: bool) -> R {
    let h = sha(&[d]);
    if !there {
        return absent(mc, &h);
    }
    let what = format!("record {} of {} bytes, type {:?}", s8(&h), d.len(), d.first());
    ensure!(ok("transaction_exists", guard(|| mc.transaction_exists(&h)))?, "{what} does not exist");
    let raw = ok("get_transaction_raw", guard(|| mc.get_transaction_raw(&h)))?;
    ensure!(raw.as_deref() == Some(d), "{what}: get_transaction_raw gives {:?} bytes", raw.map(|r| r.len()));
    let r = guard(|| mc.get_transaction(&h));
    if d.first() == Some(&0) && d.len() >= 140 {
        let x = ok(&format!("{what}: get_transaction"), r)?.ok_or_else(|| format!("{what}: get_transaction finds nothing"))?;
        same!(hex(x.get_sender()), hex(&d[1..34]), "{what}: sender");
        same!(hex(x.get_receiver()), hex(&d[34..67]), "{what}: receiver");
        same!(x.get_timestamp().to_be_bytes(), d[67..75], "{what}: timestamp");
        same!(hex(x.get_signature()), hex(&d[75..139]), "{what}: signature");
        let n = d[139] as usize;
        same!(*Transaction::get_amount(&x), U256::from_big_endian(&d[140..140 + n]), "{what}: amount");
        same!(Transactionable::get_amount(&x), Some(U256::from_big_endian(&d[140..140 + n])), "{what}: amount");
        let data = &d[140 + n..];
        ensure!(x.get_data().unwrap_or(&[]) == data, "{what}: data differs");
        same!(hex(&x.hash()), hex(&h), "{what}: hash");
        ensure!(x.dump().map_err(|e| short(&e))? == d, "{what}: the transaction found encodes differently");
    } else {
        refused(&format!("{what}: reading it as a transaction"), r)?;
    }
    Ok(())
}

fn c24(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    use O::*;
    let al = [One(0), One(1), One(2), Batch(&[0, 3]), Batch(&[2, 2, 1]), Batch(&[]), Mixed(&[1, 0]), BadBatch(&[3, 0]), Block(&[3, 1]), Block(&[]), Other(1), Reopen];
    let depth = c.pick(3, 4);
    let n = al.len();
    for a in 0..n {
        for b in 0..n {
            c.case(|| format!("{:?}, {:?} and all continuations to depth {depth}", al[a], al[b]), |c| {
                let mut salt = ((a * n + b) as u64) << 20;
                let mut r: Option<Recs> = None;
                for rest in 0..n.pow(depth - 2) {
                    salt += 1;
                    // fresh transactions on the same tree: earlier histories stay as background
                    let mut x = match r.take() {
                        Some(mut x) => {
                            x.txs = shapes(salt);
                            x
                        }
                        None => Recs::new(c.dir("t"), salt)?,
                    };
                    x.check(salt)?;
                    let mut code = (rest * n + b) * n + a;
                    let mut log = vec![];
                    for _ in 0..depth {
                        let o = al[code % n];
                        code /= n;
                        log.push(o);
                        x.step(o, salt).and_then(|()| x.check(salt)).map_err(|e| Fail::from(format!("{} after {log:?}", e.msg)))?;
                        c.transitions += 1;
                        c.state(&log.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>());
                    }
                    c.traces += 1;
                    r = Some(x);
                }
                // everything recorded on the way is still there
                let x = r.unwrap();
                let mc = x.t.as_ref().unwrap().get_main_chain();
                for d in x.m.values() {
                    recorded(&mc, d, true)?;
                }
                Ok(())
            });
        }
    }
    // record types and lengths
    for b in 0..=255u8 {
        c.case(|| format!("record type {b} at every length class"), |c| {
            let d = c.dir("t");
            let t = open_tree(&d)?;
            let mc = t.get_main_chain();
            let full = other(b, 5);
            let mut made = vec![];
            let cuts: Vec<usize> = if b < 8 { (0..full.len()).collect() } else { vec![1, 2, 33, 139, full.len() - 1] };
            for n in cuts.into_iter().chain([full.len()]) {
                let v = full[..n].to_vec();
                ok("add_transaction", guard(|| mc.add_transaction(&Rawr(Some(v.clone())))))?;
                c.transitions += 1;
                c.state(&v);
                let h = sha(&[&v]);
                let raw = ok("get_transaction_raw", guard(|| mc.get_transaction_raw(&h)))?;
                same!(raw, Some(v.clone()), "record of type {b} with {n} bytes");
                ensure!(ok("transaction_exists", guard(|| mc.transaction_exists(&h)))?, "a record with {n} bytes does not exist");
                match guard(|| mc.get_transaction(&h))? {
                    Err(_) => ensure!(b != 0 || n < full.len(), "a recorded transaction is not read"),
                    Ok(x) => {
                        ensure!(b == 0 && n >= 140, "a record of type {:?} with {n} bytes was read as a transaction", v.first());
                        let x = x.ok_or("a record is not found")?;
                        ensure!(x.dump().map_err(|e| short(&e))? == v, "a record with {n} bytes is misread");
                    }
                }
                made.push(v);
            }
            c.traces += 1;
            if b < 8 {
                flush(&t)?;
                drop((mc, t));
                let t = open_tree(&d)?;
                let mc = t.get_main_chain();
                for v in made {
                    let raw = ok("get_transaction_raw", guard(|| mc.get_transaction_raw(&sha(&[&v]))))?;
                    same!(raw, Some(v), "record after reopening");
                }
            }
            Ok(())
        });
    }
    // records of every size class, alone and in a batch
    let max = c.pick(300_000, 4_000_000);
    for part in ladder(max).chunks(6) {
        c.case(|| format!("records with payloads of {part:?} bytes"), |c| {
            let d = c.dir("t");
            let mut t = open_tree(&d)?;
            let k = key(2);
            let mut all = vec![];
            for n in part {
                let body: Vec<u8> = (0..*n).map(|i| (i * 7 % 251) as u8).collect();
                let mc = t.get_main_chain();
                let one = tx(&k, &addr(3), *n as u64, u(*n as u64), Some(body.clone()));
                let two = tx(&k, &addr(4), *n as u64, U256::MAX, Some(body.clone()));
                ok("add_transaction", guard(|| mc.add_transaction(&one)))?;
                ok("add_transactions", guard(|| mc.add_transactions(&[one.clone(), two.clone()])))?;
                let raw = [&[9u8][..], &body].concat();
                ok("add_transaction", guard(|| mc.add_transaction(&Rawr(Some(raw.clone())))))?;
                all.extend([ref_dump(&one), ref_dump(&two), raw]);
                c.transitions += 3;
                c.state(&("size", n));
            }
            for _ in 0..2 {
                for r in &all {
                    recorded(&t.get_main_chain(), r, true)?;
                }
                flush(&t)?;
                drop(t);
                t = open_tree(&d)?;
            }
            c.traces += 1;
            Ok(())
        });
    }
    // batches of every size class: all of it is recorded, or with one record that cannot be, none
    for n in ladder(c.pick(1300, 20_000)) {
        c.case(|| format!("batch of {n} records"), |c| {
            let d = c.dir("t");
            let mut t = open_tree(&d)?;
            let rec = |s: &str, i: usize| Rawr(Some([&[0u8; 1][..], format!("{s} {n} {i}").as_bytes(), &hh(i as u64).repeat(i % 5)].concat()));
            let mc = t.get_main_chain();
            for at in positions(n + 1) {
                let mut v: Vec<Rawr> = (0..n).map(|i| rec("refused", i)).collect();
                v.insert(at, Rawr(None));
                refused("a batch with a record that cannot be encoded", guard(|| mc.add_transactions(&v)))?;
                c.transitions += 1;
            }
            let v: Vec<Rawr> = (0..n).map(|i| rec("batch", i)).collect();
            ok("add_transactions", guard(|| mc.add_transactions(&v)))?;
            drop(mc);
            for _ in 0..2 {
                let mc = t.get_main_chain();
                for i in 0..n {
                    let r = rec("batch", i).0.unwrap();
                    let raw = ok("get_transaction_raw", guard(|| mc.get_transaction_raw(&sha(&[&r]))))?;
                    ensure!(raw.as_ref() == Some(&r), "record {i} of a batch of {n} is not found");
                    ensure!(ok("transaction_exists", guard(|| mc.transaction_exists(&sha(&[&r]))))?, "record {i} of a batch of {n} does not exist");
                    absent(&mc, &sha(&[&rec("refused", i).0.unwrap()]))?;
                }
                drop(mc);
                flush(&t)?;
                drop(t);
                t = open_tree(&d)?;
            }
            c.state(&("batch", n));
            c.traces += 1;
            Ok(())
        });
    }
    // many records: none hides another
    c.case(|| "many records".into(), |c| {
        let d = c.dir("t");
        let mut t = open_tree(&d)?;
        let k = key(1);
        let n = c.pick(1500u64, 6000);
        let v: Vec<Transaction> = (0..n).map(|i| tx(&k, &addr(i % 7), 1_650_000_000 + i % 11, u(i / 7), if i % 3 == 0 { None } else { Some(vec![(i % 256) as u8; (i % 90) as usize + 1]) })).collect();
        for (i, ch) in v.chunks(97).enumerate() {
            if i % 2 == 0 {
                ok("add_transactions", guard(|| t.get_main_chain().add_transactions(ch)))?;
            } else {
                for x in ch {
                    ok("add_transaction", guard(|| t.get_main_chain().add_transaction(x)))?;
                }
            }
            c.transitions += ch.len() as u64;
        }
        for _ in 0..2 {
            for x in &v {
                recorded(&t.get_main_chain(), &ref_dump(x), true)?;
            }
            flush(&t)?;
            drop(t);
            t = open_tree(&d)?;
        }
        Ok(())
    });
    // two threads recording
    let progs: Vec<Vec<Vec<O>>> = {
        let ops = [One(0), One(1), Batch(&[0, 1]), Batch(&[2, 3]), Mixed(&[0, 3]), BadBatch(&[0, 2])];
        let mut v = vec![];
        for a in ops {
            for b in ops {
                for d in [One(0), Batch(&[1, 3])] {
                    v.push(vec![vec![a, d], vec![b]]);
                }
            }
        }
        v
    };
    let dir = c.dir("conc");
    let shared = Arc::new(crate::ledger::SharedTree(open_tree(&dir).unwrap_or_else(|e| panic!("{}", e.msg))));
    let mut salt = (c.shard + 1) << 50;
    for p in progs {
        c.case(|| format!("threads recording: {p:?}"), |c| {
            let mut traces = 0;
            let r = vsched::explore(c.pick(2, 3), 100_000, &mut |prefix| {
                salt += 1;
                let mut txs = shapes(salt);
                txs[2] = tx(&key(2), &addr(salt), 1_650_000_000, u(256), Some(vec![8; 700]));
                let txs = Arc::new(txs);
                let mut bodies: Vec<vsched::Body> = vec![];
                let bad: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
                let mut expect: BTreeMap<H, Vec<u8>> = BTreeMap::new();
                for ops in &p {
                    let mut mine = vec![];
                    for o in ops {
                        let ix: Vec<usize> = match o {
                            One(i) => vec![*i],
                            Batch(v) | Mixed(v) => v.to_vec(),
                            _ => vec![],
                        };
                        mine.push((*o, ix.iter().map(|i| ref_dump(&txs[*i])).collect::<Vec<_>>()));
                        for i in ix {
                            let d = ref_dump(&txs[i]);
                            expect.insert(sha(&[&d]), d);
                        }
                    }
                    let (shared, txs, bad) = (shared.clone(), txs.clone(), bad.clone());
                    bodies.push(Box::new(move || {
                        let mc = shared.0.get_main_chain();
                        for (o, ds) in mine {
                            let v: Vec<Rawr> = match o {
                                Batch(ix) | Mixed(ix) | BadBatch(ix) => ix.iter().map(|i| Rawr(Some(ref_dump(&txs[*i])))).collect(),
                                _ => vec![],
                            };
                            let r = guard(|| match o {
                                One(i) => mc.add_transaction(&txs[i]).is_ok(),
                                Batch(_) | Mixed(_) => mc.add_transactions(&v).is_ok(),
                                BadBatch(_) => {
                                    let mut v = v;
                                    v.push(Rawr(None));
                                    mc.add_transactions(&v).is_err()
                                }
                                _ => true,
                            });
                            let mut b = bad.lock().unwrap();
                            if r != Ok(true) {
                                b.push(format!("{o:?}: {r:?}"));
                            }
                            drop(b);
                            // what this thread recorded is found from now on
                            for d in ds {
                                if let Err(e) = recorded(&mc, &d, true) {
                                    bad.lock().unwrap().push(format!("after {o:?}: {}", e.msg));
                                }
                            }
                        }
                    }));
                }
                let x = vsched::run_once(bodies, prefix);
                if let Some(f) = &x.failed {
                    return Err(format!("{f}; schedule {:?}", x.trace));
                }
                traces += 1;
                if let Some(e) = bad.lock().unwrap().first() {
                    return Err(format!("{e}; schedule {:?}", x.trace));
                }
                let mc = shared.0.get_main_chain();
                for t in txs.iter() {
                    let d = ref_dump(t);
                    recorded(&mc, &d, expect.contains_key(&sha(&[&d]))).map_err(|e| format!("{}; schedule {:?}", e.msg, x.trace))?;
                }
                Ok(x)
            });
            let s = r.map_err(Fail::from)?;
            c.count("schedules", s.executions);
            c.transitions += s.steps;
            c.traces += traces;
            c.state(&format!("{p:?}"));
            Ok(())
        });
    }
    vsched::set_no_flusher(true);
    crate::persist::single_faults(c, &[crate::persist::P::Rec, crate::persist::P::Batch, crate::persist::P::Block]);
}

// ------------------------------------------------------------------ C25

fn noise(n: usize) -> Vec<u8> {
    let mut d = Vec::with_capacity(n + 32);
    let mut i = 0u64;
    while d.len() < n {
        d.extend(hh(i));
        i += 1;
    }
    d.truncate(n);
    d
}
fn contents(thorough: bool) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![("nothing".into(), vec![])];
    for b in 0..=255u8 {
        v.push((format!("byte {b}"), vec![b]));
    }
    // everything up to a length over a small alphabet
    let al = [0u8, 1, 0x28, 0xff];
    for len in 2..=if thorough { 7u32 } else { 6 } {
        for mut code in 0..al.len().pow(len) {
            let mut d = vec![];
            for _ in 0..len {
                d.push(al[code % al.len()]);
                code /= al.len();
            }
            v.push((format!("short {d:?}"), d));
        }
    }
    let mut sizes: BTreeSet<usize> = BTreeSet::new();
    for k in [8usize, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20] {
        for e in [-1i64, 0, 1] {
            sizes.insert(((1i64 << k) + e) as usize);
        }
    }
    // buffer sizes of the compression library
    for s in [131_591usize, 131_075, 128 * 1024 * 3, (1 << 17) + 3] {
        for e in [-1i64, 0, 1] {
            sizes.insert((s as i64 + e) as usize);
        }
    }
    if thorough {
        sizes.extend((1..200).map(|i| i * 8191));
    }
    sizes.extend(ladder(if thorough { 3_000_000 } else { 100_000 }));
    for n in sizes {
        v.push((format!("{n} zeros"), vec![0; n]));
        v.push((format!("{n} of noise"), noise(n)));
        v.push((format!("{n} in a period of 251"), (0..n).map(|i| (i % 251) as u8).collect()));
        let mut h = noise(n);
        for x in &mut h[n / 3..2 * n / 3] {
            *x = 9;
        }
        v.push((format!("{n}: noise, run, noise"), h));
    }
    v
}

fn compress(p: &Path, d: &[u8]) -> Result<Result<(), String>, String> {
    guard(|| tools::compress_to_file(p.to_str().unwrap().to_string(), d).map_err(|e| short(&e)))
}
fn decompress(p: &Path) -> Result<Result<Vec<u8>, String>, String> {
    guard(|| tools::decompress_from_file(p.to_str().unwrap().to_string()).map_err(|e| short(&e)))
}
fn exact(p: &Path, d: &[u8], what: &str) -> R {
    let r = ok(&format!("{what}: decompress_from_file"), decompress(p))?;
    ensure!(r == d, "{what}: {} bytes come back as {} bytes that differ", d.len(), r.len());
    Ok(())
}

/// every directory tree with up to `n` entries: an entry is (parent entry or 0 for the top, kind)
fn trees(n: usize) -> Vec<Vec<(usize, u8)>> {
    // kinds: 0 directory, 1 empty file, 2 small file, 3 large file
    let mut out: Vec<Vec<(usize, u8)>> = vec![vec![]];
    let mut level: Vec<Vec<(usize, u8)>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for t in &level {
            for parent in 0..=t.len() {
                if parent > 0 && t[parent - 1].1 != 0 {
                    continue;
                }
                for kind in 0..4u8 {
                    let mut x: Vec<(usize, u8)> = t.clone();
                    x.push((parent, kind));
                    next.push(x);
                }
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}
const NAMES: [&str; 6] = ["a", ".hidden", "with space", "\u{e9}\u{4e2d}", "db", "x.new"];
fn build(root: &Path, t: &[(usize, u8)]) -> Vec<PathBuf> {
    std::fs::create_dir_all(root).unwrap();
    let mut paths = vec![root.to_path_buf()];
    for (i, (p, k)) in t.iter().enumerate() {
        let x = paths[*p].join(format!("{}{i}", NAMES[i % NAMES.len()]));
        match k {
            0 => std::fs::create_dir(&x).unwrap(),
            1 => std::fs::write(&x, b"").unwrap(),
            2 => std::fs::write(&x, format!("content {i}")).unwrap(),
            _ => std::fs::write(&x, (0..200_000u32).map(|b| (b as usize * (i + 3) % 255) as u8).collect::<Vec<_>>()).unwrap(),
        }
        paths.push(x);
    }
    paths
}

fn c25(c: &mut Ctx) {
    // contents, with an existing file of every relation before
    for (name, d) in contents(c.thorough()).into_iter() {
        c.case(|| format!("content: {name}"), |c| {
            let dir = c.dir("z");
            let p = dir.join("f.zst");
            let mut olds: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![7; 40])];
            if d.len() < 1000 || d.len() % 3 == 0 {
                olds.push(Some(vec![0xaa; d.len() + 300_000]));
            }
            for old in olds {
                match &old {
                    None => {}
                    Some(o) => std::fs::write(&p, o).unwrap(),
                }
                ok("compress_to_file", compress(&p, &d))?;
                exact(&p, &d, &format!("over {:?} bytes", old.as_ref().map(|o| o.len())))?;
                c.transitions += 2;
            }
            // compressed again over its own output, and over another content's
            ok("compress_to_file", compress(&p, &hh(3).repeat(5000)))?;
            ok("compress_to_file", compress(&p, &d))?;
            exact(&p, &d, "over another archive")?;
            let z = std::fs::read(&p).unwrap();
            exact(&p, &d, "read again")?;
            ensure!(std::fs::read(&p).unwrap() == z, "decompression changed the archive");
            let es: Vec<_> = std::fs::read_dir(&dir).unwrap().collect();
            same!(es.len(), 1, "files left");
            c.state(&d);
            c.traces += 1;
            Ok(())
        });
    }
    // beyond every buffer and window of the compression library
    let mut big = vec![1usize << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 25];
    if c.thorough() {
        big.extend([1 << 26, 1 << 27, 1 << 28]);
    }
    for n in big.into_iter().flat_map(|n| [n - 1, n, n + 1]) {
        for kind in 0..3 {
            c.case(|| format!("large content: {n} bytes of kind {kind}"), |c| {
                let d: Vec<u8> = match kind {
                    0 => vec![0; n],
                    1 => noise(n),
                    _ => (0..n).map(|i| (i % 251 ^ i >> 16) as u8).collect(),
                };
                let dir = c.dir("z");
                let p = dir.join("f");
                std::fs::write(&p, vec![7; 50_000]).unwrap();
                ok("compress_to_file", compress(&p, &d))?;
                exact(&p, &d, "large")?;
                c.state(&("large", n, kind));
                c.transitions += 2;
                c.traces += 1;
                Ok(())
            });
        }
    }
    // truncated archives are refused; damaged ones never crash
    let zs: Vec<(&str, Vec<u8>)> = vec![("nothing", vec![]), ("small", b"hello, hello, hello".to_vec()), ("noise", hh(1).to_vec()), ("blocks", (0..9000u32).flat_map(|i| hh(i as u64 / 2)).collect())];
    for (name, d) in &zs {
        c.case(|| format!("truncated archive of {name}"), |c| {
            let dir = c.dir("z");
            let p = dir.join("f");
            ok("compress_to_file", compress(&p, d))?;
            let z = std::fs::read(&p).unwrap();
            // an empty file is no archive that was ever written
            let cuts: Vec<usize> = if z.len() < 400 { (1..z.len()).collect() } else { (1..200).chain((200..z.len()).step_by(c.pick(997, 53))).chain(z.len() - 200..z.len()).collect() };
            for n in cuts {
                std::fs::write(&p, &z[..n]).unwrap();
                refused(&format!("an archive of {} bytes cut to {n}", z.len()), decompress(&p))?;
                c.transitions += 1;
                c.state(&(name, n));
            }
            Ok(())
        });
        for part in 0..8usize {
            c.case(|| format!("damaged archive of {name}, part {part}"), |c| {
                let dir = c.dir("z");
                let p = dir.join("f");
                ok("compress_to_file", compress(&p, d))?;
                let z = std::fs::read(&p).unwrap();
                let at: Vec<usize> = if z.len() < 400 { (0..z.len()).collect() } else { (0..64).chain((64..z.len()).step_by(c.pick(9973, 997))).chain(z.len() - 16..z.len()).collect() };
                for i in at {
                    for bit in 0..8 {
                        if (i * 8 + bit) % 8 != part {
                            continue;
                        }
                        let mut y = z.clone();
                        y[i] ^= 1 << bit;
                        std::fs::write(&p, &y).unwrap();
                        decompress(&p)?.ok();
                        c.transitions += 1;
                    }
                }
                Ok(())
            });
        }
    }
    c.case(|| "archives that cannot be opened".into(), |c| {
        let dir = c.dir("z");
        refused("a missing archive", decompress(&dir.join("none")))?;
        refused("a directory as archive", decompress(&dir))?;
        refused("compressing into a directory", compress(&dir, b"x"))?;
        refused("compressing below a missing directory", compress(&dir.join("no/where"), b"x"))?;
        std::fs::write(dir.join("g"), b"this is no archive at all").unwrap();
        refused("something that is no archive", decompress(&dir.join("g")))?;
        Ok(())
    });
    // a failure at each file-system call of (de)compression
    for (name, d) in &zs {
        for sticky in [false, true] {
            c.case(|| format!("failures while compressing {name}, lasting: {sticky}"), |c| {
                let dir = c.dir("z");
                let p = dir.join("f");
                let mut i = 0i64;
                loop {
                    let _ = std::fs::remove_file(&p);
                    fsx::arm_fs_faults(&dir, i, sticky);
                    let r = compress(&p, d);
                    let (n, hits, names) = fsx::disarm_fs_faults();
                    let what = format!("failure at call {i} ({:?})", names.get(i as usize));
                    match r? {
                        Ok(()) => exact(&p, d, &format!("{what}: compression reported as done"))?,
                        Err(e) => ensure!(hits > 0, "compression failed without a fault: {e}"),
                    }
                    c.transitions += 1;
                    c.count("faults", hits as u64);
                    c.state(&(name, "w", i));
                    if i >= n as i64 {
                        break;
                    }
                    i += 1;
                }
                let z = std::fs::read(&p).unwrap();
                let mut i = 0i64;
                loop {
                    fsx::arm_fs_faults(&dir, i, sticky);
                    let r = decompress(&p);
                    let (n, hits, names) = fsx::disarm_fs_faults();
                    match r? {
                        Ok(x) => ensure!(x == *d, "failure at call {i} ({:?}): decompression reported as done, content differs", names.get(i as usize)),
                        Err(e) => ensure!(hits > 0, "decompression failed without a fault: {e}"),
                    }
                    ensure!(std::fs::read(&p).unwrap() == z, "decompression changed the archive");
                    c.transitions += 1;
                    c.count("faults", hits as u64);
                    if i >= n as i64 {
                        break;
                    }
                    i += 1;
                }
                Ok(())
            });
        }
    }
    // copying: every small tree, to new, nested and existing places
    let ts = trees(c.pick(4, 5));
    for chunk in ts.chunks(c.pick(8, 16)) {
        c.case(|| format!("copies of {} trees from {:?}", chunk.len(), chunk[0]), |c| {
            for t in chunk {
                let d = c.dir("cp");
                let src = d.join("src");
                build(&src, t);
                let before = fsx::snapshot(&src);
                for how in 0..6 {
                    let dst = d.join(format!("dst{how}"));
                    let to = match how {
                        1 => dst.join("deeper/still"),
                        _ => dst.clone(),
                    };
                    let mut extra: Vec<(PathBuf, Vec<u8>)> = vec![];
                    match how {
                        2 => std::fs::create_dir_all(&to).unwrap(),
                        3 => {
                            // the same tree with other, longer contents, and something more
                            let ps = build(&to, t);
                            for (p, (_, k)) in ps[1..].iter().zip(t) {
                                if *k != 0 {
                                    std::fs::write(p, vec![0xee; 300_000]).unwrap();
                                }
                            }
                            std::fs::write(to.join("unrelated"), b"stays").unwrap();
                            extra.push((to.join("unrelated"), b"stays".to_vec()));
                        }
                        4 => {
                            // copied twice
                            ok("copy_dir_all", guard(|| tools::copy_dir_all(&src, &to)))?;
                        }
                        _ => {}
                    }
                    if how == 5 {
                        // relative spelling of the same place
                        let odd = d.join("src/../src/.");
                        ok("copy_dir_all", guard(|| tools::copy_dir_all(&odd, &to)))?;
                    } else {
                        ok("copy_dir_all", guard(|| tools::copy_dir_all(&src, &to)))?;
                    }
                    c.transitions += 1;
                    for (p, v) in &extra {
                        ensure!(std::fs::read(p).ok().as_ref() == Some(v), "an unrelated file in the destination changed");
                        std::fs::remove_file(p).unwrap();
                    }
                    before.same_tree(&fsx::snapshot(&to)).map_err(|e| format!("copy of {t:?} (way {how}): {e}"))?;
                    before.same_tree(&fsx::snapshot(&src)).map_err(|e| format!("source after the copy of {t:?} (way {how}): {e}"))?;
                }
                c.state(t);
                c.traces += 1;
            }
            Ok(())
        });
    }
    c.case(|| "copies that are impossible".into(), |c| {
        let d = c.dir("cp");
        build(&d.join("src"), &[(0, 2), (0, 0), (2, 2)]);
        refused("copying a missing directory", guard(|| tools::copy_dir_all(d.join("none"), d.join("o1"))))?;
        refused("copying a file as directory", guard(|| tools::copy_dir_all(d.join("src/a0"), d.join("o2"))))?;
        std::fs::write(d.join("file"), b"f").unwrap();
        refused("copying onto a file", guard(|| tools::copy_dir_all(d.join("src"), d.join("file"))))?;
        // a directory where a file has to go, and the other way round
        std::fs::create_dir_all(d.join("o3/a0")).unwrap();
        refused("copying a file onto a directory", guard(|| tools::copy_dir_all(d.join("src"), d.join("o3"))))?;
        std::fs::create_dir_all(d.join("o4")).unwrap();
        std::fs::write(d.join("o4/.hidden1"), b"f").unwrap();
        refused("copying a directory onto a file", guard(|| tools::copy_dir_all(d.join("src"), d.join("o4"))))?;
        Ok(())
    });
    // a deep and a wide tree
    c.case(|| "deep and wide trees".into(), |c| {
        let d = c.dir("cp");
        let mut p = d.join("src");
        for i in 0..40 {
            p = p.join(format!("d{i}"));
        }
        std::fs::create_dir_all(&p).unwrap();
        std::fs::write(p.join("end"), b"deep").unwrap();
        for i in 0..300 {
            std::fs::write(d.join(format!("src/f{i}")), format!("{i}")).unwrap();
        }
        ok("copy_dir_all", guard(|| tools::copy_dir_all(d.join("src"), d.join("dst"))))?;
        fsx::snapshot(&d.join("src")).same_tree(&fsx::snapshot(&d.join("dst")))?;
        Ok(())
    });
    c.case(|| "copies of entries with every name".into(), |c| {
        use std::os::unix::ffi::OsStrExt;
        let d = c.dir("cp");
        std::fs::create_dir_all(d.join("src")).unwrap();
        let mut names: Vec<Vec<u8>> = (1..=255u8).filter(|b| *b != b'/').flat_map(|b| [vec![b, b'q'], vec![b'q', b'.', b]]).collect();
        names.extend([vec![b'l'; 255], b"...".to_vec(), b".. ".to_vec(), b"a.".to_vec(), vec![0xff, 0xfe, 0xc3]]);
        for (i, n) in names.iter().enumerate() {
            let x = d.join("src").join(std::ffi::OsStr::from_bytes(n));
            if i % 5 == 0 {
                std::fs::create_dir(&x).unwrap();
                std::fs::write(x.join("inner"), n).unwrap();
            } else {
                std::fs::write(&x, n).unwrap();
            }
            c.state(&("name", n));
        }
        ok("copy_dir_all", guard(|| tools::copy_dir_all(d.join("src"), d.join("dst"))))?;
        c.transitions += 1;
        let list = |p: &Path| -> Vec<Vec<u8>> {
            let mut v: Vec<Vec<u8>> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().file_name().as_bytes().to_vec()).collect();
            v.sort();
            v
        };
        ensure!(list(&d.join("src")) == list(&d.join("dst")), "the copy's entries differ");
        for (i, n) in names.iter().enumerate() {
            let x = d.join("dst").join(std::ffi::OsStr::from_bytes(n));
            let f = if i % 5 == 0 { x.join("inner") } else { x };
            ensure!(std::fs::read(&f).ok().as_ref() == Some(n), "the copy of {f:?} differs");
        }
        Ok(())
    });
    // files of every size class, and directories of every number of entries
    for n in ladder(c.pick(300_000, 5_000_000)).into_iter().chain([(1 << 23) + 1, (1 << 25) + 3]) {
        c.case(|| format!("copy of files of {n} bytes"), |c| {
            let d = c.dir("cp");
            std::fs::create_dir_all(d.join("src/in")).unwrap();
            std::fs::write(d.join("src/f"), (0..n).map(|i| (i * 13 % 255) as u8).collect::<Vec<_>>()).unwrap();
            std::fs::write(d.join("src/in/zeros"), vec![0; n]).unwrap();
            for _ in 0..2 {
                ok("copy_dir_all", guard(|| tools::copy_dir_all(d.join("src"), d.join("dst"))))?;
                fsx::snapshot(&d.join("src")).same_tree(&fsx::snapshot(&d.join("dst")))?;
                std::fs::write(d.join("dst/f"), vec![1; n + 9000]).unwrap();
                c.transitions += 1;
            }
            c.state(&("copy", n));
            Ok(())
        });
    }
    for n in ladder(c.pick(700, 5000)) {
        c.case(|| format!("copy of {n} entries in one directory, and of a chain of directories"), |c| {
            let d = c.dir("cp");
            std::fs::create_dir(d.join("src")).unwrap();
            for i in 0..n {
                match i % 4 {
                    0 => std::fs::create_dir(d.join(format!("src/d{i}"))).unwrap(),
                    _ => std::fs::write(d.join(format!("src/f{i}")), format!("{i}")).unwrap(),
                }
            }
            let mut p = d.join("src");
            for i in 0..n.min(120) {
                p = p.join(format!("n{i}"));
                std::fs::create_dir(&p).unwrap();
                std::fs::write(p.join("x"), format!("level {i}")).unwrap();
            }
            ok("copy_dir_all", guard(|| tools::copy_dir_all(d.join("src"), d.join("dst"))))?;
            fsx::snapshot(&d.join("src")).same_tree(&fsx::snapshot(&d.join("dst")))?;
            c.transitions += 1;
            c.state(&("entries", n));
            Ok(())
        });
    }
    // a failure at each call
    let ts = trees(c.pick(3, 4));
    for chunk in ts.chunks(4) {
        c.case(|| format!("failures while copying {} trees from {:?}", chunk.len(), chunk[0]), |c| {
            for t in chunk {
                for there in [false, true] {
                    for sticky in [false, true] {
                        let mut i = 0i64;
                        loop {
                            let d = c.dir("cp");
                            let (src, dst) = (d.join("src"), d.join("dst"));
                            build(&src, t);
                            let before = fsx::snapshot(&src);
                            if there {
                                std::fs::create_dir(&dst).unwrap();
                            }
                            fsx::arm_fs_faults(&d, i, sticky);
                            let r = guard(|| tools::copy_dir_all(&src, &dst));
                            let (n, hits, names) = fsx::disarm_fs_faults();
                            let what = format!("copying {t:?} with a failure at call {i} ({:?})", names.get(i as usize));
                            match r? {
                                Ok(()) => before.same_tree(&fsx::snapshot(&dst)).map_err(|e| format!("{what}: reported as done, but {e}"))?,
                                Err(e) => ensure!(hits > 0, "{what}: failed without a fault: {e}"),
                            }
                            before.same_tree(&fsx::snapshot(&src)).map_err(|e| format!("{what}: source: {e}"))?;
                            c.transitions += 1;
                            c.count("faults", hits as u64);
                            c.state(&(t, there, sticky, i));
                            if i >= n as i64 {
                                break;
                            }
                            i += 1;
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C26

type Funds = BTreeMap<usize, U256>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum D {
    Add(usize, U256),
    Dec(usize, U256),
    Get(usize),
}
use D::*;

fn odd_addrs() -> Vec<Addr> {
    let mut v = vec![[0u8; 33], [0xff; 33], *b"abcdefghijklmnopqrstuvwxyz0123456", addr(7)];
    let mut one = [0u8; 33];
    one[32] = 1;
    v.push(one);
    let mut x = [b'a'; 33];
    x[5] = 0xc3;
    x[6] = 0x28;
    v.push(x);
    v
}

/// the specification: None = refused
fn spec(m: &Funds, d: &D) -> Option<Funds> {
    let mut n = m.clone();
    match d {
        Add(a, x) => {
            let v = n.entry(*a).or_default().checked_add(*x)?;
            n.insert(*a, v);
        }
        Dec(a, x) => {
            let v = n.get(a)?.checked_sub(*x)?;
            n.insert(*a, v);
        }
        Get(_) => {}
    }
    n.retain(|_, v| !v.is_zero());
    Some(n)
}
/// a debit of nothing from an account that holds nothing may be answered either way
fn either(m: &Funds, d: &D) -> bool {
    matches!(d, Dec(a, x) if x.is_zero() && !m.contains_key(a))
}
fn bal(s: &SummaryDB, a: &Addr) -> Result<U256, Fail> {
    let b = ok("get_funds", guard(|| s.get_funds(a)))?;
    let v = b.to_bytes_be();
    ensure!(v.len() <= 32, "a balance of {} bytes", v.len());
    Ok(U256::from_big_endian(&v))
}
fn run(s: &SummaryDB, ad: &[Addr], d: &D, sched: bool) -> Result<Result<U256, String>, String> {
    let f = |s: &SummaryDB| -> Result<U256, String> {
        let go = async {
            match d {
                Add(a, x) => s.add_funds(&ad[*a], x).await.map_err(|e| short(&e)),
                Dec(a, x) => s.decrease_funds(&ad[*a], x).await.map_err(|e| short(&e)),
                Get(_) => Ok(()),
            }
        };
        if let Get(a) = d {
            return s.get_funds(&ad[*a]).map(|b| U256::from_big_endian(&b.to_bytes_be())).map_err(|e| short(&e));
        }
        if sched { block_on_sched(go) } else { block_on(go) }.map(|()| U256::zero())
    };
    guard(|| f(s))
}
fn same_funds(s: &SummaryDB, ad: &[Addr], m: &Funds, what: &str) -> R {
    for (i, a) in ad.iter().enumerate() {
        same!(bal(s, a)?, m.get(&i).copied().unwrap_or_default(), "{what}: balance of account {i}");
    }
    Ok(())
}
/// carries an operation out and compares answer and effect
fn do_op(s: &SummaryDB, ad: &[Addr], m: &mut Funds, d: &D) -> R {
    let what = format!("{d:?} on {m:?}");
    let r = run(s, ad, d, false).map_err(|p| format!("{what} {p}"))?;
    if let Get(a) = d {
        same!(r, Ok(m.get(a).copied().unwrap_or_default()), "{what}");
        return Ok(());
    }
    if !either(m, d) {
        match (spec(m, d), &r) {
            (Some(n), Ok(_)) => *m = n,
            (None, Err(_)) => {}
            (Some(_), Err(e)) => return Err(format!("{what} was refused: {e}").into()),
            (None, Ok(_)) => return Err(format!("{what} was accepted").into()),
        }
    }
    same_funds(s, ad, m, &format!("after {what}"))
}
fn open_funds(d: &Path) -> Result<(sled::Db, SummaryDB), Fail> {
    // what an interrupted opening left behind is removed, as the tree does for its own databases
    if !d.join("db").exists() {
        let _ = std::fs::remove_file(d.join("conf"));
    }
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        if e.path().extension().map_or(false, |x| x == "generating") {
            let _ = std::fs::remove_file(e.path());
        }
    }
    let db = ok("opening the funds store", reopen(|| sled::open(d)))?;
    Ok((db.clone(), SummaryDB::new(db)))
}

fn c26(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    // every pair of boundary amounts: balance x, then each operation with y
    let ints = c.pick(ints_bytes(), ints_dense());
    let base = c.dir("funds");
    let (_db, s) = open_funds(&base).unwrap_or_else(|e| panic!("{}", e.msg));
    let mut next = c.shard << 40;
    for x in &ints {
        c.case(|| format!("balance {x:#x}, each operation with each amount"), |c| {
            for y in &ints {
                for kind in 0..2 {
                    next += 1;
                    let ad = [addr(next), addr(next + (1 << 39))];
                    let mut m = Funds::new();
                    do_op(&s, &ad, &mut m, &Add(0, *x))?;
                    let ops = if kind == 0 { [Add(0, *y), Dec(0, *x)] } else { [Dec(0, *y), Add(0, *y)] };
                    for o in ops {
                        do_op(&s, &ad, &mut m, &o)?;
                        c.transitions += 1;
                    }
                    c.state(&m);
                }
            }
            // at each side of the limits
            for (o, good) in [(Dec(0, *x), true), (Dec(0, x.saturating_add(u(1))), false), (Add(0, U256::MAX - *x), true)] {
                next += 1;
                let ad = [addr(next)];
                let mut m = Funds::new();
                do_op(&s, &ad, &mut m, &Add(0, *x))?;
                let b = m.clone();
                do_op(&s, &ad, &mut m, &o)?;
                ensure!(good || m == b || *x == U256::MAX, "an overdraft took effect");
            }
            Ok(())
        });
    }
    // every sequence over odd addresses; the store is reopened at the end of each
    let ad = odd_addrs();
    let big = U256::MAX - u(2);
    let al = [Add(0, u(255)), Add(0, big), Dec(0, u(255)), Dec(0, u(1)), Add(1, u(1)), Dec(1, big), Add(2, pow2(64)), Dec(2, pow2(64)), Add(0, u(0)), Dec(1, u(0))];
    let depth = c.pick(5, 6);
    for a in 0..al.len() {
        for b in 0..al.len() {
            c.case(|| format!("{:?}, {:?}, then all to depth {depth}", al[a], al[b]), |c| {
                let n = al.len();
                let d = c.dir("seq");
                let (db, s) = open_funds(&d)?;
                for rest in 0..n.pow(depth - 2) {
                    ok("clear", guard(|| db.clear()))?;
                    let mut code = (rest * n + b) * n + a;
                    let mut m = Funds::new();
                    for _ in 0..depth {
                        do_op(&s, &ad, &mut m, &al[code % n])?;
                        code /= n;
                        c.transitions += 1;
                        c.state(&m);
                    }
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
    // addresses: every one-byte neighbour is a different account
    c.case(|| "neighbouring addresses".into(), |c| {
        let d = c.dir("seq");
        let (_db, s) = open_funds(&d)?;
        let base = addr(3);
        let mut v = vec![base];
        for i in 0..33 {
            for x in [1u8, 0x80, 0xff] {
                let mut b = base;
                b[i] ^= x;
                v.push(b);
            }
        }
        v.extend(odd_addrs());
        let mut m = Funds::new();
        for i in 0..v.len() {
            let o = Add(i, u(1000 + i as u64));
            run(&s, &v, &o, false)?.map_err(|e| format!("{o:?} was refused: {e}"))?;
            m.insert(i, u(1000 + i as u64));
        }
        same_funds(&s, &v, &m, "neighbours")?;
        for i in 0..v.len() {
            let o = Dec(i, u(i as u64 + 1));
            run(&s, &v, &o, false)?.map_err(|e| format!("{o:?} was refused: {e}"))?;
            *m.get_mut(&i).unwrap() -= u(i as u64 + 1);
            c.transitions += 2;
        }
        same_funds(&s, &v, &m, "neighbours")
    });
    // crashes: during and after every operation
    let hist: Vec<Vec<D>> = vec![
        vec![Add(0, u(255)), Add(0, u(1)), Dec(0, u(200)), Add(1, big), Dec(1, u(7)), Dec(0, u(56))],
        vec![Add(2, pow2(200)), Dec(2, pow2(200)), Dec(2, u(1)), Add(2, u(3)), Add(3, u(4)), Dec(2, u(3))],
        vec![Add(4, u(1)), Add(5, u(2)), Add(4, U256::MAX), Add(5, pow2(255)), Dec(4, u(2)), Dec(4, u(1)), Add(1, u(9))],
    ];
    for (hi, h) in hist.iter().enumerate() {
        for cut in c.pick(vec![0usize, 3], (0..h.len()).collect()) {
            c.case(|| format!("crash in history {hi}, store opened at step {cut}"), |c| {
                let d = c.dir("cr");
                let ad = odd_addrs();
                let mut m = Funds::new();
                {
                    let (_db, s) = open_funds(&d)?;
                    for o in &h[..cut] {
                        do_op(&s, &ad, &mut m, o)?;
                    }
                }
                // descriptors are followed from their opening on
                fsx::start(&d);
                let (db, s) = open_funds(&d)?;
                fsx::settle();
                let from = fsx::mark();
                // (calls logged when the operation had returned, state)
                let mut marks = vec![(from, m.clone())];
                let mut bad = None;
                for o in &h[cut..] {
                    let e = spec(&m, o);
                    let r = run(&s, &ad, o, false);
                    match (&r, e) {
                        (Ok(Ok(_)), Some(n)) => m = n,
                        (Ok(Err(_)), None) => {}
                        _ => {
                            bad = Some(format!("{o:?} on {m:?}: {r:?}"));
                            break;
                        }
                    }
                    marks.push((fsx::mark(), m.clone()));
                }
                let (img, log) = fsx::stop();
                drop((s, db));
                if let Some(b) = bad {
                    return Err(b.into());
                }
                let cr = fsx::Crash::new(&img, &log);
                let n = log.len();
                let y = c.dir("y");
                let mut seen = BTreeSet::new();
                for k in from..=n {
                    let mut ims = vec![(format!("killed after call {k}"), cr.killed(k))];
                    if let Some(fsx::Op::Write { data, .. }) = log.get(k) {
                        for x in BTreeSet::from([1, 8, 16, data.len() / 4, data.len() / 2, data.len().saturating_sub(1)]) {
                            if let Some(i) = cr.torn(k, x) {
                                ims.push((format!("killed in call {k} after {x} bytes"), i));
                            }
                        }
                    }
                    let un: Vec<usize> = cr.unsynced(k).into_iter().collect();
                    for mask in 1..1usize << un.len().min(4) {
                        let lose: BTreeSet<usize> = un.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, o)| *o).collect();
                        ims.push((format!("power lost after call {k}, files {lose:?} not written"), cr.power(k, &lose)));
                    }
                    for (w, im) in ims {
                        if !seen.insert(im.print()) {
                            continue;
                        }
                        im.write_to(&y);
                        let (_db, s) = open_funds(&y)?;
                        let mut got = Funds::new();
                        for (i, a) in ad.iter().enumerate() {
                            let b = bal(&s, a).map_err(|e| format!("{w}: {}", e.msg))?;
                            if !b.is_zero() {
                                got.insert(i, b);
                            }
                        }
                        // at least what had returned, at most what had begun
                        let done = marks.iter().rposition(|(at, _)| *at <= k).unwrap();
                        let okay = marks[done..(done + 2).min(marks.len())].iter().any(|(_, m)| *m == got);
                        ensure!(okay, "{w} of {n}: found {got:?}, expected {:?} or the state after the next operation", marks[done].1);
                        // and the store goes on working
                        let o = Add(3, u(77));
                        if spec(&got, &o).is_some() {
                            do_op(&s, &ad, &mut got, &o).map_err(|e| format!("{w}: {}", e.msg))?;
                        }
                        c.count("crash_images", 1);
                        c.state(&im.print());
                    }
                    c.transitions += 1;
                }
                c.max("recorded_calls", n as u64);
                c.traces += 1;
                Ok(())
            });
        }
    }
    // an account never credited has nothing to debit, not even nothing
    c.case(|| "debits of accounts never credited".to_string(), |c| {
        let d = c.dir("nb");
        let ad = odd_addrs();
        for credited in [false, true] {
            let (_db, s) = open_funds(&d)?;
            for (i, a) in ad.iter().enumerate() {
                if credited && i == 0 {
                    ok("add_funds", guard(|| block_on(s.add_funds(a, &u(9)))))?;
                    continue;
                }
                for x in [u(0), u(1), u(255), U256::MAX] {
                    refused(&format!("a debit of {x} from an account never credited"), guard(|| block_on(s.decrease_funds(a, &x))))?;
                    ok("a credit of nothing", guard(|| block_on(s.add_funds(a, &u(0)))))?;
                    same!(bal(&s, a)?, u(0), "balance of an account never credited");
                    c.transitions += 1;
                }
                c.state(&("never", credited, i));
            }
        }
        Ok(())
    });
    // a failing storage operation: an error, and a state from before or after; never a wrong balance
    for o in [Add(0, u(5)), Add(1, u(5)), Dec(0, u(5)), Get(0), Get(1)] {
        c.case(|| format!("storage failure during {o:?}"), |c| {
            let d = c.dir("fl");
            let ad = odd_addrs();
            let (_db, s) = open_funds(&d)?;
            for mask in 1..8u64 {
                let mut m = Funds::new();
                for a in 0..2 {
                    let b = bal(&s, &ad[a])?;
                    if !b.is_zero() {
                        run(&s, &ad, &Dec(a, b), false)?.map_err(Fail::from)?;
                    }
                }
                do_op(&s, &ad, &mut m, &Add(0, u(1000)))?;
                vsched::arm_faults(mask);
                let r = run(&s, &ad, &o, false);
                let (_, hits, names) = vsched::disarm_faults();
                let what = format!("{o:?} with failures {mask:b} of {names:?}");
                let r = r.map_err(|p| format!("{what} {p}"))?;
                c.transitions += 1;
                c.count("faults", hits as u64);
                c.state(&(o, mask));
                if hits > 0 {
                    ensure!(r.is_err(), "{what} was reported as done: {r:?}");
                } else {
                    ensure!(r.is_ok() , "{what} failed without a fault: {r:?}");
                }
                let after = spec(&m, &o).unwrap();
                let mut got = Funds::new();
                for (i, a) in ad.iter().enumerate() {
                    let b = bal(&s, a)?;
                    if !b.is_zero() {
                        got.insert(i, b);
                    }
                }
                ensure!(got == m || got == after, "{what}: balances {got:?}");
                ensure!(hits > 0 || got == after, "{what}: no effect");
            }
            Ok(())
        });
    }
    // threads
    let dir = c.dir("conc");
    let (_db, s) = open_funds(&dir).unwrap_or_else(|e| panic!("{}", e.msg));
    let s = Arc::new(s);
    let al = [Add(0, u(3)), Dec(0, u(4)), Add(1, u(300)), Dec(1, u(1)), Get(0)];
    for a in al {
        for b in al {
            for e in al {
                c.case(|| format!("threads: {a:?}, {b:?} | {e:?}"), |c| {
                    let progs = [vec![a, b], vec![e]];
                    let mut init = Funds::new();
                    init.insert(0, u(5));
                    let mut traces = 0;
                    let r = vsched::explore(c.pick(2, 4), 100_000, &mut |prefix| {
                        next += 1;
                        let ad: Arc<Vec<Addr>> = Arc::new(vec![addr(next), addr(next + (1 << 39))]);
                        run(&s, &ad, &Add(0, u(5)), false)?.map_err(|e| format!("setup: {e}"))?;
                        let clock = Clock::new();
                        let out: Arc<Mutex<Vec<(Done, D, Result<Result<U256, String>, String>)>>> = Arc::new(Mutex::new(vec![]));
                        let mut bodies: Vec<vsched::Body> = vec![];
                        for (th, ops) in progs.iter().enumerate() {
                            let (s, ad, clock, out, ops) = (s.clone(), ad.clone(), clock.clone(), out.clone(), ops.clone());
                            bodies.push(Box::new(move || {
                                for op in &ops {
                                    let start = clock.tick();
                                    let r = run(&s, &ad, op, true);
                                    let end = clock.tick();
                                    let mut o = out.lock().unwrap();
                                    let k = o.len();
                                    o.push((Done { th, start, end, op: k }, *op, r));
                                }
                            }));
                        }
                        let x = vsched::run_once(bodies, prefix);
                        if let Some(f) = &x.failed {
                            return Err(format!("{f}; schedule {:?}", x.trace));
                        }
                        traces += 1;
                        let o = out.lock().unwrap();
                        for (_, op, r) in o.iter() {
                            if let Err(p) = r {
                                return Err(format!("{op:?} {p}; schedule {:?}", x.trace));
                            }
                        }
                        let mut fin = Funds::new();
                        for i in 0..2 {
                            let b = bal(&s, &ad[i]).map_err(|e| e.msg)?;
                            if !b.is_zero() {
                                fin.insert(i, b);
                            }
                        }
                        let ev: Vec<Done> = o.iter().map(|x| x.0.clone()).collect();
                        let good = linearizable(
                            &ev,
                            &init,
                            &|m: &Funds, k| {
                                let r = o[k].2.as_ref().unwrap();
                                match (&o[k].1, r) {
                                    (Get(a), Ok(v)) => (m.get(a).copied().unwrap_or_default() == *v).then(|| m.clone()),
                                    (Get(_), Err(_)) => None,
                                    (d, Ok(_)) => spec(m, d),
                                    (d, Err(_)) => spec(m, d).is_none().then(|| m.clone()),
                                }
                            },
                            &|m: &Funds| *m == fin,
                        );
                        if !good {
                            return Err(format!("no serial order explains results {:?} and final {fin:?} from {init:?}; schedule {:?}", o.iter().map(|x| (x.0.th, x.1, &x.2)).collect::<Vec<_>>(), x.trace));
                        }
                        Ok(x)
                    });
                    let st = r.map_err(Fail::from)?;
                    c.count("schedules", st.executions);
                    c.transitions += st.steps;
                    c.traces += traces;
                    c.state(&format!("{progs:?}"));
                    Ok(())
                });
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C23", level: "model_checking", run: c23, exhaustive: true, shards: 8,
            rule: "every sequence of insertions and removals over 5 and 7 transactions (ties, extremes, one hash at two times) to the stated depth, each step compared with a set model on size, membership and iteration, each removal checked to be an earliest one; every insertion order of 7 tied transactions; every multiplier pattern of larger pools; the order of every tied pair must be one and the same wherever it is seen; states = distinct pool contents and insertion orders, transitions = pool operations",
            assumptions: &[] },
        Prop { id: "C24", level: "model_checking", run: c24, exhaustive: true, shards: 8,
            rule: "every sequence of single, batch, mixed, failing and block recording and reopening to depth 3 (thorough 4) over transactions of every shape, all hashes queried after each step through all three queries; every record type byte at every length class; two threads recording under every schedule with at most 2 (thorough 3) preemptions; states = distinct histories and records, transitions = recording operations",
            assumptions: &["two different records do not have one SHA-256 hash"] },
        Prop { id: "C25", level: "fault_enumeration", run: c25, exhaustive: true, shards: 8,
            rule: "every content of one byte and every short content over four byte values, four structures at every buffer boundary up to 1 MiB (thorough 40 MB), over absent, smaller and larger files; every truncation of small archives, every bit flip; every directory tree of up to 4 (thorough 5) entries copied to six kinds of places; a failure at each file-system call, once and lasting; states = distinct contents, trees and fault places, transitions = calls under test",
            assumptions: &["an empty file, which compression never produces, may read as empty content"] },
        Prop { id: "C26", level: "model_checking", run: c26, exhaustive: true, shards: 8,
            rule: "every pair of boundary balance and amount for each operation, every operation sequence to depth 5 (thorough 6) over addresses that are no text, compared with an exact model on all accounts; a kill, torn write or loss of un-synced files at every recorded storage call of each history; a failure of each storage operation; every schedule of two threads with at most 2 (thorough 4) preemptions checked for linearizability; states = distinct balances and crash images, transitions = operations",
            assumptions: &["a debit of nothing from an account that holds nothing may be answered either way", "crash images keep the order of name-space operations; a file loses all its data since its last sync or none"] },
    ]
}

//! C19 reopening, C20 crash at any point, C22 storage failures, C27 genesis.
use crate::chainx::tuples;
use crate::epoch;
use crate::fsx;
use crate::model::*;
use crate::rt::*;
use crate::submit::{byte_price, ref_dump, ref_hash, same_tx};
use crate::util::*;
use crate::{ensure, same};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// accounts: the root account, the submitter, the receiver, one that is never used
pub fn acct(i: usize) -> Addr {
    match i {
        0 => ROOT,
        1 => key(1).pk,
        2 => key(2).pk,
        _ => addr(77),
    }
}
const NACCT: usize = 4;
pub fn owner(o: usize) -> Addr {
    // close relatives, as far as folder names go
    let mut a = addr(11);
    a[32] = o as u8;
    a
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum P {
    Emit,
    Block,
    Rec,
    Batch,
    Coins,
    Spend,
    Gas,
    /// the coins (or the gas) of an account spent to the last
    Drain,
    DrainGas,
    Submit,
    DGet(usize),
    DEmit(usize),
    DAdd(usize),
    Roll,
    Flush,
    MFlush,
    DFlush(usize),
    Reopen,
}

/// everything the tree should hold
#[derive(Clone, Default)]
pub struct St {
    pub main: Idx,
    pub own: BTreeMap<usize, (H, Idx)>,
    pub led: BTreeMap<usize, (U256, U256)>,
    pub txs: BTreeMap<H, Transaction>,
    /// balances at the latest rollover
    pub snap: Option<BTreeMap<usize, (U256, U256)>>,
}
impl St {
    pub fn fresh() -> Result<St, Fail> {
        Ok(St { main: Idx { base: u(0), v: vec![Blk::of(genesis())?] }, led: BTreeMap::from([(0, (cycle(), u(0)))]), ..St::default() })
    }
    fn bal(&self, i: usize) -> (U256, U256) {
        self.led.get(&i).copied().unwrap_or_default()
    }
    fn tip(&self) -> &Blk {
        self.main.v.last().unwrap()
    }
    fn deriv_tip(&self, o: usize) -> (H, H, u64, U256) {
        let (anchor, m) = &self.own[&o];
        match m.v.last() {
            Some(b) => (b.hash, b.d(), b.ts(), m.height()),
            None => {
                let b = self.main.v.iter().find(|b| b.hash == *anchor).expect("anchor");
                (b.hash, diff(1), b.ts(), m.height())
            }
        }
    }
    pub fn print(&self) -> u64 {
        let f = |m: &Idx| m.v.iter().map(|b| b.hash).collect::<Vec<_>>();
        let l: Vec<_> = self.led.iter().map(|(k, v)| (k, v.0 .0, v.1 .0)).collect();
        let o: Vec<_> = self.own.iter().map(|(k, v)| (k, v.0, f(&v.1))).collect();
        h64(&(f(&self.main), o, l, self.txs.keys().collect::<Vec<_>>()))
    }
}

/// what one operation does to the tree, and the state after it
pub struct Todo {
    pub next: St,
    pub call: Box<dyn FnMut(&mut BlockChainTree) -> Result<(), String> + Send>,
    /// states passed on the way (each account's balance may be seen there after a crash)
    pub via: Vec<St>,
}

pub struct Run {
    pub d: PathBuf,
    pub t: Option<BlockChainTree>,
    pub s: St,
    pub tag: u64,
    /// every block hash and transaction ever made
    pub blocks: Vec<H>,
    pub made: Vec<Transaction>,
}
fn e2s<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<(), String> {
    r.map(|_| ()).map_err(|e| short(&e))
}
impl Run {
    pub fn open(d: PathBuf, s: St) -> Result<Run, Fail> {
        let t = open_tree(&d)?;
        Ok(Run { d, t: Some(t), s, tag: 0, blocks: vec![], made: vec![] })
    }
    pub fn t(&mut self) -> &mut BlockChainTree {
        self.t.as_mut().unwrap()
    }
    fn mk(&mut self, n: usize) -> Vec<Transaction> {
        (0..n)
            .map(|i| {
                self.tag += 1;
                let data = match self.tag % 3 {
                    0 => None,
                    1 => Some(vec![7; 1]),
                    _ => Some((0..40).map(|b| (b + i) as u8).collect()),
                };
                let x = tx(&key(1), &acct(2), 1_650_000_000 + self.tag, u(1000 + self.tag), data);
                self.made.push(x.clone());
                x
            })
            .collect()
    }
    /// Plans an operation (None: not possible in this state).
    pub fn plan(&mut self, op: P) -> Result<Option<Todo>, Fail> {
        let mut n = self.s.clone();
        let mut via = vec![];
        self.tag += 1;
        let tag = self.tag;
        let call: Box<dyn FnMut(&mut BlockChainTree) -> Result<(), String> + Send> = match op {
            P::Emit | P::Roll => {
                let tip = self.s.tip().clone();
                let h = tip.h() + 1;
                let closing = (h % u(EPOCH)).is_zero();
                if closing != (op == P::Roll) {
                    return Ok(None);
                }
                let txs = if closing { vec![] } else { vec![hh(tag * 10), hh(tag * 10 + 1)] };
                let nonce = mine(&tip.hash, &tip.d(), &txs, true).ok_or("no nonce")?;
                let ts = tip.ts() + 600;
                let f = addr(tag % 5);
                let i = info(ts, nonce, tip.hash, h, diff(lz(&tip.d())), f);
                let b: BlockArc = if closing {
                    // root filled in by what the tree emits: taken from the chain afterwards
                    n.snap = Some(self.s.led.clone());
                    n.led.entry(0).or_default().0 = cycle();
                    Arc::new(SummarizeBlock { default_info: i, merkle_tree_root: summary_root(&self.s) })
                } else {
                    Arc::new(TransactionBlock::new(fee_of(lz(&tip.d())), i, merkle(&txs), txs.clone()))
                };
                let b = Blk::of(b)?;
                self.blocks.push(b.hash);
                n.main.v.push(b);
                Box::new(move |t| e2s(block_on(t.emmit_new_main_block(&nonce, &f, &txs, ts))))
            }
            P::Block => {
                let tip = self.s.tip().clone();
                if ((tip.h() + 1) % u(EPOCH)).is_zero() {
                    return Ok(None);
                }
                let txs = self.mk(2);
                let hs: Vec<H> = txs.iter().map(ref_hash).collect();
                let i = info(tip.ts() + 600, hh(tag), tip.hash, tip.h() + 1, tip.d(), addr(tag % 5));
                let b: BlockArc = Arc::new(TransactionBlock::new(fee_of(lz(&tip.d())), i, merkle(&hs), hs));
                let k = Blk::of(b.clone())?;
                self.blocks.push(k.hash);
                n.main.v.push(k);
                for x in &txs {
                    n.txs.insert(ref_hash(x), x.clone());
                }
                Box::new(move |t| e2s(t.add_new_block(b.clone(), &txs)))
            }
            P::Rec => {
                let x = self.mk(1).remove(0);
                n.txs.insert(ref_hash(&x), x.clone());
                Box::new(move |t| e2s(t.get_main_chain().add_transaction(&x)))
            }
            P::Batch => {
                let v = self.mk(3);
                for x in &v {
                    n.txs.insert(ref_hash(x), x.clone());
                }
                Box::new(move |t| e2s(t.get_main_chain().add_transactions(&v)))
            }
            P::Coins => {
                n.led.entry(1).or_default().0 += pow2(70) + u(tag);
                Box::new(move |t| e2s(t.add_amount(&acct(1), pow2(70) + u(tag))))
            }
            P::Spend => {
                let x = u(5_000_000 + tag);
                if n.bal(0).0 < x {
                    return Ok(None);
                }
                n.led.entry(0).or_default().0 -= x;
                n.led.entry(2).or_default().0 += x;
                Box::new(move |t| e2s(t.send_amount(&ROOT, &acct(2), x)))
            }
            P::Gas => {
                n.led.entry(1).or_default().1 += pow2(60) + u(tag);
                Box::new(move |t| e2s(t.add_gas(&acct(1), pow2(60) + u(tag))))
            }
            P::Drain => {
                let x = self.s.bal(1).0;
                if x.is_zero() {
                    return Ok(None);
                }
                n.led.entry(1).or_default().0 = u(0);
                Box::new(move |t| e2s(t.sub_amount(&acct(1), x)))
            }
            P::DrainGas => {
                let x = self.s.bal(1).1;
                if x.is_zero() {
                    return Ok(None);
                }
                n.led.entry(1).or_default().1 = u(0);
                n.led.entry(2).or_default().1 += x;
                Box::new(move |t| e2s(t.send_gas(&acct(1), &acct(2), x)))
            }
            P::Submit => {
                let x = self.mk(1).remove(0);
                let gas = byte_price() * u(ref_dump(&x).len() as u64);
                let amount = *Transaction::get_amount(&x);
                let fee = fee_of(lz(&self.s.tip().d()));
                let b = self.s.bal(1);
                if b.1 < gas || b.0 < fee + amount {
                    self.made.pop();
                    return Ok(None);
                }
                let e = n.led.entry(1).or_default();
                e.0 -= amount;
                e.1 -= gas;
                n.led.entry(2).or_default().0 += amount;
                n.txs.insert(ref_hash(&x), x.clone());
                Box::new(move |t| e2s(t.send_transaction(&x)))
            }
            P::DGet(o) => {
                let tip = self.s.tip().hash;
                n.own.entry(o).or_insert((tip, Idx::default()));
                Box::new(move |t| e2s(t.get_derivative_chain(&owner(o))))
            }
            P::DEmit(o) => {
                let tip = self.s.tip().hash;
                n.own.entry(o).or_insert((tip, Idx::default()));
                via.push(n.clone());
                let (ph, pd, pt, h) = n.deriv_tip(o);
                let nonce = mine(&ph, &pd, &[], true).ok_or("no nonce")?;
                let b = Blk::of(Arc::new(DerivativeBlock { default_info: info(pt + 600, nonce, ph, h, diff(lz(&pd)), owner(o)) }))?;
                self.blocks.push(b.hash);
                n.own.get_mut(&o).unwrap().1.v.push(b);
                Box::new(move |t| e2s(block_on(t.emmit_new_derivative_block(&nonce, &owner(o), pt + 600))))
            }
            P::DAdd(o) => {
                let tip = self.s.tip().hash;
                n.own.entry(o).or_insert((tip, Idx::default()));
                via.push(n.clone());
                let (ph, pd, pt, h) = n.deriv_tip(o);
                let b = DerivativeBlock { default_info: info(pt + 600, hh(tag), ph, h, pd, owner(o)) };
                let k = Blk::of(Arc::new(DerivativeBlock { default_info: b.default_info.clone() }))?;
                self.blocks.push(k.hash);
                n.own.get_mut(&o).unwrap().1.v.push(k);
                Box::new(move |t| {
                    let c = t.get_derivative_chain(&owner(o)).map_err(|e| short(&e))?;
                    e2s(c.add_block(&b))
                })
            }
            P::Flush => Box::new(|t| e2s(block_on(t.flush()))),
            P::MFlush => Box::new(|t| e2s(block_on(t.get_main_chain().flush()))),
            P::DFlush(o) => {
                if !self.s.own.contains_key(&o) {
                    return Ok(None);
                }
                Box::new(move |t| {
                    let c = t.get_derivative_chain(&owner(o)).map_err(|e| short(&e))?;
                    e2s(block_on(c.flush()))
                })
            }
            P::Reopen => return Ok(None),
        };
        Ok(Some(Todo { next: n, call, via }))
    }
    /// Carries an operation out; it must succeed.
    pub fn step(&mut self, op: P) -> Result<bool, Fail> {
        if op == P::Reopen {
            flush(self.t.as_ref().unwrap())?;
            self.reopen()?;
            return Ok(true);
        }
        let Some(mut x) = self.plan(op)? else { return Ok(false) };
        let t = self.t.as_mut().unwrap();
        match guard(|| (x.call)(t)) {
            Err(p) => return Err(format!("{op:?} {p}").into()),
            Ok(Err(e)) => return Err(format!("{op:?} failed: {e}").into()),
            Ok(Ok(())) => self.s = x.next,
        }
        Ok(true)
    }
    pub fn reopen(&mut self) -> R {
        self.t = None;
        self.t = Some(open_tree(&self.d)?);
        Ok(())
    }
    /// Everything that can be asked, against the model (derivative chains of the model only).
    pub fn compare(&mut self, what: &str) -> R {
        let s = self.s.clone();
        let absent: Vec<H> = self.blocks.iter().filter(|h| !s.main.v.iter().any(|b| b.hash == **h)).copied().collect();
        let made = self.made.clone();
        let t = self.t();
        let mc = t.get_main_chain();
        s.main.check(&Ch::M(mc.clone()), &absent, &format!("{what}: main chain"))?;
        for (o, (anchor, m)) in &s.own {
            let c = ok("get_derivative_chain", guard(|| t.get_derivative_chain(&owner(*o))))?;
            same!(hex(&*c.genesis_hash), hex(anchor), "{what}: anchor of owner {o}");
            let mut foreign: Vec<H> = s.main.v.iter().map(|b| b.hash).collect();
            foreign.extend(absent.iter().filter(|h| !m.v.iter().any(|b| b.hash == **h)));
            m.check(&Ch::D(c), &foreign, &format!("{what}: chain of owner {o}"))?;
        }
        for i in 0..NACCT {
            let a = acct(i);
            let x = (ok("get_amount", guard(|| t.get_amount(&a)))?, ok("get_gas", guard(|| t.get_gas(&a)))?);
            same!(x, s.bal(i), "{what}: balance of account {i}");
        }
        for x in &made {
            same_rec(&mc, x, s.txs.contains_key(&ref_hash(x)), what)?;
        }
        ensure!(!ok("transaction_exists", guard(|| mc.transaction_exists(&hh(31337))))?, "{what}: a transaction that was never recorded exists");
        Ok(())
    }
}
/// a transaction is recorded exactly, or not at all
fn same_rec(mc: &MainChain, x: &Transaction, there: bool, what: &str) -> R {
    let h = ref_hash(x);
    same!(ok("transaction_exists", guard(|| mc.transaction_exists(&h)))?, there, "{what}: presence of transaction {}", s8(&h));
    let raw = ok("get_transaction_raw", guard(|| mc.get_transaction_raw(&h)))?;
    same!(raw.as_ref().map(|r| hex(r)), there.then(|| hex(&ref_dump(x))), "{what}: raw transaction {}", s8(&h));
    match ok("get_transaction", guard(|| mc.get_transaction(&h)))? {
        Some(g) => same_tx(&g, x),
        None => Ok(()),
    }
}
/// root over the balances as they are closed: taken from the code's rule only through C17; here
/// any root is accepted, so the block is patched in afterwards
fn summary_root(_: &St) -> H {
    [0; 32]
}
/// after a rollover: the closing block as the tree emitted it
pub fn patch_closing(r: &mut Run) -> R {
    let t = r.t.as_ref().unwrap();
    let b = ok("get_last_block", guard(|| t.get_main_chain().get_last_block()))?.ok_or("no last block")?;
    let mut want = r.s.main.v.pop().unwrap();
    let i = b.get_info();
    let w = want.b.get_info();
    same!((i.height, hex(&i.previous_hash), hex(&i.difficulty), i.timestamp), (w.height, hex(&w.previous_hash), hex(&w.difficulty), w.timestamp), "the closing block");
    r.blocks.retain(|h| *h != want.hash);
    want = Blk::of(b)?;
    r.blocks.push(want.hash);
    r.s.main.v.push(want);
    Ok(())
}

fn nm(v: &[P]) -> String {
    v.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(" ")
}

// ---------------------------------------------------------------- C19

fn sequence(c: &mut Ctx, seq: &[P], tpl: Option<(&Path, &St)>) -> R {
    let d = c.dir("x");
    let s = match tpl {
        Some((p, s)) => {
            copy_dir(p, &d);
            s.clone()
        }
        None => St::fresh()?,
    };
    let mut r = Run::open(d, s)?;
    // transactions unlike those recorded in the template
    r.tag = 500;
    for (i, op) in seq.iter().enumerate() {
        if !r.step(*op).map_err(|e| Fail::from(format!("[{}] step {i}: {}", nm(seq), e.msg)))? {
            c.count("steps_not_applicable", 1);
            return Ok(());
        }
        if *op == P::Roll {
            patch_closing(&mut r)?;
        }
        c.transitions += 1;
        if *op == P::Reopen || i + 1 == seq.len() {
            r.compare(&format!("after [{}]", nm(&seq[..=i])))?;
        }
    }
    flush(r.t.as_ref().unwrap())?;
    r.reopen()?;
    r.compare(&format!("after [{}], flush, reopen", nm(seq)))?;
    // nothing done in between: with and without another flush, derivative chains not touched
    r.reopen()?;
    flush(r.t.as_ref().unwrap())?;
    r.reopen()?;
    r.compare(&format!("after [{}], reopened three times", nm(seq)))?;
    // and it goes on
    let next = [P::Block, P::DAdd(0), P::DEmit(1), P::Spend, P::Emit];
    for op in next {
        r.step(op).map_err(|e| Fail::from(format!("after [{}] and reopening: {}", nm(seq), e.msg)))?;
    }
    r.compare(&format!("after [{}], reopening and going on", nm(seq)))?;
    flush(r.t.as_ref().unwrap())?;
    r.reopen()?;
    r.compare(&format!("after [{}], reopening, going on, reopening", nm(seq)))?;
    if let Some(l) = &r.s.snap {
        let want = led_of(l);
        r.t = None;
        epoch::same_led(&epoch::snap(&r.d)?, &want, &format!("after [{}]: snapshot", nm(seq)))?;
    }
    c.state(&(seq.to_vec(), tpl.is_some()));
    c.traces += 1;
    Ok(())
}
fn led_of(l: &BTreeMap<usize, (U256, U256)>) -> epoch::Led {
    l.iter().filter(|(_, v)| **v != Default::default()).map(|(k, v)| (acct(*k).to_vec(), *v)).collect()
}
/// a tree `left` blocks before the end of the first epoch, with something of everything
pub fn near_end(c: &Ctx, name: &str, left: u64) -> Result<(PathBuf, St), Fail> {
    let d = c.dir(name);
    let tip = tree_with_tip(&d, EPOCH - left, 1, 1_700_000_000)?;
    let mut s = St::fresh()?;
    s.main = Idx { base: tip.h(), v: vec![tip] };
    let mut r = Run::open(d.clone(), s)?;
    for op in [P::Coins, P::Gas, P::Spend, P::DEmit(0), P::Submit, P::Flush] {
        ensure!(r.step(op)?, "setup");
    }
    r.t = None;
    Ok((d, r.s))
}

pub fn library_ops() -> [P; 16] {
    [P::Emit, P::Block, P::Rec, P::Batch, P::Coins, P::Spend, P::Gas, P::Drain, P::Submit, P::DGet(0), P::DEmit(0), P::DAdd(1), P::Flush, P::Reopen, P::MFlush, P::DFlush(0)]
}
fn c19(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let full = library_ops();
    let small = [P::Block, P::Spend, P::DEmit(0), P::Reopen, P::Flush];
    let depth = c.pick(3, 3);
    for pre in tuples(full.len(), 1) {
        c.case(|| format!("all histories of {depth} operations that start with {:?}", full[pre[0]]), |c| {
            for rest in tuples(full.len(), depth - 1) {
                let seq: Vec<P> = pre.iter().chain(&rest).map(|i| full[*i]).collect();
                sequence(c, &seq, None)?;
            }
            Ok(())
        });
    }
    let depth = c.pick(5, 6);
    for pre in tuples(small.len(), 2) {
        c.case(|| format!("all histories of {depth} of the main operations that start with {}", nm(&pre.iter().map(|i| small[*i]).collect::<Vec<_>>())), |c| {
            for rest in tuples(small.len(), depth - 2) {
                let seq: Vec<P> = pre.iter().chain(&rest).map(|i| small[*i]).collect();
                sequence(c, &seq, None)?;
            }
            Ok(())
        });
    }
    // around an epoch's end
    let ends = [P::Roll, P::Emit, P::Block, P::Spend, P::Submit, P::DEmit(1), P::Reopen];
    let depth = c.pick(3, 3);
    for (left, pre) in [0, 1].into_iter().flat_map(|l| tuples(ends.len(), 1).into_iter().map(move |p| (l, p))) {
        c.case(|| format!("{left} blocks before an epoch's end, all histories of {depth} operations that start with {:?}", ends[pre[0]]), |c| {
            let (tpl, s) = near_end(c, "tpl", left)?;
            for rest in tuples(ends.len(), depth - 1) {
                let mut seq: Vec<P> = pre.iter().chain(&rest).map(|i| ends[*i]).collect();
                sequence(c, &seq, Some((&tpl, &s)))?;
                if !seq.contains(&P::Roll) {
                    seq.push(P::Roll);
                    sequence(c, &seq, Some((&tpl, &s)))?;
                }
            }
            Ok(())
        });
    }
    // reopening again and again, alternating with and without work
    c.case(|| "a hundred reopenings".into(), |c| {
        let mut r = Run::open(c.dir("x"), St::fresh()?)?;
        let ops = [P::Emit, P::DEmit(0), P::Coins, P::Gas, P::Submit, P::Batch, P::DAdd(1), P::Block];
        for i in 0..100usize {
            if i % 2 == 0 {
                r.step(ops[i / 2 % ops.len()])?;
            }
            r.step(P::Reopen)?;
            if i % 5 == 0 || i < 10 {
                r.compare(&format!("reopening {i}"))?;
            }
            c.transitions += 1;
        }
        r.compare("in the end")
    });
    // many owners, many accounts, long chains
    c.case(|| "many of everything".into(), |c| {
        let mut r = Run::open(c.dir("x"), St::fresh()?)?;
        for i in 0..20 {
            r.step(P::Emit)?;
            for _ in 0..i % 4 {
                r.step(P::DEmit(i))?;
                r.step(P::DAdd(i))?;
            }
            r.step(P::DGet(100 + i))?;
            r.step(P::Batch)?;
        }
        r.compare("before")?;
        for k in 0..3 {
            r.step(P::Reopen)?;
            r.compare(&format!("reopened {k} times"))?;
            for i in [3, 7, 19, 105] {
                r.step(P::DAdd(i))?;
            }
        }
        c.state(&"many");
        Ok(())
    });
}

// ---------------------------------------------------------------- C20, C27

/// state `at` is reached once the log has `mark` entries
struct Hist {
    st: Vec<(usize, St)>,
    /// (mark, what was flushed then)
    floors: Vec<(usize, Floor)>,
}
#[derive(Clone)]
struct Floor {
    /// least index of the states that may be found
    main: usize,
    led: usize,
    own: BTreeMap<usize, usize>,
}

/// a recorded history and what is allowed after a crash at each point of it
struct Rec {
    img: fsx::Image,
    log: Vec<fsx::Op>,
    h: Hist,
    blocks: Vec<H>,
    made: Vec<Transaction>,
    last: fsx::Image,
}

#[derive(Clone, Copy)]
enum Step {
    Op(P),
    /// what the periodic flusher does to the stores of the mask
    Bg(usize),
}

/// Records `steps` on a directory; the tree is opened under the recorder.
/// Records until the calls rebuild the directory (the storage library may write a moment longer).
fn record(c: &Ctx, tpl: Option<(&Path, &St)>, steps: &[Step], drop_end: bool) -> Result<Rec, Fail> {
    let mut n = 0;
    loop {
        let rec = record1(c, tpl, steps, drop_end)?;
        match fsx::Crash::new(&rec.img, &rec.log).killed(rec.log.len()).same_tree(&rec.last) {
            Ok(()) => return Ok(rec),
            Err(e) if n > 10 => return Err(format!("harness: the recorded calls do not rebuild the directory: {e}").into()),
            Err(_) => n += 1,
        }
    }
}
fn record1(c: &Ctx, tpl: Option<(&Path, &St)>, steps: &[Step], drop_end: bool) -> Result<Rec, Fail> {
    let d = c.dir("x");
    let s0 = match tpl {
        Some((p, s)) => {
            copy_dir(p, &d);
            s.clone()
        }
        None => St::fresh()?,
    };
    fsx::start(&d);
    let mut h = Hist { st: vec![], floors: vec![] };
    let mut own: BTreeMap<usize, usize> = s0.own.keys().map(|o| (*o, 0)).collect();
    let mut fl = Floor { main: 0, led: 0, own: BTreeMap::new() };
    let body = || -> Result<Run, Fail> {
        let mut r = Run::open(d.clone(), s0.clone())?;
        // a template was flushed; a new tree is what opening creates, whether flushed or not
        h.st.push((fsx::mark(), s0.clone()));
        fl.own = std::mem::take(&mut own);
        h.floors.push((0, fl.clone()));
        for st in steps {
            match st {
                Step::Bg(mask) => epoch::background(&r.d, *mask),
                Step::Op(P::Reopen) => {
                    flush(r.t.as_ref().unwrap())?;
                    let i = h.st.len() - 1;
                    fl = Floor { main: i, led: i, own: r.s.own.keys().map(|o| (*o, i)).collect() };
                    h.floors.push((fsx::mark(), fl.clone()));
                    r.reopen()?;
                }
                Step::Op(op) => {
                    let Some(mut x) = r.plan(*op)? else { return Err(format!("harness: {op:?} is not possible there").into()) };
                    let t = r.t.as_mut().unwrap();
                    for v in x.via {
                        h.st.push((usize::MAX, v));
                    }
                    match guard(|| (x.call)(t)) {
                        Err(p) => return Err(format!("{op:?} {p}").into()),
                        Ok(Err(e)) => return Err(format!("{op:?} failed: {e}").into()),
                        Ok(Ok(())) => r.s = x.next,
                    }
                    if *op == P::Roll {
                        patch_closing(&mut r)?;
                    }
                    let i = h.st.len() - 1;
                    match op {
                        P::Flush => {
                            fl = Floor { main: i, led: i, own: r.s.own.keys().map(|o| (*o, i)).collect() };
                            h.floors.push((fsx::mark(), fl.clone()));
                        }
                        P::MFlush => {
                            fl.main = i;
                            h.floors.push((fsx::mark(), fl.clone()));
                        }
                        P::DFlush(o) => {
                            fl.own.insert(*o, i);
                            h.floors.push((fsx::mark(), fl.clone()));
                        }
                        _ => {
                            let m = fsx::mark();
                            for s in h.st.iter_mut() {
                                s.0 = s.0.min(m);
                            }
                            h.st.push((m, r.s.clone()));
                        }
                    }
                }
            }
        }
        Ok(r)
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)).map_err(|p| Fail::from(panic_text(p)));
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    let r = r.map(|mut r| {
        if drop_end {
            r.t = None;
        }
        r
    });
    fsx::settle();
    let (img, log) = fsx::stop();
    let r = r?;
    let last = fsx::snapshot(&d);
    for s in h.st.iter_mut() {
        s.0 = s.0.min(log.len());
    }
    let out = Rec { img, log, h, blocks: r.blocks.clone(), made: r.made.clone(), last };
    if !drop_end {
        drop(r);
    }
    Ok(out)
}

/// What a crash after `k` calls may leave, and that the tree goes on from there.
fn recover(c: &mut Ctx, y: &Path, rec: &Rec, k: usize, what: &str) -> R {
    let f = &rec.h.floors.iter().rev().find(|(m, _)| *m <= k).unwrap().1;
    let st = &rec.h.st;
    // the operation in progress may be visible too
    let top = st.iter().position(|(m, _)| *m > k).unwrap_or(st.len() - 1);
    let e = |m: String| Fail::from(format!("{what}: {m}"));
    let mut t = open_tree(y).map_err(|x| e(x.msg))?;
    let mc = t.get_main_chain();
    let ch = Ch::M(mc.clone());
    let mut now = St::default();
    // main chain
    let h = ch.height()?;
    let full = &st[top].1.main;
    let (lo, hi) = (st[f.main].1.main.height(), full.height());
    ensure!(lo <= h && h <= hi, "{what}: the chain has height {h}, {lo} was flushed and {hi} reached");
    now.main = Idx { base: full.base, v: full.v[..(h - full.base).low_u64() as usize].to_vec() };
    let absent: Vec<H> = rec.blocks.iter().filter(|x| !now.main.v.iter().any(|b| b.hash == **x)).copied().collect();
    now.main.check(&ch, &absent, &format!("{what}: main chain"))?;
    // transactions
    for x in &rec.made {
        let id = ref_hash(x);
        let there = ok("transaction_exists", guard(|| mc.transaction_exists(&id)))?;
        same_rec(&mc, x, there, what)?;
        if st[f.main].1.txs.contains_key(&id) {
            ensure!(there, "{what}: the flushed transaction {} is gone", s8(&id));
        }
        if there {
            ensure!(st[..=top].iter().any(|s| s.1.txs.contains_key(&id)), "{what}: transaction {} was not recorded yet", s8(&id));
            now.txs.insert(id, x.clone());
        }
        // transactions recorded with a block that is found are found too
    }
    // balances
    for i in 0..NACCT {
        let a = acct(i);
        let x = (ok("get_amount", guard(|| t.get_amount(&a)))?, ok("get_gas", guard(|| t.get_gas(&a)))?);
        let had: Vec<(U256, U256)> = st[f.led..=top].iter().map(|s| s.1.bal(i)).collect();
        ensure!(had.iter().any(|b| b.0 == x.0) && had.iter().any(|b| b.1 == x.1), "{what}: account {i} has {x:?}, since the flush it had {had:?}");
        now.led.insert(i, x);
    }
    // derivative chains
    let owners: BTreeSet<usize> = st[..=top].iter().flat_map(|s| s.1.own.keys().copied()).collect();
    for o in owners {
        let d = ok("get_derivative_chain", guard(|| t.get_derivative_chain(&owner(o)))).map_err(|x| e(x.msg))?;
        let a: H = *d.genesis_hash;
        let anchors: BTreeSet<H> = st[f.own.get(&o).copied().unwrap_or(0)..=top].iter().filter_map(|s| s.1.own.get(&o).map(|x| x.0)).collect();
        let must = f.own.get(&o).map(|i| &st[*i].1.own[&o]);
        if let Some((x, _)) = must {
            same!(hex(&a), hex(x), "{what}: anchor of owner {o}");
        }
        let ch = Ch::D(d);
        let h = ch.height()?;
        let lo = must.map_or(U256::zero(), |m| m.1.height());
        if must.is_none() && !anchors.contains(&a) {
            same!(hex(&a), hex(&now.tip().hash), "{what}: anchor of owner {o}, whose chain was not flushed");
            same!(h, u(0), "{what}: height of the new chain of owner {o}");
        }
        if must.is_some_and(|m| m.0 == a) && now.main.base == u(0) && !st[f.main].1.main.v.iter().any(|b| b.hash == a) && !now.main.v.iter().any(|b| b.hash == a) {
            return Err(known("anchor-ahead", format!("{what}: the chain of owner {o} was flushed by itself, the block it is anchored at was not and is lost")));
        }
        ensure!(now.main.base != u(0) || now.main.v.iter().any(|b| b.hash == a), "{what}: owner {o} is anchored at {}, which is not a block of the main chain", s8(&a));
        let full = st[..=top].iter().rev().find_map(|s| s.1.own.get(&o)).unwrap();
        let hi = full.1.height();
        ensure!(lo <= h && h <= hi, "{what}: chain of owner {o} has height {h}, {lo} was flushed and {hi} reached");
        let m = Idx { base: u(0), v: full.1.v[..h.low_u64() as usize].to_vec() };
        let absent: Vec<H> = rec.blocks.iter().filter(|x| !m.v.iter().any(|b| b.hash == **x)).copied().collect();
        m.check(&ch, &absent, &format!("{what}: chain of owner {o}"))?;
        now.own.insert(o, (a, m));
    }
    // the snapshot of the latest rollover, if no other began since the flush
    if let Some(l) = &st[f.led.min(f.main)].1.snap {
        if st[..=top].iter().all(|s| s.1.snap.is_none() || s.1.snap.as_ref() == Some(l)) {
            drop((t, mc, ch));
            epoch::same_led(&epoch::snap(y)?, &led_of(l), &format!("{what}: snapshot of the flushed rollover"))?;
            c.count("snapshots_checked", 1);
            return Ok(());
        }
    }
    // it goes on, closes and reopens as any other
    let mut r = Run { d: y.to_path_buf(), t: Some(t), s: now, tag: 5000, blocks: rec.blocks.clone(), made: rec.made.clone() };
    drop((mc, ch));
    let go = |r: &mut Run| -> R {
        for op in [P::Block, P::Emit, P::Roll, P::Emit, P::DEmit(0), P::DAdd(1), P::Rec, P::Spend, P::Coins, P::Gas, P::Submit] {
            if r.step(op)? && op == P::Roll {
                patch_closing(r)?;
            }
        }
        r.compare("going on")?;
        r.step(P::Reopen)?;
        r.compare("going on, flushed, reopened")?;
        if let Some(l) = r.s.snap.take() {
            let want = led_of(&l);
            r.t = None;
            epoch::same_led(&epoch::snap(&r.d)?, &want, "snapshot of the rollover afterwards")?;
        }
        Ok(())
    };
    go(&mut r).map_err(|x| e(x.msg))?;
    c.transitions += 1;
    Ok(())
}

/// Every crash image of a recorded history.
fn explore_crashes(c: &mut Ctx, rec: &Rec, from: usize, part: usize, parts: usize, check: &dyn Fn(&mut Ctx, &Path, usize, &str) -> R) -> R {
    let cr = fsx::Crash::new(&rec.img, &rec.log);
    let n = rec.log.len();
    if std::env::var("MC_LOG").is_ok() && part == 0 {
        for (i, o) in rec.log.iter().enumerate() {
            eprintln!("{i} {} {o:?}", o.name().chars().take(100).collect::<String>());
        }
    }
    let y = c.dir("y");
    let mut seen = BTreeSet::new();
    let mut idx = 0usize;
    for k in from..=n {
        idx += 1;
        if idx % parts != part {
            continue;
        }
        let mut imgs = vec![(format!("killed after call {k}"), cr.killed(k))];
        if let Some(fsx::Op::Write { data, .. }) = rec.log.get(k) {
            let len = data.len();
            let mut cuts = BTreeSet::from([1, len / 2, len.saturating_sub(1)]);
            if c.thorough() {
                cuts.extend([4, 8, 12, 16, 17, 20, 24, 32, 48, 64, len / 4, 3 * len / 4]);
            }
            for cut in cuts {
                if cut > 0 && cut < len {
                    if let Some(i) = cr.torn(k, cut) {
                        imgs.push((format!("killed in call {k} after {cut} bytes"), i));
                    }
                }
            }
        }
        let un: Vec<usize> = cr.unsynced(k).into_iter().collect();
        if !un.is_empty() {
            let all: BTreeSet<usize> = un.iter().copied().collect();
            let mut sets: BTreeSet<BTreeSet<usize>> = BTreeSet::from([all.clone()]);
            for o in &un {
                sets.insert(BTreeSet::from([*o]));
                let mut x = all.clone();
                x.remove(o);
                if !x.is_empty() {
                    sets.insert(x);
                }
            }
            if c.thorough() && un.len() <= 5 {
                for m in 1..1usize << un.len() {
                    sets.insert((0..un.len()).filter(|i| m >> i & 1 == 1).map(|i| un[i]).collect());
                }
            }
            c.max("unsynced_files", un.len() as u64);
            for s in sets {
                imgs.push((format!("power lost after call {k}, files {s:?} not written"), cr.power(k, &s)));
            }
        }
        for (w, im) in imgs {
            if !seen.insert(im.print()) {
                continue;
            }
            im.write_to(&y);
            let w = format!("{w} of {n} ({} next)", rec.log.get(k).map_or("nothing".into(), |o| o.name()));
            match check(c, &y, k, &w) {
                Ok(()) => {}
                Err(e) if !e.key.is_empty() => c.soft(e),
                Err(e) => return Err(e),
            }
            c.state(&im.print());
            c.count("crash_images", 1);
        }
    }
    c.max("recorded_calls", n as u64);
    c.traces += 1;
    Ok(())
}

fn histories(thorough: bool) -> Vec<(&'static str, bool, Vec<Step>)> {
    use self::P::*;
    let o = |v: &[P]| v.iter().map(|p| Step::Op(*p)).collect::<Vec<_>>();
    let mut v: Vec<(&'static str, bool, Vec<Step>)> = vec![
        ("blocks and transactions", false, o(&[Block, Emit, Flush, Block, Rec, Emit, Flush, Emit])),
        ("balances", false, o(&[Coins, Gas, Flush, Spend, Coins, Submit, Flush, Spend, Gas])),
        ("derivative chains", false, o(&[Emit, DEmit(0), Flush, DEmit(0), DAdd(1), Emit, Flush, DAdd(1)])),
        ("derivative chains after main blocks", false, o(&[DGet(0), Flush, Emit, DGet(1), DAdd(0), DEmit(1), Flush])),
        ("separate flushes", false, o(&[Block, DEmit(0), MFlush, Block, DAdd(0), DFlush(0), Batch, MFlush, Rec])),
        ("an anchor that is not flushed", false, o(&[Emit, Block, DGet(0), DFlush(0), Emit, Flush])),
        ("reopening", false, o(&[Block, DEmit(0), Spend, Reopen, Block, DAdd(0), Coins, Reopen])),
        ("rollover", true, o(&[Spend, Flush, Roll, Emit, Flush, Spend])),
        ("rollover without flushes", true, o(&[Spend, Submit, Roll, Block])),
    ];
    // the periodic flusher at any place, on any stores
    let base = [Block, Spend, Submit, Flush, Block, Coins, Submit];
    let masks: Vec<usize> = if thorough { (1..32).collect() } else { vec![1, 2, 4, 8, 16, 3, 12, 19, 31] };
    for at in 1..=base.len() {
        for m in &masks {
            if !thorough && (at + m) % 3 != 0 && *m != 31 {
                continue;
            }
            let mut s = o(&[Coins, Gas]);
            s.extend(o(&base[..at]));
            s.push(Step::Bg(*m));
            s.extend(o(&base[at..]));
            v.push(("periodic flush", false, s));
        }
    }
    v
}

fn c20(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    for (i, (name, late, steps)) in histories(c.thorough()).into_iter().enumerate() {
        let bg = name == "periodic flush";
        let parts = if bg { 1 } else { 8 };
        for part in 0..parts {
            c.case(|| format!("{name} {i}, part {part}"), |c| {
                let tpl = if late { Some(near_end(c, "tpl", 0)?) } else { None };
                let tpl = match (tpl, bg) {
                    (Some(x), _) => Some(x),
                    (None, true) => {
                        // start from a flushed tree: opening it is explored elsewhere
                        let d = c.dir("tpl");
                        let mut r = Run::open(d.clone(), St::fresh()?)?;
                        for p in [P::Emit, P::Gas, P::Coins, P::Flush] {
                            r.step(p)?;
                        }
                        r.t = None;
                        Some((d, r.s))
                    }
                    _ => None,
                };
                let rec = record(c, tpl.as_ref().map(|(d, s)| (d.as_path(), s)), &steps, part % 2 == 1)?;
                let from = if bg { rec.log.iter().position(|_| true).unwrap_or(0).max(rec.h.st.get(3).map_or(0, |s| s.0)) } else { 0 };
                explore_crashes(c, &rec, from, part, parts, &|c, y, k, w| recover(c, y, &rec, k, w))
            });
        }
    }
}

/// a tree just created, as the first run left it; closed afterwards
fn is_fresh(d: &Path, what: &str) -> R {
    let mut r = Run::open(d.to_path_buf(), St::fresh()?).map_err(|e| Fail::from(format!("{what}: {}", e.msg)))?;
    r.compare(what)?;
    r.t = None;
    epoch::same_led(&epoch::ledger(d)?, &epoch::fresh_led(), &format!("{what}: stored balances"))?;
    epoch::same_led(&epoch::snap(d)?, &epoch::Led::new(), &format!("{what}: snapshot of an epoch that never was"))?;
    let p = d.join(sv::MAIN_CHAIN_DIRECTORY).join(sv::TRANSACTIONS_FOLDER);
    let n = epoch::store_len(&p)?;
    same!(n, 0, "{what}: recorded transactions");
    Ok(())
}
fn works(d: &Path, what: &str) -> R {
    let mut r = Run::open(d.to_path_buf(), St::fresh()?).map_err(|e| Fail::from(format!("{what}: {}", e.msg)))?;
    let mut go = || -> R {
        for op in [P::Emit, P::DEmit(0), P::Spend, P::Block, P::DAdd(1), P::Gas, P::Coins, P::Submit, P::Drain, P::DrainGas] {
            r.step(op)?;
        }
        r.compare("in use")?;
        r.step(P::Reopen)?;
        r.compare("in use, reopened")
    };
    go().map_err(|e| Fail::from(format!("{what}: {}", e.msg)))
}

fn c27(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    #[derive(Clone, Copy, Debug)]
    enum End {
        Drop,
        Flush,
        Twice,
    }
    // the folder
    for name in ["x", "x/", "new", "new/deeper/still", "with space", "d\u{f6}t.\u{4e16}", "x/./y", ".hidden"] {
        for full in [false, true] {
            c.case(|| format!("folder {name:?}, {}", if full { "with other files in it" } else { "empty or missing" }), |c| {
                let base = c.dir("f");
                let d = PathBuf::from(format!("{}/{name}", base.to_str().unwrap()));
                if full {
                    std::fs::create_dir_all(d.join("other")).unwrap();
                    std::fs::write(d.join("notes.txt"), b"mine").unwrap();
                    std::fs::write(d.join("other/snap.generating"), b"mine").unwrap();
                }
                for k in 0..3 {
                    is_fresh(&d, &format!("opened {k} times before"))?;
                }
                works(&d, "used at once")?;
                if full {
                    same!(std::fs::read(d.join("notes.txt")).ok(), Some(b"mine".to_vec()), "a file that was there");
                    same!(std::fs::read(d.join("other/snap.generating")).ok(), Some(b"mine".to_vec()), "a file that was there");
                }
                c.state(&(name, full));
                Ok(())
            });
        }
    }
    // balances of the root account are never credited again
    let vals: Vec<U256> = vec![u(0), u(1), cycle() - 1, cycle(), cycle() + 1, U256::MAX];
    for gas in [u(0), u(9)] {
        for blocks in 0..c.pick(3, 6) {
            for flushes in [false, true] {
                c.case(|| format!("root account with any balance and {gas} gas, {blocks} more blocks, {}", if flushes { "flushed" } else { "not flushed" }), |c| {
                    for v in &vals {
                        let mut r = Run::open(c.dir("x"), St::fresh()?)?;
                        let t = r.t();
                        ok("set_amount", guard(|| t.set_amount(&ROOT, *v)))?;
                        if !gas.is_zero() {
                            ok("add_gas", guard(|| t.add_gas(&ROOT, gas)))?;
                        }
                        r.s.led.insert(0, (*v, gas));
                        if !v.is_zero() && *v != U256::MAX {
                            ok("send_amount", guard(|| r.t.as_ref().unwrap().send_amount(&ROOT, &acct(1), *v)))?;
                            ok("send_amount", guard(|| r.t.as_ref().unwrap().send_amount(&acct(1), &ROOT, *v)))?;
                        }
                        for _ in 0..blocks {
                            r.step(P::Emit)?;
                        }
                        for k in 0..3 {
                            if flushes {
                                flush(r.t.as_ref().unwrap())?;
                            } else {
                                // without a flush the blocks are lost, the balances are those at the close
                                r.s.main.v.truncate(1);
                            }
                            r.reopen()?;
                            r.compare(&format!("root {v}, reopened {k} times"))?;
                        }
                        c.state(&(v, gas, blocks, flushes));
                        c.transitions += 3;
                    }
                    Ok(())
                });
            }
        }
    }
    // the first run, cut short at any point, and the second one too
    let rec1 = |c: &Ctx, from: Option<&Path>, end: End| -> Result<Rec, Fail> {
        let mut n = 0;
        loop {
            let d = c.dir("x");
            if let Some(p) = from {
                copy_dir(p, &d);
            }
            fsx::start(&d);
            let go = || -> R {
                let t = open_tree(&d)?;
                if !matches!(end, End::Drop) {
                    flush(&t)?;
                }
                if matches!(end, End::Twice) {
                    flush(&t)?;
                    drop(t);
                    open_tree(&d)?;
                }
                Ok(())
            };
            let r = go();
            fsx::settle();
            let (img, log) = fsx::stop();
            r?;
            let last = fsx::snapshot(&d);
            let rec = Rec { img, log, h: Hist { st: vec![], floors: vec![] }, blocks: vec![], made: vec![], last };
            match fsx::Crash::new(&rec.img, &rec.log).killed(rec.log.len()).same_tree(&rec.last) {
                Ok(()) => return Ok(rec),
                Err(e) if n > 10 => return Err(format!("harness: the recorded calls do not rebuild the directory: {e}").into()),
                Err(_) => n += 1,
            }
        }
    };
    for end in [End::Drop, End::Flush, End::Twice] {
        for part in 0..8 {
            c.case(|| format!("first run ({end:?}) cut short, part {part}"), |c| {
                let rec = rec1(c, None, end)?;
                explore_crashes(c, &rec, 0, part, 8, &|c, y, _, w| {
                    is_fresh(y, w)?;
                    works(y, w)?;
                    c.transitions += 1;
                    Ok(())
                })
            });
        }
    }
    // cut short, opened again, cut short again
    let parts = 16;
    for part in 0..parts {
        c.case(|| format!("first and second run cut short, part {part}"), |c| {
            let rec = rec1(c, None, End::Flush)?;
            let step = c.pick(3, 1);
            let cr = fsx::Crash::new(&rec.img, &rec.log);
            let z = c.dir("z");
            for k in (0..=rec.log.len()).filter(|k| k % parts == part && (k / parts) % step == 0) {
                cr.killed(k).write_to(&z);
                let second = rec1(c, Some(&z), End::Drop)?;
                explore_crashes(c, &second, 0, 0, 1, &|c, y, _, w| {
                    is_fresh(y, &format!("first run killed after call {k} of {}, second run {w}", rec.log.len()))?;
                    c.transitions += 1;
                    Ok(())
                })?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C22

/// one query, its answer as text
pub type Q = (&'static str, Box<dyn Fn(&mut BlockChainTree) -> Result<String, String>>);
pub fn queries(s: &St, made: &[Transaction]) -> Vec<Q> {
    fn q<T: std::fmt::Debug, E: std::fmt::Debug>(r: Result<T, E>) -> Result<String, String> {
        r.map(|x| format!("{x:?}")).map_err(|e| short(&e))
    }
    fn qb<E: std::fmt::Debug>(r: Result<Option<BlockArc>, E>) -> Result<String, String> {
        r.map(|x| format!("{:?}", x.map(|b| hex(&b.dump().unwrap())))).map_err(|e| short(&e))
    }
    let mut v: Vec<Q> = vec![];
    let tip = s.tip().clone();
    let first = s.main.v[0].clone();
    let base = s.main.base;
    let top = s.main.height();
    let th: Vec<H> = made.iter().map(ref_hash).collect();
    v.push(("get_height", Box::new(|t| Ok(t.get_main_chain().get_height().to_string()))));
    for h in [base, top - 1, top, U256::MAX] {
        v.push(("find_raw_by_height", Box::new(move |t| q(t.get_main_chain().find_raw_by_height(&h)))));
        v.push(("find_by_height", Box::new(move |t| qb(t.get_main_chain().find_by_height(&h)))));
    }
    for h in [tip.hash, first.hash, hh(1)] {
        v.push(("find_raw_by_hash", Box::new(move |t| q(t.get_main_chain().find_raw_by_hash(&h)))));
        v.push(("find_by_hash", Box::new(move |t| qb(t.get_main_chain().find_by_hash(&h)))));
    }
    v.push(("get_last_raw_block", Box::new(|t| q(t.get_main_chain().get_last_raw_block()))));
    v.push(("get_last_block", Box::new(|t| qb(t.get_main_chain().get_last_block()))));
    for h in th.into_iter().take(3).chain([hh(2)]) {
        v.push(("transaction_exists", Box::new(move |t| q(t.get_main_chain().transaction_exists(&h)))));
        v.push(("get_transaction_raw", Box::new(move |t| q(t.get_main_chain().get_transaction_raw(&h)))));
        v.push(("get_transaction", Box::new(move |t| t.get_main_chain().get_transaction(&h).map(|x| format!("{:?}", x.map(|x| hex(&ref_dump(&x))))).map_err(|e| short(&e)))));
    }
    for i in 0..NACCT {
        v.push(("get_amount", Box::new(move |t| q(t.get_amount(&acct(i))))));
        v.push(("get_gas", Box::new(move |t| q(t.get_gas(&acct(i))))));
    }
    for (o, (_, m)) in &s.own {
        let o = *o;
        let hs: Vec<H> = m.v.iter().map(|b| b.hash).collect();
        v.push(("derivative anchor", Box::new(move |t| q(t.get_derivative_chain(&owner(o)).map(|c| *c.genesis_hash)))));
        v.push(("derivative height", Box::new(move |t| q(t.get_derivative_chain(&owner(o)).map(|c| c.get_height())))));
        for k in [0u64, 1, 7] {
            v.push(("derivative find_raw_by_height", Box::new(move |t| q(t.get_derivative_chain(&owner(o)).and_then(|c| c.find_raw_by_height(&u(k)))))));
            v.push(("derivative find_by_height", Box::new(move |t| q(t.get_derivative_chain(&owner(o)).and_then(|c| c.find_by_height(&u(k)).map(|b| b.map(|b| b.dump().unwrap())))))));
        }
        for h in hs.into_iter().chain([hh(3)]) {
            v.push(("derivative find_raw_by_hash", Box::new(move |t| q(t.get_derivative_chain(&owner(o)).and_then(|c| c.find_raw_by_hash(&h))))));
            v.push(("derivative find_by_hash", Box::new(move |t| q(t.get_derivative_chain(&owner(o)).and_then(|c| c.find_by_hash(&h).map(|b| b.map(|b| b.dump().unwrap())))))));
        }
        v.push(("derivative get_last_raw_block", Box::new(move |t| q(t.get_derivative_chain(&owner(o)).and_then(|c| c.get_last_raw_block())))));
        v.push(("derivative get_last_block", Box::new(move |t| q(t.get_derivative_chain(&owner(o)).and_then(|c| c.get_last_block().map(|b| b.map(|b| b.dump().unwrap())))))));
    }
    v
}

/// fault patterns over operations that take about n storage calls
fn masks(n: usize, thorough: bool) -> Vec<u64> {
    let n = n.min(40);
    let mut v: BTreeSet<u64> = BTreeSet::new();
    for i in 0..n {
        v.insert(1 << i);
        v.insert(u64::MAX << i);
        for j in i + 1..(n + 4).min(60) {
            v.insert(1 << i | 1 << j);
        }
    }
    if thorough && n <= 9 {
        v.extend(1..1u64 << (n + 2));
    }
    v.into_iter().collect()
}

/// a tree with some of everything, flushed
fn stocked(c: &Ctx, name: &str) -> Result<(PathBuf, St, Vec<Transaction>), Fail> {
    let d = c.dir(name);
    let mut r = Run::open(d.clone(), St::fresh()?)?;
    for op in [P::Coins, P::Gas, P::Spend, P::Block, P::DEmit(0), P::Submit, P::Emit, P::DAdd(1), P::Batch, P::DGet(2), P::Flush] {
        ensure!(r.step(op)?, "setup");
    }
    r.t = None;
    Ok((d, r.s, r.made))
}

/// One operation under one fault pattern; afterwards it is repeated without faults.
fn faulty(c: &mut Ctx, r: &mut Run, op: P, mask: u64, again: bool, other: bool) -> R {
    let Some(mut x) = r.plan(op)? else { return Err(format!("harness: {op:?} is not possible there").into()) };
    let before = r.s.clone();
    let t = r.t.as_mut().unwrap();
    vsched::arm_faults(mask);
    let res = guard(|| (x.call)(t));
    let (_, hits, names) = vsched::disarm_faults();
    let what = format!("{op:?} with faults {mask:b} at {}", names.join(","));
    let what = what.as_str();
    // an attempt on a new chain may have created it, empty, which is what asking for it does
    let settle = |r: &mut Run| {
        if let Some(v) = x.via.first() {
            r.s = v.clone();
        }
    };
    match res {
        Err(p) => return Err(format!("{what}: {p}").into()),
        Ok(Ok(())) => {
            r.s = x.next.clone();
            patched(r, op)?;
            r.compare(&format!("{what}: reported as done"))?;
        }
        Ok(Err(e)) => {
            ensure!(hits > 0, "{what}: failed without a fault: {e}");
            let cmp = r.compare(&format!("{what}: reported as failed"));
            if let Err(e) = cmp {
                if op == P::Submit && hits >= 2 {
                    return Err(known("submit-compensation", format!("{} (the submission failed and so did taking its effects back)", e.msg)));
                }
                return Err(e);
            }
            if again {
                flush(r.t.as_ref().unwrap()).map_err(|e| Fail::from(format!("{what}: then {}", e.msg)))?;
                r.reopen().map_err(|e| Fail::from(format!("{what}: then {}", e.msg)))?;
                r.compare(&format!("{what}: reported as failed, reopened"))?;
            }
            settle(r);
            if other {
                // something else of the kind takes its place
                let mut y = r.plan(op)?.ok_or("harness: not possible")?;
                let res = guard(|| (y.call)(r.t.as_mut().unwrap()))?;
                same!(res, Ok(()), "{what}: another one afterwards");
                r.s = y.next.clone();
                patched(r, op)?;
                r.compare(&format!("{what}: failed, then another one"))?;
                c.count("failed_operations", 1);
                c.transitions += 1;
                c.state(&(op, mask, names.len(), again, "other"));
                return Ok(());
            }
            let t = r.t.as_mut().unwrap();
            match guard(|| (x.call)(t)) {
                Err(p) => return Err(format!("{what}: repeated: {p}").into()),
                Ok(Err(e)) => return Err(format!("{what}: repeated without faults, it fails: {e}").into()),
                Ok(Ok(())) => {}
            }
            r.s = x.next.clone();
            patched(r, op)?;
            r.compare(&format!("{what}: failed, then repeated"))?;
            c.count("failed_operations", 1);
        }
    }
    let _ = before;
    c.transitions += 1;
    c.state(&(op, mask, names.len(), again));
    Ok(())
}
fn patched(r: &mut Run, op: P) -> R {
    if op == P::Roll { patch_closing(r) } else { Ok(()) }
}

/// each operation with each one of its storage calls failing: done in full or refused without a
/// trace, in memory and after reopening, and then repeated
pub fn single_faults(c: &mut Ctx, ops: &[P]) {
    for op in ops {
        let op = *op;
        c.case(|| format!("{op:?} while any one of its storage calls fails"), |c| {
            let (tpl, s, made) = if op == P::Roll {
                let (d, s) = near_end(c, "sftpl", 0)?;
                (d, s, vec![])
            } else {
                stocked(c, "sftpl")?
            };
            let mut i = 0;
            loop {
                for (again, other) in [(false, false), (true, false), (false, true), (true, true)] {
                    let d = c.dir("sf");
                    copy_dir(&tpl, &d);
                    let mut r = Run::open(d, s.clone())?;
                    r.tag = 500;
                    r.made = made.clone();
                    faulty(c, &mut r, op, 1 << i, again, other)?;
                    r.step(P::Reopen)?;
                    r.compare(&format!("{op:?} with storage call {i} failing, in the end"))?;
                }
                // as many as it takes, and one more
                let d = c.dir("sf");
                copy_dir(&tpl, &d);
                let mut r = Run::open(d, s.clone())?;
                r.tag = 500;
                r.made = made.clone();
                let mut x = r.plan(op)?.ok_or("harness: not possible")?;
                vsched::arm_faults(1 << i);
                let _ = guard(|| (x.call)(r.t.as_mut().unwrap()).is_ok());
                let (_, hits, _) = vsched::disarm_faults();
                if hits == 0 || i > 40 {
                    return Ok(());
                }
                i += 1;
            }
        });
    }
}

fn c22(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let ops = [P::Emit, P::Block, P::Rec, P::Batch, P::Coins, P::Spend, P::Gas, P::Drain, P::DrainGas, P::Submit, P::DGet(0), P::DGet(2), P::DGet(5), P::DEmit(0), P::DEmit(2), P::DEmit(5), P::DAdd(1), P::DAdd(6), P::Flush, P::MFlush, P::DFlush(0)];
    for op in ops {
        for again in [false, true] {
            c.case(|| format!("{op:?} with storage calls failing{}", if again { ", reopened before it is repeated" } else { "" }), |c| {
                let (tpl, s, made) = stocked(c, "tpl")?;
                let start = |c: &Ctx| -> Result<Run, Fail> {
                    let d = c.dir("x");
                    copy_dir(&tpl, &d);
                    let mut r = Run::open(d, s.clone())?;
                    r.tag = 500;
                    r.made = made.clone();
                    Ok(r)
                };
                // how many storage calls it takes
                let mut r = start(c)?;
                let mut x = r.plan(op)?.ok_or("harness: not possible")?;
                vsched::arm_faults(0);
                let t = r.t.as_mut().unwrap();
                let res = guard(|| (x.call)(t));
                let (n, _, _) = vsched::disarm_faults();
                same!(res, Ok(Ok(())), "{op:?} without faults");
                drop(x);
                r.t = None;
                let mut r = start(c)?;
                let fresh_each = matches!(op, P::DGet(_) | P::DEmit(_) | P::DAdd(_));
                for (i, m) in masks(n, c.thorough()).into_iter().enumerate() {
                    if again && m.count_ones() > 1 && i % 5 != 0 && !c.thorough() {
                        continue;
                    }
                    if fresh_each && i > 0 {
                        r.t = None;
                        r = start(c)?;
                    }
                    for refill in match op {
                        P::Drain => &[P::Coins][..],
                        P::DrainGas => &[P::Gas],
                        _ => &[],
                    } {
                        r.step(*refill)?;
                    }
                    match faulty(c, &mut r, op, m, again, false) {
                        Ok(()) => {}
                        Err(e) if !e.key.is_empty() => {
                            c.soft(e);
                            r.t = None;
                            r = start(c)?;
                        }
                        Err(e) => return Err(e),
                    }
                }
                flush(r.t.as_ref().unwrap())?;
                r.reopen()?;
                r.compare("in the end")?;
                c.max("storage_calls", n as u64);
                Ok(())
            });
        }
    }
    // rollover
    for again in [false, true] {
        let parts = 4;
        for part in 0..parts {
            c.case(|| format!("Roll with storage calls failing{}, part {part}", if again { ", reopened before it is repeated" } else { "" }), |c| {
                let (tpl, s) = near_end(c, "tpl", 0)?;
                let start = |c: &Ctx| -> Result<Run, Fail> {
                    let d = c.dir("x");
                    copy_dir(&tpl, &d);
                    Run::open(d, s.clone())
                };
                let mut r = start(c)?;
                let mut x = r.plan(P::Roll)?.ok_or("harness: not possible")?;
                vsched::arm_faults(0);
                let t = r.t.as_mut().unwrap();
                let res = guard(|| (x.call)(t));
                let (n, _, _) = vsched::disarm_faults();
                same!(res, Ok(Ok(())), "Roll without faults");
                r.t = None;
                for (i, m) in masks(n, false).into_iter().enumerate() {
                    if i % parts != part || (m.count_ones() == 2 && !c.thorough() && i / parts % 4 != 0) {
                        continue;
                    }
                    let mut r = start(c)?;
                    faulty(c, &mut r, P::Roll, m, again, false)?;
                    flush(r.t.as_ref().unwrap())?;
                    r.reopen()?;
                    r.compare(&format!("Roll with faults {m:b}, reopened"))?;
                    r.t = None;
                    epoch::same_led(&epoch::snap(&r.d)?, &led_of(&s.led), &format!("Roll with faults {m:b}: snapshot"))?;
                }
                c.max("storage_calls", n as u64);
                Ok(())
            });
        }
    }
    single_faults(c, &ops);
    // queries
    for late in [false, true] {
        c.case(|| format!("every query with storage calls failing{}", if late { ", chains not yet opened" } else { "" }), |c| {
            let (tpl, s, made) = stocked(c, "tpl")?;
            let d = c.dir("x");
            copy_dir(&tpl, &d);
            let mut t = open_tree(&d)?;
            for (name, q) in queries(&s, &made) {
                if late && name.starts_with("derivative") {
                    drop(t);
                    t = open_tree(&d)?;
                }
                vsched::arm_faults(0);
                let good = guard(|| q(&mut t)).map_err(Fail::from)?;
                let (n, _, _) = vsched::disarm_faults();
                let good = good.map_err(|e| Fail::from(format!("{name}: {e}")))?;
                for m in masks(n, true) {
                    if late && name.starts_with("derivative") {
                        drop(t);
                        t = open_tree(&d)?;
                    }
                    vsched::arm_faults(m);
                    let r = guard(|| q(&mut t));
                    let (_, hits, names) = vsched::disarm_faults();
                    match r {
                        Err(p) => return Err(format!("{name} with faults {m:b} at {}: {p}", names.join(",")).into()),
                        Ok(Ok(x)) => same!(x, good, "{name} with faults {m:b} at {}", names.join(",")),
                        Ok(Err(e)) => ensure!(hits > 0, "{name}: failed without a fault: {e}"),
                    }
                    let r = guard(|| q(&mut t)).map_err(Fail::from)?;
                    same!(r, Ok(good.clone()), "{name} after faults {m:b}");
                    c.transitions += 1;
                    c.state(&(name, m, late));
                }
                c.max("storage_calls_of_a_query", n as u64);
            }
            Ok(())
        });
    }
    // file-system calls failing: opening, flushing, rolling over, opening a derivative chain
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum F {
        First,
        Open,
        Flush,
        Roll,
        Deriv,
        DerivNew,
        Close,
    }
    for f in [F::First, F::Open, F::Flush, F::Roll, F::Deriv, F::DerivNew, F::Close] {
        for sticky in [false, true] {
            let parts = 4;
            for part in 0..parts {
                c.case(|| format!("{f:?} with file calls failing{}, part {part}", if sticky { " from some point on" } else { "" }), |c| {
                    let (tpl, s, made) = match f {
                        F::Roll => {
                            let (d, s) = near_end(c, "tpl", 0)?;
                            (d, s, vec![])
                        }
                        F::First => (c.dir("tpl"), St::fresh()?, vec![]),
                        _ => stocked(c, "tpl")?,
                    };
                    let mut i = -1i64;
                    let mut total = 0i64;
                    loop {
                        if i >= 0 && (i as usize) % parts != part {
                            i += 1;
                            continue;
                        }
                        if i >= total && i >= 0 {
                            break;
                        }
                        let d = c.dir("x");
                        copy_dir(&tpl, &d);
                        let n = fs_fault(c, f as usize, &d, &s, &made, i, sticky, true)?;
                        if i >= 0 && f as usize >= 2 && f != F::Close {
                            // the process goes without having tried again
                            copy_dir(&tpl, &d);
                            fs_fault(c, f as usize, &d, &s, &made, i, sticky, false)?;
                        }
                        if i < 0 {
                            total = n as i64;
                            c.max("file_calls", n as u64);
                        }
                        i += 1;
                    }
                    Ok(())
                });
            }
        }
    }
}
/// the storage library itself gives up (it does so when it cannot write while closing)
pub fn library(p: &str) -> bool {
    p.contains("/sled/src/") || p.contains("/sled-0.")
}
/// one fault on the i-th file-system call (-1: none); returns the number of calls
fn fs_fault(c: &mut Ctx, f: usize, d: &Path, s: &St, made: &[Transaction], i: i64, sticky: bool, again: bool) -> Result<usize, Fail> {
    let mut n = 0;
    let what;
    // states that may be found afterwards: the flushed one, those reached since
    let mut st = vec![s.clone()];
    let mut flushed = 0;
    let mut blocks = vec![];
    let mut all = made.to_vec();
    match f {
        0 | 1 => {
            fsx::arm_fs_faults(d, i, sticky);
            let r = guard(|| BlockChainTree::new(d.to_str().unwrap()).map(|t| drop(t)).map_err(|e| short(&e)));
            let (k, hits, names) = fsx::disarm_fs_faults();
            n = k;
            what = format!("opening with a fault at file call {i} ({})", names.get(i.max(0) as usize).cloned().unwrap_or_default());
            match r {
                Err(p) if library(&p) => c.count("the storage library gave up by itself", 1),
                Err(p) => return Err(format!("{what}: {p}").into()),
                Ok(Err(e)) => ensure!(hits > 0, "{what}: failed without a fault: {e}"),
                Ok(Ok(())) => {}
            }
        }
        _ => {
            let mut r = Run::open(d.to_path_buf(), s.clone())?;
            r.tag = 800;
            r.made = made.to_vec();
            let (op, pre): (Option<P>, Vec<P>) = match f {
                2 => (Some(P::Flush), vec![P::Block, P::Spend, P::Gas, P::DAdd(0), P::DGet(7)]),
                3 => (Some(P::Roll), vec![P::Spend]),
                4 => (Some(P::DGet(0)), vec![]),
                5 => (Some(P::DEmit(9)), vec![]),
                _ => (None, vec![P::Block, P::Spend]),
            };
            for p in pre {
                ensure!(r.step(p)?, "setup");
                st.push(r.s.clone());
            }
            match op {
                Some(op) => {
                    let mut x = r.plan(op)?.ok_or("harness: not possible")?;
                    fsx::arm_fs_faults(d, i, sticky);
                    let t = r.t.as_mut().unwrap();
                    let res = guard(|| (x.call)(t));
                    let (k, hits, names) = fsx::disarm_fs_faults();
                    n = k;
                    what = format!("{op:?} with a fault at file call {i} ({})", names.get(i.max(0) as usize).cloned().unwrap_or_default());
                    st.extend(x.via.clone());
                    match res {
                        Err(p) if library(&p) => {
                            c.count("the storage library gave up by itself", 1);
                            st.push(x.next.clone());
                        }
                        Err(p) => return Err(format!("{what}: {p}").into()),
                        Ok(Ok(())) => {
                            r.s = x.next.clone();
                            patched(&mut r, op)?;
                            st.push(r.s.clone());
                            if op == P::Flush {
                                flushed = st.len() - 1;
                            }
                            r.compare(&format!("{what}: reported as done"))?;
                        }
                        Ok(Err(e)) => {
                            ensure!(hits > 0, "{what}: failed without a fault: {e}");
                            // no query crashes or shows anything else than before (a failed store may refuse)
                            for (name, q) in queries(&r.s.clone(), &r.made.clone()) {
                                if name.starts_with("derivative") && f >= 4 {
                                    continue;
                                }
                                let t = r.t.as_mut().unwrap();
                                if let Err(p) = guard(|| q(t)).map_err(|p| if library(&p) { String::new() } else { p }) {
                                    if p.is_empty() {
                                        continue;
                                    }
                                    return Err(format!("{what}: then {name}: {p}").into());
                                }
                            }
                            if again {
                            // a store that saw no fault goes on: if everything can be asked, it is as before
                            let t = r.t.as_mut().unwrap();
                            match guard(|| (x.call)(t)) {
                                Err(p) if library(&p) => st.push(x.next.clone()),
                                Err(p) => return Err(format!("{what}: repeated: {p}").into()),
                                Ok(Ok(())) => {
                                    r.s = x.next.clone();
                                    patched(&mut r, op)?;
                                    st.push(r.s.clone());
                                    if op == P::Flush {
                                        flushed = st.len() - 1;
                                    }
                                    r.compare(&format!("{what}: repeated"))?;
                                    c.count("repeated_at_once", 1);
                                }
                                Ok(Err(_)) => {
                                    st.push(x.next.clone());
                                    c.count("store_refuses_until_reopened", 1);
                                }
                            }
                            }
                            if op == P::Roll {
                                // the storage library may have kept the closing block and lost the answer: never visible
                                st.retain(|s| s.main.v.last().map_or(true, |b| b.b.get_merkle_root() != [0; 32]));
                            }
                        }
                    }
                    blocks = r.blocks.clone();
                    all = r.made.clone();
                    if let Err(p) = guard(|| r.t = None).or_else(|p| if library(&p) { Ok(()) } else { Err(p) }) {
                        return Err(format!("{what}: closing {p}").into());
                    }
                }
                None => {
                    blocks = r.blocks.clone();
                    all = r.made.clone();
                    fsx::arm_fs_faults(d, i, sticky);
                    let res = guard(|| r.t = None);
                    let (k, _, names) = fsx::disarm_fs_faults();
                    n = k;
                    what = format!("closing with a fault at file call {i} ({})", names.get(i.max(0) as usize).cloned().unwrap_or_default());
                    res.or_else(|p| if library(&p) { Ok(()) } else { Err(p) }).map_err(|p| Fail::from(format!("{what}: {p}")))?;
                }
            }
        }
    }
    // storage works again
    let own = st[flushed].own.keys().map(|o| (*o, flushed)).collect();
    let top = st.len();
    let h = Hist { st: st.into_iter().map(|s| (0, s)).collect(), floors: vec![(0, Floor { main: flushed, led: flushed, own })] };
    let _ = top;
    let rec = Rec { img: Default::default(), log: vec![], h, blocks, made: all, last: Default::default() };
    recover(c, d, &rec, 0, &format!("{what}{}, then reopened", if sticky { " and all later ones" } else { "" }))?;
    c.state(&(f, i, sticky, again));
    Ok(n)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C22", level: "fault_enumeration", run: c22, exhaustive: true, shards: 8,
            rule: "every operation and query with its storage calls failing in every single, every two, and every persistent pattern (all subsets where few), in memory and across reopening, then repeated; opening, flushing, rolling over and closing with every single file-system call failing, once and persistently, then reopened; states = operations and fault patterns",
            assumptions: &["a store of the storage library that failed to write refuses service until reopened"] },
        Prop { id: "C27", level: "fault_enumeration", run: c27, exhaustive: true, shards: 8,
            rule: "every folder form, every root balance with or without blocks and flushes, reopened three times; every crash image (calls cut at every point and within writes, power lost) of first runs that open, flush, close and open again, and of the second run after a first run killed at a point; each image must give exactly the genesis state, and a working tree; states = cases and distinct directory images",
            assumptions: &["directory changes reach the disk in order (data may be lost unless synced)"] },
        Prop { id: "C19", level: "model_checking", run: c19, exhaustive: true, shards: 8,
            rule: "every history of the stated depth over the operations of the tree, each followed by flush and close, several reopenings and more work; everything that can be queried is compared with a reference state; states = histories",
            assumptions: &["heights near an epoch's end are reached by rewriting the configuration file"] },
        Prop { id: "C20", level: "fault_enumeration", run: c20, exhaustive: true, shards: 8,
            rule: "the file-system calls of histories are recorded from the first opening on; for every prefix of the calls, writes cut at several lengths, and power lost with un-synced data of all files, each file, or all but one file lost, the directory is rebuilt, reopened, compared with the states it may hold, extended, closed and reopened; states = distinct directory images",
            assumptions: &["directory changes reach the disk in order (data may be lost unless synced)", "heights near an epoch's end are reached by rewriting the configuration file"] },
    ]
}

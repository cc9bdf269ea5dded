//! C31 flushing while other threads work: what had returned before a flush began is on disk when it returns.
use crate::fsx;
use crate::ledger::{Clock, SharedTree};
use crate::model::*;
use crate::rt::*;
use crate::submit::ref_dump;
use crate::util::*;
use crate::{ensure, same};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum O {
    /// append to the main chain
    App,
    /// append a block with transactions through the tree
    TBlk,
    /// append to the derivative chain
    DApp,
    Coins,
    Gas,
    Rec,
    /// flush everything / the main chain / the derivative chain
    All,
    Main,
    Deriv,
}
use O::*;
impl O {
    fn is_flush(self) -> bool {
        matches!(self, All | Main | Deriv)
    }
    /// what a flush answers for
    fn covers(self, o: O) -> bool {
        match self {
            All => true,
            Main => matches!(o, App | TBlk | Rec),
            Deriv => o == DApp,
            _ => false,
        }
    }
}

struct Stage {
    dir: PathBuf,
    tree: Arc<SharedTree>,
    d: DerivativeChain,
    main: Idx,
    deriv: Idx,
    live: Arc<Mutex<fsx::Live>>,
    tag: u64,
    /// accounts credited and transactions recorded by earlier executions
    paid: Vec<(Addr, bool, u64)>,
    recs: Vec<Transaction>,
}
impl Stage {
    fn new(dir: PathBuf) -> Result<Stage, Fail> {
        fsx::start(&dir);
        let live = Arc::new(Mutex::new(fsx::Live::new()));
        let mut t = open_tree(&dir)?;
        let d = ok("get_derivative_chain", guard(|| t.get_derivative_chain(&addr(9))))?;
        flush(&t)?;
        Ok(Stage { dir, tree: Arc::new(SharedTree(t)), d, main: Idx { base: u(0), v: vec![Blk::of(genesis())?] }, deriv: Idx::default(), live, tag: 0, paid: vec![], recs: vec![] })
    }
}

/// one operation carried out: when, and what it left
#[derive(Clone)]
struct Did {
    o: O,
    start: usize,
    end: usize,
    /// refused (an append that came second)
    refused: bool,
    acct: Addr,
    amount: u64,
    tx: Option<Transaction>,
    block: Option<H>,
}

/// `later`: the disk is looked at after every file call since a flush returned, too
fn program(c: &mut Ctx, progs: &[Vec<O>], bound: usize, cap: u64, later: bool) -> R {
    let st = std::cell::RefCell::new(Some(Stage::new(c.dir("stage"))?));
    let scratch = c.scratch.join("image");
    let k = key(3);
    let mut images = 0u64;
    let power_only = !c.thorough();
    let mut n = 0;
    let r = vsched::explore(bound, cap, &mut |prefix| {
        n += 1;
        if n % 40 == 0 {
            // a fresh stage: images stay small
            st.borrow_mut().take();
            fsx::stop();
            *st.borrow_mut() = Some(Stage::new(c.dir(&format!("stage{n}"))).map_err(|e| e.msg)?);
        }
        let mut g = st.borrow_mut();
        let st = g.as_mut().unwrap();
        st.live.lock().unwrap().catch_up();
        if later {
            st.live.lock().unwrap().keep();
        }
        let clock = Clock::new();
        let did: Arc<Mutex<Vec<Did>>> = Arc::default();
        // flush, when it began and returned, what was on disk when it returned
        let flushed: Arc<Mutex<Vec<(O, usize, usize, usize, fsx::Image, fsx::Image)>>> = Arc::default();
        let bad: Arc<Mutex<Vec<String>>> = Arc::default();
        let (hm, hd) = (st.main.height(), st.deriv.height());
        let mut bodies: Vec<vsched::Body> = vec![];
        for ops in progs {
            let mut items = vec![];
            for o in ops {
                st.tag += 10;
                let x = tx(&k, &addr(st.tag), st.tag, u(5), Some(vec![3; (st.tag / 10 % 3) as usize * 400]));
                items.push((*o, st.tag, x));
            }
            let (tree, d, clock, did, flushed, bad, live) = (st.tree.clone(), st.d.clone(), clock.clone(), did.clone(), flushed.clone(), bad.clone(), st.live.clone());
            bodies.push(Box::new(move || {
                let t = &tree.0;
                let mc = t.get_main_chain();
                for (o, tag, x) in items {
                    let start = clock.tick();
                    let mut e = Did { o, start, end: usize::MAX, refused: false, acct: addr(tag), amount: tag, tx: None, block: None };
                    let r: Result<Result<(), String>, String> = match o {
                        App => {
                            let b = tblock(mc.get_height(), tag);
                            e.block = Some(b.hash().unwrap());
                            guard(|| mc.add_block(b).map_err(|e| short(&e)))
                        }
                        TBlk => {
                            let b = tblock(mc.get_height(), tag);
                            e.block = Some(b.hash().unwrap());
                            e.tx = Some(x.clone());
                            guard(|| t.add_new_block(b, &[x]).map_err(|e| short(&e)))
                        }
                        DApp => {
                            let b = dblock(d.get_height(), tag);
                            e.block = Some(Block::hash(&b).unwrap());
                            guard(|| d.add_block(&b).map_err(|e| short(&e)))
                        }
                        Coins => guard(|| t.add_amount(&addr(tag), u(tag)).map_err(|e| short(&e))),
                        Gas => guard(|| t.add_gas(&addr(tag), u(tag)).map_err(|e| short(&e))),
                        Rec => {
                            e.tx = Some(x.clone());
                            guard(|| mc.add_transaction(&x).map_err(|e| short(&e)))
                        }
                        All => guard(|| block_on_sched(t.flush()).map_err(|e| short(&e))),
                        Main => guard(|| block_on_sched(mc.flush()).map_err(|e| short(&e))),
                        Deriv => guard(|| block_on_sched(d.flush()).map_err(|e| short(&e))),
                    };
                    e.end = clock.tick();
                    match r {
                        Err(p) => bad.lock().unwrap().push(format!("{o:?}: {p}")),
                        Ok(Ok(())) => {}
                        Ok(Err(_)) if e.block.is_some() => e.refused = true,
                        Ok(Err(m)) => bad.lock().unwrap().push(format!("{o:?} returned an error: {m}")),
                    }
                    if o.is_flush() {
                        let mut l = live.lock().unwrap();
                        l.catch_up();
                        flushed.lock().unwrap().push((o, e.start, e.end, l.kept(), l.power(), if power_only { fsx::Image::default() } else { l.killed() }));
                    } else {
                        did.lock().unwrap().push(e);
                    }
                }
            }));
        }
        let x = vsched::run_once(bodies, prefix);
        let w = || format!("schedule {:?}", x.trace);
        if let Some(f) = &x.failed {
            return Err(format!("{f}; {}", w()));
        }
        if let Some(b) = bad.lock().unwrap().first() {
            return Err(format!("{b}; {}", w()));
        }
        // the state in memory at the end
        let did = did.lock().unwrap().clone();
        let t = &st.tree.0;
        let mc = t.get_main_chain();
        for (m, ch, from) in [(&mut st.main, Ch::M(mc.clone()), hm), (&mut st.deriv, Ch::D(st.d.clone()), hd)] {
            let h = ch.height().map_err(|e| e.msg)?;
            let mut at = from;
            while at < h {
                let raw = ch.at(&at).map_err(|e| format!("{}; {}", e.msg, w()))?.ok_or_else(|| format!("nothing at height {at}; {}", w()))?;
                let hash = sha(&[&raw]);
                if !did.iter().any(|e| e.block == Some(hash) && !e.refused) {
                    return Err(format!("height {at} holds a block that no accepted append offered; {}", w()));
                }
                let b: BlockArc = match &ch {
                    Ch::M(_) => block::deserialize_main_chain_block(&raw).unwrap(),
                    Ch::D(_) => Arc::new(DerivativeBlock::parse(&raw[1..]).unwrap()),
                };
                m.v.push(Blk::of(b).map_err(|e| e.msg)?);
                at += u(1);
            }
        }
        let grew = |m: &Idx, from: U256| (m.height() - from).low_u64() as usize;
        let accepted = |f: &dyn Fn(&Did) -> bool| did.iter().filter(|e| f(e) && !e.refused).count();
        if grew(&st.main, hm) != accepted(&|e| matches!(e.o, App | TBlk)) || grew(&st.deriv, hd) != accepted(&|e| e.o == DApp) {
            return Err(format!("the chains grew by {} and {} blocks, not by those accepted; {}", grew(&st.main, hm), grew(&st.deriv, hd), w()));
        }
        // what each flush left on disk
        let flushed = std::mem::take(&mut *flushed.lock().unwrap());
        for (f, _, end, _, power, killed) in &flushed {
            for (im, name) in [(power, "power failing"), (killed, "the process ending")] {
                if im.names.is_empty() {
                    continue;
                }
                images += 1;
                im.write_to(&scratch);
                let what = format!("after {name} at the return of {f:?}");
                // this flush and those that had returned before
                let by: Vec<(O, usize)> = flushed.iter().filter(|g| g.2 <= *end).map(|g| (g.0, g.1)).collect();
                let r = judge(&scratch, st, &did, &by, *end, hm, hd, &what);
                r.map_err(|e| format!("{}; {}", e.msg, w()))?;
            }
        }
        if later {
            let mut l = st.live.lock().unwrap();
            l.catch_up();
            let first = flushed.iter().map(|g| g.3).min().unwrap_or(usize::MAX);
            let all = l.images(first);
            drop(l);
            let mut seen = std::collections::BTreeSet::new();
            for (k, what, im) in all {
                if !seen.insert(im.print()) {
                    continue;
                }
                images += 1;
                im.write_to(&scratch);
                let by: Vec<(O, usize)> = flushed.iter().filter(|g| g.3 <= k).map(|g| (g.0, g.1)).collect();
                let what = format!("{what}, {} flushes having returned", by.len());
                judge(&scratch, st, &did, &by, usize::MAX, hm, hd, &what).map_err(|e| format!("{}; {}", e.msg, w()))?;
            }
        }
        for e in did {
            match e.o {
                Coins | Gas => st.paid.push((e.acct, e.o == Coins, e.amount)),
                _ if !e.refused => st.recs.extend(e.tx),
                _ => {}
            }
        }
        // everything is on disk before the next execution
        flush(&st.tree.0).map_err(|e| format!("{}; {}", e.msg, w()))?;
        Ok(x)
    });
    st.borrow_mut().take();
    fsx::stop();
    let s = r.map_err(Fail::from)?;
    c.count("schedules", s.executions);
    c.count("disk images reopened", images);
    c.max("decisions_per_schedule", s.max_depth as u64);
    if s.capped {
        c.count("capped", 1);
    }
    c.transitions += s.steps;
    c.traces += s.executions;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn judge(d: &std::path::Path, st: &Stage, did: &[Did], by: &[(O, usize)], end: usize, hm: U256, hd: U256, what: &str) -> R {
    let mut t = open_tree(d).map_err(|e| Fail::from(format!("{what}: {}", e.msg)))?;
    let dc = ok("get_derivative_chain", guard(|| t.get_derivative_chain(&addr(9))))?;
    let mc = t.get_main_chain();
    let must = |e: &Did| !e.refused && by.iter().any(|(f, start)| e.end < *start && f.covers(e.o));
    let may = |e: &Did| !e.refused && e.start < end;
    for (m, ch, from, main) in [(&st.main, Ch::M(mc.clone()), hm, true), (&st.deriv, Ch::D(dc.clone()), hd, false)] {
        let h = ch.height()?;
        let of = |e: &&Did| if main { matches!(e.o, App | TBlk) } else { e.o == DApp };
        let lo = from + did.iter().filter(|e| must(e)).filter(of).count();
        let hi = from + did.iter().filter(|e| may(e)).filter(of).count();
        ensure!(h >= lo, "{what}: the {} chain has height {h}, but {lo} was reached before the flush began", if main { "main" } else { "derivative" });
        ensure!(h <= hi, "{what}: the {} chain has height {h}, but only {hi} blocks were offered by then", if main { "main" } else { "derivative" });
        let keep = (h - m.base).low_u64() as usize;
        let m2 = Idx { base: m.base, v: m.v[..keep].to_vec() };
        let from = keep.saturating_sub(5);
        // a block whose append was under way may be on disk, but is not part of the chain
        m2.check_range(&ch, &[], what, from)?;
    }
    for e in did {
        let there = match e.o {
            Coins => ok("get_amount", guard(|| t.get_amount(&e.acct)))? == u(e.amount),
            Gas => ok("get_gas", guard(|| t.get_gas(&e.acct)))? == u(e.amount),
            Rec | TBlk => {
                let x = e.tx.as_ref().unwrap();
                let raw = ok("get_transaction_raw", guard(|| mc.get_transaction_raw(&sha(&[&ref_dump(x)]))))?;
                if let Some(r) = &raw {
                    ensure!(*r == ref_dump(x), "{what}: a transaction is recorded with another content");
                }
                raw.is_some()
            }
            _ => continue,
        };
        if must(e) {
            ensure!(there, "{what}: {:?}, which had returned before the flush began, is lost", e.o);
        }
        if e.start > end {
            ensure!(!there, "{what}: {:?}, which had not begun, is on disk", e.o);
        }
        if !there && matches!(e.o, Coins | Gas) {
            ensure!(ok("get_amount", guard(|| t.get_amount(&e.acct)))?.is_zero() && ok("get_gas", guard(|| t.get_gas(&e.acct)))?.is_zero(), "{what}: {:?} is on disk in part", e.o);
        }
    }
    // what earlier executions flushed
    for (a, coins, n) in st.paid.iter().rev().take(6) {
        let v = if *coins { ok("get_amount", guard(|| t.get_amount(a)))? } else { ok("get_gas", guard(|| t.get_gas(a)))? };
        ensure!(v == u(*n), "{what}: a balance flushed long before is lost");
    }
    for x in st.recs.iter().rev().take(6) {
        ensure!(ok("transaction_exists", guard(|| mc.transaction_exists(&sha(&[&ref_dump(x)]))))?, "{what}: a transaction flushed long before is lost");
    }
    same!(hex(&*dc.genesis_hash), hex(&st.main.v[0].hash), "{what}: anchor");
    Ok(())
}
fn c31(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let work = [App, TBlk, DApp, Coins, Gas, Rec];
    let mut ps: Vec<(Vec<Vec<O>>, usize)> = vec![];
    let b = c.pick(2, 3);
    for x in work {
        let own = match x {
            DApp => vec![All, Deriv],
            App | TBlk | Rec => vec![All, Main],
            _ => vec![All],
        };
        for f in own {
            // another thread works, or flushes as well
            for y in work {
                ps.push((vec![vec![x, f], vec![y]], b));
                ps.push((vec![vec![x, f], vec![y, All]], b - 1));
            }
            ps.push((vec![vec![x, f], vec![f]], b));
            ps.push((vec![vec![x, f], vec![All, x]], b - 1));
            ps.push((vec![vec![x, x, f], vec![x]], b));
        }
        // the other thread's work had returned before this flush
        for f in [All, Main, Deriv] {
            if f.covers(x) {
                ps.push((vec![vec![f], vec![x, x]], b));
                ps.push((vec![vec![f, f], vec![x]], b));
            }
        }
    }
    if c.thorough() {
        for x in work {
            for y in work {
                for z in work {
                    ps.push((vec![vec![x, All], vec![y, z]], 2));
                    ps.push((vec![vec![x, All], vec![y], vec![z]], 1));
                }
            }
        }
    }
    let cap = c.pick(3000, 60_000);
    for (p, b) in ps {
        c.case(|| format!("{p:?}, {b} preemptions"), |c| {
            c.state(&p);
            program(c, &p, b, cap, false)
        });
    }
    // what was flushed stays, whatever is under way when the process ends
    let mut ps: Vec<Vec<Vec<O>>> = vec![];
    for x in work {
        let own = match x {
            DApp => vec![All, Deriv],
            App | TBlk | Rec => vec![All, Main],
            _ => vec![All],
        };
        for f in own {
            ps.push(vec![vec![x, f, x, f]]);
            ps.push(vec![vec![x, f], vec![x, f]]);
            ps.push(vec![vec![x, f], vec![All]]);
            for y in work {
                if (x, f) == (y, All) {
                    continue;
                }
                ps.push(vec![vec![x, f, y, All]]);
            }
        }
    }
    let b = c.pick(0, 1);
    for p in ps {
        c.case(|| format!("{p:?}, {b} preemptions, the process ending at any later point"), |c| {
            c.state(&(&p, "later"));
            program(c, &p, b, cap, true)
        });
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        level: "model_checking",
        run: c31,
        exhaustive: true,
        shards: 8,
        rule: "stateless model checking crossed with a crash point: for every program every schedule of storage-operation entries and lock waits with at most B preemptions; at the return of each flush the content of the disk (each file as of its last sync; thorough: also as written) is kept, reopened and compared with what had returned before the flush began; states = programs, transitions = scheduler steps, traces = executions",
        assumptions: &["each public sled operation is atomic; sequentially consistent memory", "work of helper threads is not interleaved with the controlled threads beyond their completion", "names survive a power failure in the order in which they were made"],
    }]
}

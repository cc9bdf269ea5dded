//! C34 operations given up while they are in progress.
use crate::fsx;
use crate::model::*;
use crate::persist::{acct, near_end, owner, patch_closing, Run, St, P};
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use blockchaintree::summary_db::SummaryDB;
use std::future::Future;
use std::path::Path;
use std::pin::Pin;

/// a call that keeps others from going on is let through after this long
const LIMIT: u64 = 300;

/// every value from 0 on, until the point it names is not reached twice in a row (the helper
/// threads do not always make the same number of calls)
fn points(mut f: impl FnMut(usize) -> Result<bool, Fail>) -> Result<usize, Fail> {
    let (mut at, mut missed) = (0, 0);
    while missed < 2 {
        missed = if f(at)? { 0 } else { missed + 1 };
        at += 1;
    }
    Ok(at - 2)
}

fn go(r: &mut Run, op: P, what: &str) -> R {
    ensure!(r.step(op).map_err(|e| Fail::from(format!("{what}, then {op:?}: {}", e.msg)))?, "{what}: {op:?} was not possible");
    if op == P::Roll {
        patch_closing(r)?;
    }
    Ok(())
}
/// Starts `op` and gives it up at the cut.  None: the cut was not reached, the operation finished.
fn give_up(r: &mut Run, op: P, cut: Cut, what: &str) -> Result<Option<()>, Fail> {
    let Some(mut x) = r.plan(op)? else { return Err(format!("{op:?} was not possible").into()) };
    let t = r.t.as_mut().unwrap();
    cancel_next(Some(cut));
    let out = guard(|| (x.call)(t));
    if was_cancelled() {
        // only what was complete before may have happened
        let h = ok("get_height", guard(|| Ok::<_, ()>(t.get_main_chain().get_height())))?;
        if h != r.s.main.height() {
            same!(h, x.next.main.height(), "{what}: height");
            r.s = x.next;
            patch_closing(r)?;
        }
        return Ok(Some(()));
    }
    match out {
        Ok(Ok(())) => {
            r.s = x.next;
            if op == P::Roll {
                patch_closing(r)?;
            }
            Ok(None)
        }
        Ok(Err(e)) => Err(format!("{what}: {op:?} failed: {e}").into()),
        Err(e) => Err(format!("{what}: {op:?} {e}").into()),
    }
}
/// what is on disk now, as after the process was killed
fn killed(c: &mut Ctx, r: &Run, what: &str) -> R {
    let e = c.dir("killed");
    let _ = std::fs::remove_dir_all(&e);
    copy_dir(&r.d, &e);
    let mut q = Run::open(e, r.s.clone()).map_err(|f| Fail::from(format!("{what}: reopening what is on disk: {}", f.msg)))?;
    q.made = r.made.clone();
    q.blocks = r.blocks.clone();
    q.compare(&format!("{what}: what is on disk"))
}
/// what is on disk holds at least the blocks of `low`, and nothing that never was
fn not_less(c: &mut Ctx, r: &Run, low: &St, what: &str) -> R {
    let e = c.dir("killed");
    let _ = std::fs::remove_dir_all(&e);
    copy_dir(&r.d, &e);
    let mut t = open_tree(&e).map_err(|f| Fail::from(format!("{what}: reopening what is on disk: {}", f.msg)))?;
    let part = |m: &Idx, h: U256| -> Idx { Idx { base: m.base, v: m.v.iter().take((h - m.base).as_usize()).cloned().collect() } };
    let mc = t.get_main_chain();
    let h = mc.get_height();
    ensure!(h >= low.main.height() && h <= r.s.main.height(), "{what}: on disk the main chain has height {h}, between {} and {} was to be expected", low.main.height(), r.s.main.height());
    part(&r.s.main, h).check(&Ch::M(mc), &[], &format!("{what}: main chain on disk"))?;
    for (o, (anchor, m)) in &low.own {
        let ch = ok("get_derivative_chain", guard(|| t.get_derivative_chain(&owner(*o))))?;
        let h = ch.get_height();
        let now = &r.s.own[o].1;
        ensure!(h >= m.height() && h <= now.height(), "{what}: on disk the chain of owner {o} has height {h}, between {} and {} was to be expected", m.height(), now.height());
        same!(hex(&*ch.genesis_hash), hex(anchor), "{what}: anchor of owner {o} on disk");
        part(now, h).check(&Ch::D(ch), &[], &format!("{what}: chain of owner {o} on disk"))?;
    }
    Ok(())
}

/// a tree with unflushed changes of every kind; `earlier`: on top of flushed ones
fn prepared(d: &Path, earlier: bool, end: Option<(&Path, &St)>) -> Result<(Run, St), Fail> {
    let _ = std::fs::remove_dir_all(d);
    let mut r = match end {
        Some((tpl, s)) => {
            copy_dir(tpl, d);
            Run::open(d.into(), s.clone())?
        }
        None => Run::open(d.into(), St::fresh()?)?,
    };
    r.tag = 900;
    for op in [P::Coins, P::Gas] {
        go(&mut r, op, "setup")?;
    }
    if earlier {
        let more: &[P] = if end.is_some() { &[P::DEmit(0), P::Spend, P::Flush] } else { &[P::Block, P::DEmit(0), P::Spend, P::Flush] };
        for op in more {
            go(&mut r, *op, "setup")?;
        }
    }
    let low = if earlier || end.is_some() { r.s.clone() } else { St::fresh()? };
    let more: &[P] = if end.is_some() { &[P::DEmit(0), P::Submit, P::Spend, P::Batch] } else { &[P::Emit, P::Block, P::DEmit(0), P::DEmit(1), P::Submit, P::Spend] };
    for op in more {
        go(&mut r, *op, "setup")?;
    }
    Ok((r, low))
}

struct Kind {
    first: P,
    earlier: bool,
    end: bool,
}

/// the blocks of the same history without the operation that was given up
fn without(c: &mut Ctx, k: &Kind, then: &[P], tpl: Option<(&Path, &St)>) -> Result<Vec<H>, Fail> {
    let d = c.dir("without");
    let (mut r, _) = prepared(&d, k.earlier, tpl)?;
    r.plan(k.first)?;
    for op in then {
        go(&mut r, *op, "without anything given up")?;
    }
    Ok(r.s.main.v.iter().map(|b| b.hash).collect())
}

#[allow(clippy::too_many_arguments)]
fn one(c: &mut Ctx, k: &Kind, cut: Cut, at: usize, then: &[P], hold: bool, tpl: Option<(&Path, &St)>, alone: &[H]) -> Result<bool, Fail> {
    let d = c.dir("x");
    let (mut r, low) = prepared(&d, k.earlier, tpl)?;
    let before = r.s.main.height();
    fsx::gate_arm(&d, if cut == Cut::Held { at } else { usize::MAX >> 1 });
    fsx::gate_limit(3000);
    let name = |cut: Cut| match cut {
        Cut::Held => format!("before {} by a helper thread", fsx::gate_reached().unwrap_or("(not reached)".into())),
        Cut::Poll(n) => format!("at its wait number {n}"),
    };
    let w = format!("{:?} given up at {cut:?} {at}", k.first);
    let gone = give_up(&mut r, k.first, cut, &w)?;
    let reached = fsx::gate_reached().is_some();
    let what = format!("{:?} given up {}, that call {}", k.first, name(cut), if hold { "held up" } else { "going on" });
    if gone.is_none() {
        fsx::gate_settle();
        killed(c, &r, &format!("{:?} finished", k.first)).or_else(|e| if matches!(k.first, P::Flush) { Err(e) } else { Ok(()) })?;
        return Ok(cut == Cut::Held && reached);
    }
    c.count(if cut == Cut::Held { "given_up_before_a_call" } else { "given_up_at_a_wait" }, 1);
    let undone = r.s.main.height() == before;
    if hold {
        fsx::gate_limit(LIMIT);
    } else {
        fsx::gate_release();
    }
    for op in then {
        go(&mut r, *op, &what)?;
        if hold {
            fsx::gate_limit(LIMIT);
        }
        c.transitions += 1;
    }
    let what = format!("{what}, then {then:?}");
    r.compare(&what)?;
    let now: Vec<String> = r.s.main.v.iter().map(|b| hex(&b.hash)).collect();
    if undone {
        // including the roots of closing blocks
        same!(now, alone.iter().map(|h| hex(h)).collect::<Vec<_>>(), "{what}: blocks, against the same history without the operation given up");
    }
    if fsx::gate_held() {
        c.count("later_operations_finished_before_the_held_call", 1);
    }
    fsx::gate_settle();
    r.compare(&what)?;
    if matches!(then.last(), Some(P::Flush | P::Reopen)) {
        killed(c, &r, &what)?;
    } else {
        not_less(c, &r, &low, &what)?;
    }
    // the tree is as good as ever
    go(&mut r, P::Spend, &what)?;
    go(&mut r, P::DAdd(0), &what)?;
    go(&mut r, P::Flush, &what)?;
    killed(c, &r, &format!("{what}, and a flush"))?;
    go(&mut r, P::Reopen, &what)?;
    r.compare(&format!("{what}, and reopening"))?;
    c.state(&(k.first, k.earlier, k.end, cut, at, then.to_vec(), hold));
    c.traces += 1;
    Ok(true)
}

fn c34(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let lib: [&[P]; 6] = [&[], &[P::Flush], &[P::Block, P::DAdd(0), P::Spend, P::Flush], &[P::Block, P::DEmit(1), P::Reopen], &[P::Emit, P::MFlush, P::DFlush(0), P::DFlush(1)], &[P::Submit, P::Emit, P::Flush, P::Block, P::Reopen]];
    let ends: [&[P]; 5] = [&[], &[P::Roll, P::Flush], &[P::Spend, P::DAdd(0), P::Flush, P::Roll, P::Emit, P::Flush], &[P::Reopen, P::Roll, P::Reopen], &[P::Roll, P::Block, P::MFlush]];
    let mut kinds = vec![];
    for earlier in [false, true] {
        for first in [P::Flush, P::MFlush, P::DFlush(0), P::DFlush(1)] {
            kinds.push(Kind { first, earlier, end: false });
        }
        for first in [P::Roll, P::Flush] {
            kinds.push(Kind { first, earlier, end: true });
        }
    }
    for k in &kinds {
        for then in if k.end { &ends[..] } else { &lib[..] } {
            for hold in [false, true] {
                c.case(|| format!("{:?}{}{} given up at every point, the call in progress {}, then {then:?}", k.first, if k.earlier { " after a flush" } else { "" }, if k.end { " at the end of an epoch" } else { "" }, if hold { "held up" } else { "going on" }), |c| {
                    let near = if k.end { Some(near_end(c, "tpl", 0)?) } else { None };
                    let tpl = near.as_ref().map(|(p, s)| (p.as_path(), s));
                    let alone = without(c, k, then, tpl)?;
                    let n = points(|at| one(c, k, Cut::Held, at, then, hold, tpl, &alone))?;
                    c.max("calls_of_helper_threads", n as u64);
                    if !hold {
                        let n = points(|n| one(c, k, Cut::Poll(n), 0, then, hold, tpl, &alone))?;
                        c.max("waits", n as u64);
                    }
                    Ok(())
                });
            }
        }
    }
    others(c);
}

// ---------------------------------------------------------------- two operations in progress

type Fut<'a> = Pin<Box<dyn Future<Output = Result<(), String>> + 'a>>;

fn start<'a>(t: &'a BlockChainTree, chains: &'a [DerivativeChain], main: &'a MainChain, op: P) -> Fut<'a> {
    match op {
        P::Flush => Box::pin(async { t.flush().await.map_err(|e| short(&e)) }),
        P::MFlush => Box::pin(async { main.flush().await.map_err(|e| short(&e)) }),
        P::DFlush(o) => Box::pin(async move { chains[o].flush().await.map_err(|e| short(&e)) }),
        _ => unreachable!(),
    }
}
struct Task<'a> {
    f: Option<Fut<'a>>,
    w: std::sync::Arc<Waker>,
    done: Option<Result<(), String>>,
}
impl<'a> Task<'a> {
    fn new(f: Fut<'a>) -> Task<'a> {
        Task { f: Some(f), w: Waker::new(), done: None }
    }
    fn poll(&mut self) {
        let waker = std::task::Waker::from(self.w.clone());
        if let Some(f) = &mut self.f {
            if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut std::task::Context::from_waker(&waker)) {
                self.done = Some(r);
                self.f = None;
            }
        }
    }
    /// until it ends or a call of a helper thread is held (true)
    fn run(&mut self, gate: bool) -> bool {
        loop {
            self.poll();
            if self.f.is_none() {
                return false;
            }
            if self.w.wait(gate) {
                return true;
            }
        }
    }
    fn must(&mut self, what: &str) -> R {
        if self.f.is_some() {
            self.run(false);
        }
        match self.done.take().unwrap() {
            Ok(()) => Ok(()),
            Err(e) => Err(format!("{what}: failed: {e}").into()),
        }
    }
}
const FATES: [&str; 5] = ["the second given up, the first finished", "the first given up, the second finished", "both given up", "both finished", "the second given up and a third finished"];

fn two(c: &mut Ctx, a: P, b: P, at: usize, fate: usize) -> Result<bool, Fail> {
    let d = c.dir("x");
    let (mut r, low) = prepared(&d, true, None)?;
    let what = format!("{a:?} waiting for call {at} of a helper thread, {b:?} begun, {}", FATES[fate]);
    let mut chains = vec![];
    for o in 0..2 {
        chains.push(ok("get_derivative_chain", guard(|| r.t().get_derivative_chain(&owner(o))))?);
    }
    let main = r.t().get_main_chain();
    fsx::gate_arm(&d, at);
    fsx::gate_limit(3000);
    let go_on = {
        let t = r.t.as_ref().unwrap();
        in_rt(|| -> Result<bool, Fail> {
            let mut x = Task::new(start(t, &chains, &main, a));
            if !x.run(true) {
                return match x.done.take().unwrap() {
                    Ok(()) => Ok(false),
                    Err(e) => Err(format!("{what}: failed: {e}").into()),
                };
            }
            fsx::gate_limit(LIMIT);
            let mut y = Task::new(start(t, &chains, &main, b));
            y.poll();
            match fate {
                0 => {
                    y.f = None;
                    fsx::gate_release();
                    x.must(&what)?;
                }
                1 => {
                    x.f = None;
                    y.must(&what)?;
                }
                2 => {
                    y.f = None;
                    x.f = None;
                }
                3 => {
                    fsx::gate_release();
                    while x.f.is_some() || y.f.is_some() {
                        y.poll();
                        x.poll();
                        std::thread::sleep(std::time::Duration::from_micros(50));
                    }
                    y.must(&what)?;
                    x.must(&what)?;
                }
                _ => {
                    let mut z = Task::new(start(t, &chains, &main, b));
                    z.poll();
                    y.f = None;
                    x.f = None;
                    z.must(&what)?;
                }
            }
            Ok(true)
        })?
    };
    drop((main, chains));
    if !go_on {
        let reached = fsx::gate_reached().is_some();
        fsx::gate_settle();
        return Ok(reached);
    }
    c.count("two_in_progress", 1);
    r.compare(&what)?;
    for op in [P::Block, P::DAdd(1)] {
        go(&mut r, op, &what)?;
    }
    fsx::gate_limit(LIMIT);
    go(&mut r, P::Flush, &what)?;
    fsx::gate_settle();
    killed(c, &r, &format!("{what}, and a flush"))?;
    let _ = low;
    go(&mut r, P::Reopen, &what)?;
    r.compare(&what)?;
    c.state(&(a, b, at, fate));
    c.traces += 1;
    c.transitions += 4;
    Ok(true)
}

// ---------------------------------------------------------------- stand-alone funds

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum F {
    Add(usize, u64),
    Take(usize, u64),
    Flush,
}
const FOPS: [F; 6] = [F::Add(0, 5), F::Add(1, 300), F::Take(0, 7), F::Add(2, 1 << 40), F::Take(0, 1000), F::Flush];

fn apply(f: F, m: &mut [u64; 3]) {
    match f {
        F::Add(i, x) => m[i] += x,
        F::Take(i, x) => m[i] -= x,
        F::Flush => (),
    }
}
async fn call(s: &SummaryDB, f: F) -> Result<(), String> {
    match f {
        F::Add(i, x) => s.add_funds(&acct(i), &u(x)).await.map_err(|e| short(&e)),
        F::Take(i, x) => s.decrease_funds(&acct(i), &u(x)).await.map_err(|e| short(&e)),
        F::Flush => s.flush().await.map_err(|e| short(&e)),
    }
}
fn funds_of(s: &SummaryDB, what: &str) -> Result<[String; 3], Fail> {
    let mut v: [String; 3] = Default::default();
    for (i, x) in v.iter_mut().enumerate() {
        *x = ok(what, guard(|| s.get_funds(&acct(i))))?.to_string();
    }
    Ok(v)
}
fn texts(m: &[u64; 3]) -> [String; 3] {
    m.map(|x| x.to_string())
}
fn funds(c: &mut Ctx, first: F, then: &[F], cut: Cut, at: usize, hold: bool) -> Result<bool, Fail> {
    let d = c.dir("f");
    let _ = std::fs::remove_dir_all(&d);
    let db = ok("opening a store", reopen(|| sled::open(&d)))?;
    let s = SummaryDB::new(db.clone());
    let mut m = [0u64; 3];
    for f in [F::Add(0, 5000), F::Add(1, 77)] {
        apply(f, &mut m);
        ok("setup", guard(|| block_on(call(&s, f))))?;
    }
    // something that no flush has covered
    db.insert(b"other", b"x").map_err(|e| Fail::from(e.to_string()))?;
    fsx::gate_arm(&d, if cut == Cut::Held { at } else { usize::MAX >> 1 });
    fsx::gate_limit(3000);
    let what = format!("{first:?} given up at {cut:?} {at}");
    let out = ok_panic(guard(|| drive(call(&s, first), cut)), &what)?;
    let mut after = m;
    apply(first, &mut after);
    let reached = fsx::gate_reached().is_some();
    match out {
        Some(Ok(())) => {
            same!(funds_of(&s, &what)?, texts(&after), "{first:?} finished");
            fsx::gate_settle();
            return Ok(cut == Cut::Held && reached);
        }
        Some(Err(e)) => return Err(format!("{first:?} failed: {e}").into()),
        None => (),
    }
    if hold {
        fsx::gate_limit(LIMIT);
    } else {
        fsx::gate_release();
    }
    c.count(if cut == Cut::Held { "funds_given_up_before_a_call" } else { "funds_given_up_at_a_wait" }, 1);
    let now = funds_of(&s, &what)?;
    if now == texts(&after) {
        m = after;
    }
    same!(now, texts(&m), "{what}: funds (neither those before nor those after)");
    for f in then {
        apply(*f, &mut m);
        ok(&format!("{what}, then {f:?}"), guard(|| block_on(call(&s, *f))))?;
        same!(funds_of(&s, &what)?, texts(&m), "{what}, then {f:?}");
        c.transitions += 1;
    }
    fsx::gate_settle();
    same!(funds_of(&s, &what)?, texts(&m), "{what}, then {then:?}");
    let e = c.dir("killed");
    let _ = std::fs::remove_dir_all(&e);
    copy_dir(&d, &e);
    let q = SummaryDB::new(ok("opening a store", reopen(|| sled::open(&e)))?);
    same!(funds_of(&q, &what)?, texts(&m), "{what}, then {then:?}: on disk");
    c.state(&(first, then.to_vec(), cut, at, hold));
    c.traces += 1;
    Ok(true)
}
fn ok_panic<T>(r: Result<T, String>, what: &str) -> Result<T, Fail> {
    r.map_err(|p| Fail::from(format!("{what} {p}")))
}

fn others(c: &mut Ctx) {
    let flushes = [P::Flush, P::MFlush, P::DFlush(0)];
    for a in flushes {
        for b in flushes {
            for (fate, name) in FATES.iter().enumerate() {
                c.case(|| format!("{a:?} and {b:?} in progress at every point of the first: {name}"), |c| {
                    points(|at| two(c, a, b, at, fate))?;
                    Ok(())
                });
            }
        }
    }
    for first in FOPS {
        c.case(|| format!("stand-alone funds: {first:?} given up at every point, then others"), |c| {
            for (i, x) in FOPS.into_iter().enumerate() {
                for (j, y) in FOPS.into_iter().enumerate() {
                    if !c.thorough() && (i + j) % 3 != 0 {
                        continue;
                    }
                    for hold in [false, true] {
                        points(|at| funds(c, first, &[x, y], Cut::Held, at, hold))?;
                        if !hold {
                            points(|n| funds(c, first, &[x, y], Cut::Poll(n), 0, hold))?;
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C34",
        level: "model_checking",
        run: c34,
        rule: "stateless exploration of the real code: every flush and every emission that closes an epoch, and every change of the stand-alone funds, dropped at every wait and before every file-system call a helper thread makes for it, with that call let through at once or held up during what follows; then each of the listed continuations; two operations in progress at once with every listed fate of each; blocks, accounts, records and the folder as a killed process would leave it compared with the model and with the same history without the dropped operation; states = (operation, point, continuation), transitions = operations of the continuation",
        exhaustive: true,
        assumptions: &["the helper threads are those of the storage library and of the tokio runtime; a call held up that keeps a later operation waiting goes on after 300 ms"],
        shards: 8,
    }]
}

//! C33 a tree depends on its own history only.
use crate::chainx::{emit_main, tuples, Attempt};
use crate::model::*;
use crate::persist::{acct, near_end, patch_closing, Run, St, P};
use crate::fsx;
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

const OPS: [P; 8] = [P::Emit, P::Block, P::Batch, P::Spend, P::Submit, P::DEmit(0), P::Flush, P::Reopen];

fn go(r: &mut Run, op: P, what: &str) -> R {
    r.step(op).map_err(|e| Fail::from(format!("{what}: {op:?}: {}", e.msg)))?;
    if op == P::Roll {
        patch_closing(r)?;
    }
    Ok(())
}
fn stock(r: &mut Run) -> R {
    for op in [P::Coins, P::Gas] {
        r.step(op)?;
    }
    Ok(())
}
/// two trees, their operations merged: bit i of `merge` says whose turn it is
fn merged(c: &mut Ctx, da: &Path, db: &Path, a: &[P], b: &[P], order: &[bool], same_content: bool, what: &str) -> R {
    for d in [da, db] {
        let _ = std::fs::remove_dir_all(d);
    }
    let mut ra = Run::open(da.into(), St::fresh()?)?;
    let mut rb = Run::open(db.into(), St::fresh()?)?;
    if !same_content {
        rb.tag = 7000;
    }
    stock(&mut ra)?;
    stock(&mut rb)?;
    let (mut i, mut j) = (0, 0);
    for turn in order {
        if *turn {
            go(&mut ra, a[i], what)?;
            i += 1;
        } else {
            go(&mut rb, b[j], what)?;
            j += 1;
        }
        c.transitions += 1;
    }
    // neither holds anything of the other
    let (ma, mb) = (ra.made.clone(), rb.made.clone());
    let (ha, hb) = (ra.blocks.clone(), rb.blocks.clone());
    ra.made.extend(mb);
    rb.made.extend(ma);
    ra.blocks.extend(hb);
    rb.blocks.extend(ha);
    ra.compare(&format!("{what}: first tree"))?;
    rb.compare(&format!("{what}: second tree"))?;
    // one closed, the other still in use
    flush(ra.t.as_ref().unwrap())?;
    ra.t = None;
    go(&mut rb, P::Block, what)?;
    rb.compare(&format!("{what}: second tree, the first closed"))?;
    ra.reopen()?;
    ra.compare(&format!("{what}: first tree, reopened"))?;
    go(&mut rb, P::Reopen, what)?;
    rb.compare(&format!("{what}: second tree, reopened"))?;
    Ok(())
}
fn merges(n: usize, m: usize) -> Vec<Vec<bool>> {
    if n == 0 {
        return vec![vec![false; m]];
    }
    if m == 0 {
        return vec![vec![true; n]];
    }
    let mut v = vec![];
    for (x, rest) in [(true, merges(n - 1, m)), (false, merges(n, m - 1))] {
        for mut r in rest {
            r.insert(0, x);
            v.push(r);
        }
    }
    v
}

fn c33(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    // all merges of short histories
    for first in OPS {
        for x in OPS {
            c.case(|| format!("one tree: {first:?} and another operation, the other tree: {x:?} and another one, every merge"), |c| {
                let (da, db) = (c.dir("one"), c.dir("two"));
                for y in OPS {
                    for z in OPS {
                        for (k, order) in merges(2, 2).iter().enumerate() {
                            if !c.thorough() && ![0, 1, 2].contains(&k) {
                                continue; // by symmetry of the two trees
                            }
                            let w = format!("{first:?} {y:?} | {x:?} {z:?} merged {order:?}");
                            merged(c, &da, &db, &[first, y], &[x, z], order, (k + 1) % 2 == 0, &w)?;
                            c.state(&(first, y, x, z, k));
                            c.traces += 1;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    names(c);
    remade(c);
    roots(c);
    threads(c);
    beside(c);
}

/// folder names, and folders beside and inside one another
fn names(c: &mut Ctx) {
    let long = "n".repeat(200);
    let plain: Vec<String> = ["a", "a b", "\u{e4}\u{4e2d}", "x.y", ".hidden", "MAIN", "DERIVATIVES", "SUMMARY", "SUMMARYOLD", "Chain.config", "BLOCKS.new", "a/b/c/d/e", "a//b", "a/./b", "a/../b", "a/", "-", "~", "%20", "0", long.as_str(), "a'b\"c", "a\\b", "\u{1f600}"].iter().map(|s| s.to_string()).collect();
    let hist = [P::Emit, P::DEmit(0), P::Submit, P::Batch, P::DAdd(1), P::Spend, P::Reopen, P::Block, P::DEmit(0), P::Reopen];
    for n in &plain {
        c.case(|| format!("a tree in folder {n:?}"), |c| {
            let top = c.dir("top");
            std::fs::create_dir_all(top.join("a")).unwrap();
            let d = PathBuf::from(format!("{}/{n}", top.display()));
            let mut r = Run::open(d.clone(), St::fresh()?)?;
            stock(&mut r)?;
            for op in hist {
                go(&mut r, op, &format!("folder {n:?}"))?;
                c.transitions += 1;
            }
            r.compare(&format!("folder {n:?}"))?;
            r.t = None;
            // everything lies inside the folder: moved elsewhere it is the same tree
            let e = c.dir("elsewhere");
            copy_dir(&d, &e);
            let _ = std::fs::remove_dir_all(&top);
            r.d = e;
            r.reopen()?;
            r.compare(&format!("folder {n:?} moved"))?;
            // the end of an epoch there
            std::fs::create_dir_all(top.join("a")).unwrap();
            let (tpl, s) = near_end(c, "tpl", 0)?;
            copy_dir(&tpl, &d);
            let mut r = Run::open(d.clone(), s)?;
            r.tag = 900;
            for op in [P::Spend, P::Roll, P::Emit, P::Reopen] {
                go(&mut r, op, &format!("end of an epoch in folder {n:?}"))?;
            }
            r.compare(&format!("end of an epoch in folder {n:?}"))?;
            c.state(&("name", n));
            c.traces += 2;
            Ok(())
        });
    }
    let pairs = [("x", "x1"), ("x", "x/y"), ("x/y", "x"), ("x", "X"), ("a/x", "b/x"), ("x", "x.new"), ("x", "x "), ("x/MAIN/sub", "x"), ("x", "x/DERIVATIVES/zz"), ("SUMMARY", "SUMMARYOLD")];
    let hists: [&[P]; 4] = [&[P::Emit, P::Submit, P::DEmit(0)], &[P::Block, P::Reopen, P::DEmit(0)], &[P::Batch, P::Flush, P::Spend], &[P::DAdd(1), P::Emit, P::Reopen]];
    for (x, y) in pairs {
        c.case(|| format!("trees in folders {x:?} and {y:?}"), |c| {
            let top = c.dir("top");
            for (i, a) in hists.iter().enumerate() {
                for (j, b) in hists.iter().enumerate() {
                    for same in [false, true] {
                        let _ = std::fs::remove_dir_all(&top);
                        // the outer folder first: `merged` empties both
                        let order = [true, false, true, false, false, true];
                        let (da, db) = (top.join(x), top.join(y));
                        merged(c, &da, &db, a, b, &order, same, &format!("folders {x:?} and {y:?}, histories {i} and {j}"))?;
                        c.state(&("pair", x, y, i, j, same));
                        c.traces += 1;
                    }
                }
            }
            Ok(())
        });
    }
}

/// folders removed and made again, exchanged, copied, opened twice
fn remade(c: &mut Ctx) {
    let hists: Vec<Vec<P>> = tuples(OPS.len(), 2).into_iter().map(|t| t.iter().map(|i| OPS[*i]).collect()).collect();
    for (i, a) in hists.iter().enumerate() {
        c.case(|| format!("a folder with history {a:?} removed and made again, exchanged and copied"), |c| {
            let d = c.dir("same");
            for (j, b) in hists.iter().enumerate() {
                if !c.thorough() && (i + j) % 8 != 0 {
                    continue;
                }
                let w = format!("[{a:?}] then anew [{b:?}]");
                let _ = std::fs::remove_dir_all(&d);
                let mut r = Run::open(d.clone(), St::fresh()?)?;
                stock(&mut r)?;
                for op in a {
                    go(&mut r, *op, &w)?;
                }
                flush(r.t.as_ref().unwrap())?;
                r.t = None;
                let kept = c.dir("kept");
                copy_dir(&d, &kept);
                let _ = std::fs::remove_dir_all(&d);
                // anew under the same name
                let mut q = Run::open(d.clone(), St::fresh()?)?;
                q.tag = 7000;
                q.made = r.made.clone();
                q.blocks = r.blocks.clone();
                q.compare(&format!("{w}: new"))?;
                stock(&mut q)?;
                for op in b {
                    go(&mut q, *op, &w)?;
                }
                q.compare(&w)?;
                flush(q.t.as_ref().unwrap())?;
                q.t = None;
                // exchanged
                std::fs::rename(&d, d.with_extension("tmp")).unwrap();
                std::fs::rename(&kept, &d).unwrap();
                std::fs::rename(d.with_extension("tmp"), &kept).unwrap();
                q.d = kept.clone();
                r.reopen()?;
                q.reopen()?;
                r.compare(&format!("{w}: exchanged, the old one"))?;
                q.compare(&format!("{w}: exchanged, the new one"))?;
                go(&mut r, P::Block, &w)?;
                go(&mut q, P::DEmit(0), &w)?;
                r.compare(&format!("{w}: exchanged, the old one goes on"))?;
                q.compare(&format!("{w}: exchanged, the new one goes on"))?;
                c.transitions += 4;
                c.state(&("remade", i, j));
                c.traces += 2;
            }
            Ok(())
        });
    }
    c.case(|| "a folder opened while it is open".into(), |c| {
        let d = c.dir("open");
        let mut r = Run::open(d.clone(), St::fresh()?)?;
        stock(&mut r)?;
        for (k, op) in [P::Block, P::DEmit(0), P::Submit, P::Flush].into_iter().enumerate() {
            go(&mut r, op, "open folder")?;
            // refused: two trees on one folder would not know of each other
            ensure!(matches!(guard(|| BlockChainTree::new(d.to_str().unwrap()).map(|_| ())), Ok(Err(_))), "a folder was opened although it is open");
            r.compare("after a second opening was refused")?;
            c.state(&("twice", k));
            c.transitions += 1;
        }
        go(&mut r, P::Reopen, "open folder")?;
        r.compare("reopened after refused openings")
    });
}

/// the closing root is the same however the same balances were reached
fn roots(c: &mut Ctx) {
    // credits and transfers that all succeed in any order
    const N: usize = 4;
    let perms: Vec<Vec<usize>> = tuples(N, N).into_iter().filter(|t| (0..N).all(|i| t.contains(&i))).collect();
    for between in 0..3usize {
        c.case(|| format!("closing an epoch after every order of {N} ledger operations, in between: {}", ["nothing", "flush", "reopening"][between]), |c| {
            let tpl = c.dir("tpl");
            let tip = tree_with_tip(&tpl, EPOCH, 1, 1_700_000_000)?;
            let mut seen: Option<H> = None;
            for p in &perms {
                let d = c.dir("x");
                copy_dir(&tpl, &d);
                let mut t = open_tree(&d)?;
                for i in p {
                    match i {
                        0 => ok("add_amount", guard(|| t.add_amount(&addr(1), u(700))))?,
                        1 => ok("add_gas", guard(|| t.add_gas(&addr(2), pow2(90))))?,
                        2 => ok("send_amount", guard(|| t.send_amount(&ROOT, &addr(3), u(5))))?,
                        _ => ok("add_amount", guard(|| t.add_amount(&addr(2), u(9))))?,
                    }
                    match between {
                        0 => {}
                        1 => flush(&t)?,
                        _ => {
                            flush(&t)?;
                            drop(t);
                            t = open_tree(&d)?;
                        }
                    }
                    c.transitions += 1;
                }
                let mut m = Idx { base: tip.h(), v: vec![tip.clone()] };
                let n = mine(&tip.hash, &tip.d(), &[], true).ok_or("no nonce")?;
                emit_main(&mut t, &mut m, &Attempt { txs: &[], nonce: n, founder: addr(5), ts: tip.ts() + 600 }, &|| "closing".into())?;
                let h = m.v.last().unwrap().hash;
                if let Some(o) = seen {
                    same!(hex(&h), hex(&o), "closing block after the order {p:?}");
                }
                seen = Some(h);
                c.state(&("root", between, p));
                c.traces += 1;
            }
            Ok(())
        });
    }
}

/// two trees used by two threads at once
fn threads(c: &mut Ctx) {
    let ops = [P::Emit, P::Block, P::Batch, P::Spend, P::Submit, P::DEmit(0), P::Flush];
    for a in ops {
        for b in ops {
            c.case(|| format!("two trees, two threads: {a:?} and {b:?}, each twice, every schedule"), |c| {
                let bound = c.pick(1, 2);
                let (da, db) = (c.dir("one"), c.dir("two"));
                let mut runs = vec![];
                for d in [&da, &db] {
                    let mut r = Run::open(d.clone(), St::fresh()?)?;
                    stock(&mut r)?;
                    r.step(P::Coins)?;
                    runs.push(Some(r));
                }
                runs[1].as_mut().unwrap().tag = 7000;
                let runs = Arc::new(Mutex::new(runs));
                let mut traces = 0;
                let s = vsched::explore(bound, 20_000, &mut |prefix| {
                    let errs: Arc<Mutex<Vec<String>>> = Arc::default();
                    let mut bodies: Vec<vsched::Body> = vec![];
                    for (i, op) in [a, b].into_iter().enumerate() {
                        let mut r = runs.lock().unwrap()[i].take().ok_or("a tree is lost")?;
                        // the plans are made outside the schedule
                        let (runs, errs) = (runs.clone(), errs.clone());
                        let first = r.plan(op).map_err(|e| e.msg)?.ok_or("not possible")?;
                        let old = std::mem::replace(&mut r.s, first.next.clone());
                        let second = r.plan(op).map_err(|e| e.msg)?.ok_or("not possible")?;
                        r.s = old;
                        bodies.push(Box::new(move || {
                            for mut x in [first, second] {
                                let t = r.t.as_mut().unwrap();
                                match guard(|| (x.call)(t)) {
                                    Ok(Ok(())) => r.s = x.next,
                                    Ok(Err(e)) => errs.lock().unwrap().push(format!("thread {i} {op:?} failed: {e}")),
                                    Err(p) => errs.lock().unwrap().push(format!("thread {i} {op:?} {p}")),
                                }
                            }
                            runs.lock().unwrap()[i] = Some(r);
                        }));
                    }
                    let x = vsched::run_once(bodies, prefix);
                    if let Some(f) = &x.failed {
                        return Err(format!("{f}; schedule {:?}", x.trace));
                    }
                    if let Some(e) = errs.lock().unwrap().first() {
                        return Err(format!("{e}; schedule {:?}", x.trace));
                    }
                    traces += 1;
                    if traces % 16 == 0 {
                        for r in runs.lock().unwrap().iter_mut().flatten() {
                            tail(r).map_err(|e| format!("{}; schedule {:?}", e.msg, x.trace))?;
                        }
                    }
                    Ok(x)
                })
                .map_err(Fail::from)?;
                for (i, r) in runs.lock().unwrap().iter_mut().enumerate() {
                    let r = r.as_mut().ok_or("a tree is lost")?;
                    r.compare(&format!("tree {i} in the end"))?;
                    r.step(P::Reopen)?;
                    r.compare(&format!("tree {i} reopened"))?;
                }
                c.count("schedules", s.executions);
                c.count("scheduling_decisions", s.choice_points);
                if s.capped {
                    c.count("capped", 1);
                }
                c.transitions += s.steps;
                c.traces += traces;
                c.state(&("threads", a, b));
                Ok(())
            });
        }
    }
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Side {
    First,
    Open,
    Roll,
    Deriv,
    Flush,
}
impl Side {
    fn prepare(self, d: &Path, tpl: &(PathBuf, St), tag: u64) -> Result<Option<Run>, Fail> {
        if self == Side::First {
            return Ok(None);
        }
        copy_dir(&tpl.0, d);
        let mut r = Run::open(d.into(), tpl.1.clone())?;
        r.tag = tag;
        if tag > 0 {
            r.step(P::Spend)?;
            r.step(P::Gas)?;
        }
        if self == Side::Open {
            flush(r.t.as_ref().unwrap())?;
            r.t = None;
        }
        Ok(Some(r))
    }
    fn go(self, d: &Path, r: Option<Run>) -> Result<Run, Fail> {
        let mut r = match r {
            None => return Run::open(d.into(), St::fresh()?),
            Some(r) => r,
        };
        match self {
            Side::First => {}
            Side::Open => {
                r.reopen()?;
            }
            Side::Roll => go(&mut r, P::Roll, "")?,
            Side::Deriv => go(&mut r, P::DGet(7), "")?,
            Side::Flush => go(&mut r, P::Flush, "")?,
        }
        Ok(r)
    }
    /// the tree itself, then what it left behind
    fn check(self, mut r: Run, d: &Path, alone: Option<&Vec<(Vec<u8>, (U256, U256))>>, what: &str) -> Result<Vec<(Vec<u8>, (U256, U256))>, Fail> {
        r.compare(what)?;
        flush(r.t.as_ref().unwrap())?;
        r.t = None;
        let snap: Vec<_> = crate::epoch::snap(d)?.into_iter().collect();
        if let Some(a) = alone {
            same!(&snap, a, "{what}: the previous epoch's balances");
        }
        Ok(snap)
    }
}
/// neighbours: while one tree's operation stands before any one of its file calls, the other tree
/// carries out an operation from beginning to end
fn beside(c: &mut Ctx) {
    use Side::*;
    let parts = 4;
    for a in [First, Open, Roll, Deriv, Flush] {
        for b in [First, Roll, Deriv] {
            for part in 0..parts {
                c.case(|| format!("two trees side by side: {b:?} while {a:?} stands before a file call, part {part}"), |c| {
                    let tpl = near_end(c, "tpl", 0)?;
                    let p = c.dir("both");
                    let (da, db) = (p.join("a"), p.join("b"));
                    let mut alone = vec![];
                    for (k, d, tag) in [(a, &da, 0), (b, &db, 7000)] {
                        std::fs::create_dir_all(&p).unwrap();
                        let r = k.prepare(d, &tpl, tag)?;
                        let r = k.go(d, r)?;
                        alone.push(k.check(r, d, None, "alone")?);
                    }
                    let mut at = part;
                    loop {
                        for d in [&da, &db] {
                            let _ = std::fs::remove_dir_all(d);
                        }
                        let (ra, rb) = (a.prepare(&da, &tpl, 0)?, b.prepare(&db, &tpl, 7000)?);
                        fsx::gate_arm(&da, at);
                        let d = da.clone();
                        let first = std::thread::spawn(move || a.go(&d, ra));
                        while !first.is_finished() && !fsx::gate_held() {
                            std::thread::yield_now();
                        }
                        let reached = fsx::gate_reached();
                        let what = format!("{b:?} while {a:?} beside it stands before {}", reached.clone().unwrap_or_default());
                        // should the other tree have to wait for this one, it goes on
                        fsx::gate_limit(2000);
                        let rb = b.go(&db, rb).map_err(|e| format!("{what}: {}", e.msg));
                        if reached.is_some() && !fsx::gate_held() {
                            c.count("other_tree_had_to_wait", 1);
                        }
                        fsx::gate_release();
                        let ra = first.join().map_err(|_| "harness: thread")?.map_err(|e| Fail::from(format!("{what}: the first tree: {}", e.msg)));
                        fsx::gate_settle();
                        a.check(ra?, &da, Some(&alone[0]), &format!("{what}: the first tree"))?;
                        b.check(rb?, &db, Some(&alone[1]), &what)?;
                        let mut left: Vec<String> = std::fs::read_dir(&p).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
                        left.sort();
                        same!(left, vec!["a".to_string(), "b".into()], "{what}: files beside the two folders");
                        c.transitions += 1;
                        c.count("beside_each_other", 1);
                        c.state(&("beside", a, b, at));
                        if reached.is_none() {
                            return Ok(());
                        }
                        at += parts;
                    }
                });
            }
        }
    }
}
/// the newest part of the state
fn tail(r: &mut Run) -> R {
    let s = r.s.clone();
    let t = r.t();
    let ch = Ch::M(t.get_main_chain());
    s.main.check_range(&ch, &[], "main chain", s.main.v.len().saturating_sub(3))?;
    for i in 0..4 {
        let a = acct(i);
        let x = (ok("get_amount", guard(|| t.get_amount(&a)))?, ok("get_gas", guard(|| t.get_gas(&a)))?);
        same!(x, s.led.get(&i).copied().unwrap_or_default(), "balance of account {i}");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        level: "model_checking",
        run: c33,
        exhaustive: true,
        shards: 8,
        rule: "explicit-state exploration of two trees in one process: all merges of all histories of two operations each over eight operations, with equal and with different content; a fixed history in every listed kind of folder name and every listed pair of neighbouring or nested folders; folders removed and made again, exchanged, copied; the closing block after every order of ledger operations; two threads each on its own tree under every schedule with at most B preemptions; one tree's opening, first opening, closing of an epoch, derivative chain or flush standing before any one of its file calls while the tree beside it carries out an operation; each tree compared with the model of its own operations; states = merged histories, names, orders and programs, transitions = operations and scheduler steps",
        assumptions: &["the folders of different trees do not overlap in files: one may lie inside another's folder, under a name the outer tree does not use"],
    }]
}

//! C37 nothing accumulates.
use crate::fsx;
use crate::model::copy_dir;
use crate::persist::{library, library_ops, near_end, owner, patch_closing, Run, St, P};
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use std::collections::BTreeMap;
use std::path::Path;

/// a name without what the storage library numbers
fn plain(s: &str) -> String {
    s.split('/')
        .map(|p| match p.split_once('.') {
            Some(("snap", rest)) if !rest.is_empty() => "snap.*",
            _ => p,
        })
        .collect::<Vec<_>>()
        .join("/")
}
/// the files of the folder that this process holds open, and how often
fn open_files(d: &Path) -> BTreeMap<String, usize> {
    let d = std::fs::canonicalize(d).unwrap_or_else(|_| d.to_path_buf());
    let root = format!("{}/", d.display());
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten() {
        if let Ok(p) = std::fs::read_link(e.path()) {
            if let Some(x) = p.to_string_lossy().strip_prefix(&root) {
                *m.entry(plain(x)).or_insert(0) += 1;
            }
        }
    }
    m
}
/// what lies in the folder
fn content(d: &Path, at: &str, m: &mut BTreeMap<String, usize>) {
    for e in std::fs::read_dir(d.join(at)).into_iter().flatten().flatten() {
        let p = if at.is_empty() { e.file_name().to_string_lossy().into_owned() } else { format!("{at}/{}", e.file_name().to_string_lossy()) };
        // how many snapshots the storage library keeps is its own affair
        m.insert(plain(&p), 1);
        if e.file_type().map_or(false, |t| t.is_dir()) {
            content(d, &p, m);
        }
    }
}
fn lying(d: &Path) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    content(d, "", &mut m);
    m.retain(|k, _| !k.contains("snap.*"));
    m
}
/// helper threads of the storage library let go of what they hold a moment later
fn soon(mut f: impl FnMut() -> Result<(), String>) -> R {
    let t0 = std::time::Instant::now();
    loop {
        match f() {
            Err(_) if t0.elapsed().as_secs() < 20 => std::thread::sleep(std::time::Duration::from_millis(1)),
            r => return r.map_err(Fail::from),
        }
    }
}
fn diff_of(a: &BTreeMap<String, usize>, b: &BTreeMap<String, usize>) -> String {
    let mut v: Vec<String> = a.iter().filter(|(k, n)| b.get(*k) != Some(n)).map(|(k, n)| format!("{k} x{n}")).collect();
    v.extend(b.keys().filter(|k| !a.contains_key(*k)).map(|k| format!("{k} missing")));
    v.join(", ")
}
const OWNERS: [usize; 3] = [0, 1, 2];
/// a tree that is only opened and asked for its chains: what it holds open, what lies in its folder
struct Base {
    open: BTreeMap<String, usize>,
    lie: BTreeMap<String, usize>,
}
fn ask(t: &mut BlockChainTree) -> R {
    for o in OWNERS {
        ok("get_derivative_chain", guard(|| t.get_derivative_chain(&owner(o))))?;
    }
    Ok(())
}
fn base(d: &Path) -> Result<Base, Fail> {
    let mut t = open_tree(d)?;
    ask(&mut t)?;
    flush(&t)?;
    drop(t);
    released(d, "closing a tree that did nothing")?;
    let mut t = open_tree(d)?;
    ask(&mut t)?;
    let open = open_files(d);
    ensure!(!open.is_empty(), "harness: no open files seen");
    drop(t);
    released(d, "closing a tree that did nothing")?;
    Ok(Base { open, lie: lying(d) })
}
fn released(d: &Path, what: &str) -> R {
    soon(|| {
        let m = open_files(d);
        if m.is_empty() {
            return Ok(());
        }
        Err(format!("{what}: after the tree and every handle were dropped there are still open: {}", diff_of(&m, &BTreeMap::new())))
    })
}
/// a tree that has done something holds what one holds that has only been opened, and leaves the same
fn compare(r: &mut Run, b: &Base, what: &str) -> R {
    let d = r.d.clone();
    ask(r.t())?;
    soon(|| {
        let m = open_files(&d);
        if m == b.open {
            return Ok(());
        }
        Err(format!("{what}: open files differ from those of a tree just opened: {}", diff_of(&m, &b.open)))
    })?;
    flush(r.t.as_ref().unwrap())?;
    r.t = None;
    released(&d, what)?;
    let m = lying(&d);
    ensure!(m == b.lie, "{what}: in the folder there is {}", diff_of(&m, &b.lie));
    Ok(())
}

/// something that is refused
fn refusals(t: &mut BlockChainTree, at_end: bool) -> R {
    let bad = [0xabu8; 32];
    let t1 = tx(&key(1), &addr(9), 1, u(1), None);
    let forged = Transaction::new_signed(key(1).pk, addr(9), 1, u(5), None, *t1.get_signature());
    refused("a forged transaction", guard(|| t.send_transaction(&forged)))?;
    refused("too large a debit", guard(|| t.sub_amount(&addr(99), u(1))))?;
    refused("too large a transfer", guard(|| t.send_gas(&addr(99), &addr(98), u(1))))?;
    // at the end of an epoch this call closes it
    if !at_end {
        refused("an empty block", guard(|| block_on(t.emmit_new_main_block(&bad, &addr(3), &[], 5)).map(|_| ())))?;
    }
    refused("a block of a wrong height", guard(|| t.get_main_chain().add_block(tblock(u(1 << 40), 1))))?;
    let c = ok("get_derivative_chain", guard(|| t.get_derivative_chain(&owner(0))))?;
    refused("a derivative block of a wrong height", guard(|| c.add_block(&dblock(u(1 << 40), 1))))?;
    Ok(())
}

fn c37(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let ops = library_ops();
    let name = |v: &[P]| v.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(" ");
    for i in 0..ops.len() {
        for j in 0..ops.len() {
            c.case(|| format!("all histories of {} operations that start with {:?} {:?}, each twice over", c_depth(false), ops[i], ops[j]), |c| {
                let b = base(&c.dir("b"))?;
                for rest in crate::chainx::tuples(ops.len(), c_depth(c.thorough()) - 2) {
                    let seq: Vec<P> = [i, j].iter().chain(&rest).map(|k| ops[*k]).collect();
                    let mut r = Run::open(c.dir("x"), St::fresh()?)?;
                    for round in 0..2 {
                        for op in &seq {
                            if r.step(*op).map_err(|e| Fail::from(format!("[{}]: {}", name(&seq), e.msg)))? {
                                c.transitions += 1;
                            }
                        }
                        if round == 0 {
                            refusals(r.t(), false)?;
                        }
                    }
                    compare(&mut r, &b, &format!("after [{}], twice", name(&seq)))?;
                    c.traces += 1;
                    c.state(&seq);
                }
                Ok(())
            });
        }
    }
    // across the end of an epoch, with and without attempts that fail
    for i in 0..ops.len() {
        c.case(|| format!("closing an epoch after {:?}, then every operation", ops[i]), |c| {
            let (tpl, s) = near_end(c, "tpl", 1)?;
            let bd = c.dir("b");
            copy_dir(&tpl, &bd);
            let b = base(&bd)?;
            for next in ops {
                let d = c.dir("x");
                copy_dir(&tpl, &d);
                let mut r = Run::open(d, s.clone())?;
                r.tag = 500;
                // the epoch has room for one more block
                let moves = matches!(ops[i], P::Emit | P::Block);
                ensure!(r.step(ops[i])?, "setup");
                if !moves {
                    ensure!(r.step(P::Emit)?, "setup");
                }
                refusals(r.t(), true)?;
                ensure!(r.step(P::Roll)?, "not at the end");
                patch_closing(&mut r)?;
                let what = format!("{:?}, closing, {next:?}", ops[i]);
                if next == P::Reopen {
                    compare(&mut r, &b, &what)?;
                    continue;
                }
                r.step(next)?;
                compare(&mut r, &b, &what)?;
                c.traces += 1;
                c.transitions += 4;
                c.state(&what);
            }
            Ok(())
        });
    }
    for sticky in [false, true] {
        for part in 0..8usize {
            c.case(|| format!("closing an epoch with file calls failing{}, part {part}", if sticky { " from some point on" } else { "" }), |c| {
                let (tpl, s) = near_end(c, "tpl", 0)?;
                let bd = c.dir("b");
                copy_dir(&tpl, &bd);
                let b = base(&bd)?;
                let mut total = 1i64;
                let mut i = -1i64;
                while i < total {
                    if i < 0 || i as usize % 8 == part {
                        // a name of its own: what the library leaks when it gives up must not be taken for another run's
                        let d = c.dir(&format!("x{i}"));
                        copy_dir(&tpl, &d);
                        let mut r = Run::open(d.clone(), s.clone())?;
                        r.tag = 500;
                        let mut x = r.plan(P::Roll)?.ok_or("not at the end")?;
                        let t = r.t.as_mut().unwrap();
                        fsx::arm_fs_faults(&d, i, sticky);
                        let res = guard(|| (x.call)(t));
                        let (n, hits, names) = fsx::disarm_fs_faults();
                        let what = format!("closing with a fault at file call {i} ({})", names.get(i.max(0) as usize).cloned().unwrap_or_default());
                        c.transitions += 1;
                        match res {
                            Err(p) if library(&p) => {
                                c.count("the storage library gave up by itself", 1);
                                i += 1;
                                continue;
                            }
                            Err(p) => return Err(format!("{what}: {p}").into()),
                            Ok(Ok(())) => r.s = x.next,
                            Ok(Err(e)) => {
                                ensure!(hits > 0, "{what}: failed without a fault: {e}");
                                // a store that could not write serves nobody until it is reopened
                                if guard(|| block_on(t.flush())).map_or(true, |r| r.is_err()) {
                                    drop(x);
                                    r.t = None;
                                    released(&d, &what)?;
                                    r.reopen()?;
                                    ask(r.t())?;
                                    c.count("reopened_after_a_fault", 1);
                                }
                                ensure!(r.step(P::Roll).map_err(|e| Fail::from(format!("{what}, then again: {}", e.msg)))?, "not at the end");
                            }
                        }
                        if i < 0 {
                            total = n as i64;
                            c.max("file_calls", n as u64);
                        }
                        patch_closing(&mut r)?;
                        compare(&mut r, &b, &format!("{what}, closed in the end"))?;
                        let _ = std::fs::remove_dir_all(&d);
                        c.traces += 1;
                        c.state(&(sticky, i));
                    }
                    i += 1;
                }
                Ok(())
            });
        }
    }
    // handles that outlive the tree
    for mask in 0..16usize {
        c.case(|| format!("handles kept while the tree is dropped {mask:04b}"), |c| {
            let d = c.dir("x");
            let mut t = open_tree(&d)?;
            ask(&mut t)?;
            let m1 = t.get_main_chain();
            let m2 = m1.clone();
            let d1 = ok("get_derivative_chain", guard(|| t.get_derivative_chain(&owner(0))))?;
            let d2 = ok("get_derivative_chain", guard(|| t.get_derivative_chain(&owner(1))))?;
            let h: [Box<dyn std::any::Any>; 4] = [Box::new(m1), Box::new(m2), Box::new(d1), Box::new(d2)];
            let (kept, gone): (Vec<_>, Vec<_>) = h.into_iter().enumerate().partition(|(k, _)| mask >> k & 1 == 1);
            drop(gone);
            drop(t);
            drop(kept);
            released(&d, &format!("handles kept {mask:04b}"))?;
            let t = ok("opening again", reopen(|| BlockChainTree::new(d.to_str().unwrap())))?;
            same!(t.get_main_chain().get_height(), u(1), "height");
            c.traces += 1;
            c.transitions += 2;
            c.state(&mask);
            Ok(())
        });
    }
}
fn c_depth(thorough: bool) -> usize {
    if thorough {
        4
    } else {
        3
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C37",
        level: "model_checking",
        run: c37,
        exhaustive: true,
        shards: 8,
        rule: "exhaustive enumeration of histories of library operations, each carried out twice over and mixed with refused ones, across the end of an epoch, and of single and lasting failures of every file call of a rollover; at the end the multiset of open files of the folder equals that of a tree just opened and asked for the same chains, the folder holds the same entries, and after dropping everything no file of it is open; states = histories and faults, transitions = operations",
        assumptions: &["helper threads of the storage library get 20 s to let go of a file", "numbered snapshot files of the storage library are its own affair"],
    }]
}

//! C35 asking has no effect.
use crate::chainx::{tuples, Any};
use crate::layout::{get, Store};
use crate::model::*;
use crate::persist::{acct, library_ops, near_end, owner, patch_closing, queries, Run, St, P, Q};
use crate::rt::*;
use crate::submit::{ref_dump, ref_hash};
use crate::util::*;
use crate::{ensure, same};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// everything a folder holds: each store by key, each other file by content
type Content = BTreeMap<String, Store>;
fn content(d: &Path) -> Result<Content, Fail> {
    fn walk(top: &Path, d: &Path, out: &mut Content) -> R {
        let mut here = Store::new();
        for e in std::fs::read_dir(d).map_err(|e| Fail::from(e.to_string()))? {
            let p = e.map_err(|e| Fail::from(e.to_string()))?.path();
            if !p.is_dir() {
                here.insert(p.file_name().unwrap().as_encoded_bytes().to_vec(), std::fs::read(&p).map_err(|e| Fail::from(e.to_string()))?);
            } else if p.join("conf").is_file() && p.join("db").is_file() {
                out.insert(p.strip_prefix(top).unwrap().display().to_string(), get(&p)?);
            } else {
                walk(top, &p, out)?;
            }
        }
        out.insert(format!("{}/", d.strip_prefix(top).unwrap().display()), here);
        Ok(())
    }
    let mut out = Content::new();
    walk(d, d, &mut out)?;
    Ok(out)
}
fn same_content(a: &Content, b: &Content, what: &str) -> R {
    for k in a.keys().chain(b.keys()) {
        let (x, y) = (a.get(k), b.get(k));
        if x == y {
            continue;
        }
        let e = Store::new();
        let (x, y) = (x.unwrap_or(&e), y.unwrap_or(&e));
        for n in x.keys().chain(y.keys()) {
            let s = |v: Option<&Vec<u8>>| v.map(|v| short(&hex(v)));
            ensure!(x.get(n) == y.get(n), "{what}: {k} holds under {} {:?}, without the questions {:?}", hex(n), s(x.get(n)), s(y.get(n)));
        }
        return Err(format!("{what}: {k} exists in one of the two only").into());
    }
    Ok(())
}

/// what is still to come in a history: asked about before it exists
#[derive(Clone, Default)]
struct Future {
    blocks: Vec<H>,
    made: Vec<Transaction>,
}
fn txt<T: std::fmt::Debug, E: std::fmt::Debug>(r: Result<T, E>) -> Result<String, String> {
    r.map(|x| format!("{x:?}")).map_err(|e| short(&e))
}
fn all_queries(s: &St, made: &[Transaction], f: &Future) -> Vec<Q> {
    let mut v = queries(s, made);
    let main = |g: Arc<dyn Fn(MainChain) -> Result<String, String>>| -> Box<dyn Fn(&mut BlockChainTree) -> Result<String, String>> { Box::new(move |t| g(t.get_main_chain())) };
    for h in f.blocks.iter().rev().take(3).copied() {
        v.push(("find_by_hash of a block to come", main(Arc::new(move |m| txt(m.find_raw_by_hash(&h)).and_then(|x| m.find_by_hash(&h).map(|b| format!("{x} {:?}", b.map(|b| hex(&b.dump().unwrap())))).map_err(|e| short(&e)))))));
        for o in s.own.keys().copied() {
            v.push(("derivative find_by_hash of a block to come", Box::new(move |t| txt(t.get_derivative_chain(&owner(o)).and_then(|c| Ok((c.find_raw_by_hash(&h)?, c.find_by_hash(&h)?.map(|b| b.dump().unwrap()))))))));
        }
    }
    for x in f.made.iter().rev().take(3) {
        let h = ref_hash(x);
        v.push(("a transaction to come", main(Arc::new(move |m| Ok(format!("{:?} {:?} {:?}", txt(m.transaction_exists(&h)), txt(m.get_transaction_raw(&h)), m.get_transaction(&h).map(|x| x.map(|x| ref_dump(&x))).map_err(|e| short(&e))))))));
    }
    for k in 0..3u64 {
        let h = s.main.height() + u(k);
        v.push(("a height to come", main(Arc::new(move |m| Ok(format!("{:?} {:?}", txt(m.find_raw_by_height(&h)), m.find_by_height(&h).map(|b| b.is_some()).map_err(|e| short(&e))))))));
        for (o, (_, m)) in &s.own {
            let (o, h) = (*o, m.height() + u(k));
            v.push(("a derivative height to come", Box::new(move |t| txt(t.get_derivative_chain(&owner(o)).and_then(|c| c.find_raw_by_height(&h))))));
        }
    }
    for a in [[0u8; 33], [0xff; 33], addr(4)] {
        v.push(("balance of a stranger", Box::new(move |t| Ok(format!("{:?} {:?}", txt(t.get_amount(&a)), txt(t.get_gas(&a)))))));
    }
    // the last block against the one before, both ways round
    v.push(("validate", main(Arc::new(|m| {
        let b = m.get_last_block().map_err(|e| short(&e))?.ok_or("no last block")?;
        let d = b.dump().unwrap();
        let r = (b.clone().validate(Some(b.clone())), b.validate(None), b.verify_block(&[7; 32]), b.hash().unwrap(), b.get_dump_size());
        let r = format!("{:?} {:?} {:?} {:?} {:?}", r.0.map_err(|e| short(&e)), r.1.map_err(|e| short(&e)), r.2, r.3, r.4);
        if b.dump().unwrap() != d {
            return Err("a block changed while it was validated".into());
        }
        Ok(r)
    }))));
    v
}

/// a history, the questions `which` (all if None) asked before step `at` (before each if None)
#[allow(clippy::too_many_arguments)]
fn asked(c: &mut Ctx, d: &Path, seq: &[P], tpl: Option<(&Path, &St)>, at: Option<usize>, which: Option<usize>, f: &Future, what: &str) -> Result<(Option<Content>, Run, usize), Fail> {
    let s = match tpl {
        Some((p, s)) => {
            copy_dir(p, d);
            s.clone()
        }
        None => {
            let _ = std::fs::remove_dir_all(d);
            St::fresh()?
        }
    };
    let mut r = Run::open(d.into(), s)?;
    r.tag = 500;
    let mut n = 0;
    // a handle taken before everything; it answers like a new one
    let old = r.t().get_main_chain();
    for i in 0..=seq.len() {
        if at.is_none_or(|k| k == i) {
            let qs = all_queries(&r.s, &r.made, f);
            n = n.max(qs.len());
            for (k, (name, q)) in qs.iter().enumerate() {
                if which.is_some_and(|w| w != k) {
                    continue;
                }
                let mut ask = || match guard(|| q(r.t.as_mut().unwrap())) {
                    Ok(x) => Ok(x),
                    Err(p) => Err(Fail::from(format!("{what}: {name} before step {i} {p}"))),
                };
                let (x, y) = (ask()?, ask()?);
                same!(y, x, "{what}: {name} before step {i}, asked again");
                c.transitions += 2;
            }
            if which.is_none() {
                let h = r.s.main.height() - 1;
                let x = (old.get_height(), txt(old.find_raw_by_height(&h)), txt(old.get_last_raw_block()));
                let new = r.t().get_main_chain();
                same!(x, (new.get_height(), txt(new.find_raw_by_height(&h)), txt(new.get_last_raw_block())), "{what}: an old handle and a new one, before step {i}");
            }
        }
        if i < seq.len() && seq[i] != P::Reopen {
            if !r.step(seq[i]).map_err(|e| Fail::from(format!("{what}: step {i}: {}", e.msg)))? {
                return Ok((None, r, n));
            }
            if seq[i] == P::Roll {
                patch_closing(&mut r)?;
            }
        } else if i < seq.len() {
            // the old handle would keep the folder open
            return Err("reopening is not for these histories".into());
        }
    }
    drop(old);
    flush(r.t.as_ref().unwrap())?;
    // asked after the last flush, then killed
    if at.is_none() || at == Some(seq.len()) {
        let k = d.with_extension("killed");
        copy_dir(d, &k);
        let before = content(&k)?;
        let qs = all_queries(&r.s, &r.made, f);
        for (j, (_, q)) in qs.iter().enumerate() {
            if which.is_none_or(|w| w == j) {
                let _ = guard(|| q(r.t.as_mut().unwrap()));
            }
        }
        copy_dir(d, &k);
        same_content(&content(&k)?, &before, &format!("{what}: flushed, asked, killed"))?;
    }
    // the answers are those of what was done
    if at.is_none_or(|k| k <= seq.len()) {
        r.compare(&format!("{what}: asked"))?;
    }
    r.t = None;
    let x = content(d)?;
    Ok((Some(x), r, n))
}
fn history(c: &mut Ctx, seq: &[P], tpl: Option<(&Path, &St)>, each: bool) -> R {
    let d = c.dir("x");
    let name = seq.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(" ");
    // without any question (an index that no question has)
    let (want, r, _) = asked(c, &d, seq, tpl, Some(usize::MAX), None, &Future::default(), &format!("[{name}]"))?;
    let Some(want) = want else {
        c.count("steps_not_applicable", 1);
        return Ok(());
    };
    let f = Future { blocks: r.blocks.clone(), made: r.made.clone() };
    let (got, mut r, n) = asked(c, &d, seq, tpl, None, None, &f, &format!("[{name}] every question at every point"))?;
    same_content(&got.ok_or("a step became impossible")?, &want, &format!("[{name}] every question at every point"))?;
    r.reopen()?;
    r.compare(&format!("[{name}] with questions, reopened"))?;
    r.t = None;
    c.traces += 2;
    c.state(&(seq.to_vec(), tpl.is_some()));
    c.max("most_questions_at_one_point", n as u64);
    if each {
        for at in 0..=seq.len() {
            let mut k = 0;
            loop {
                let w = format!("[{name}] question {k} before step {at}");
                let (got, _, n) = asked(c, &d, seq, tpl, Some(at), Some(k), &f, &w)?;
                same_content(&got.ok_or("a step became impossible")?, &want, &w)?;
                c.traces += 1;
                c.state(&(seq.to_vec(), at, k));
                k += 1;
                if k >= n {
                    break;
                }
            }
        }
    }
    Ok(())
}

fn c35(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let ops: Vec<P> = library_ops().into_iter().filter(|o| *o != P::Reopen).collect();
    let depth = c.pick(3, 4);
    for a in 0..ops.len() {
        for b in 0..ops.len() {
            c.case(|| format!("all histories of {depth} operations that start with {:?} {:?}, every question at every point", ops[a], ops[b]), |c| {
                for rest in tuples(ops.len(), depth - 2) {
                    let seq: Vec<P> = [a, b].iter().chain(&rest).map(|i| ops[*i]).collect();
                    history(c, &seq, None, false)?;
                }
                Ok(())
            });
        }
    }
    // each question alone at each point
    let long: [&[P]; 5] = [
        &[P::Coins, P::Gas, P::Emit, P::Submit, P::DEmit(0), P::Block, P::DAdd(0), P::Flush, P::Emit],
        &[P::Block, P::DGet(0), P::Rec, P::DEmit(1), P::Batch, P::Spend, P::MFlush, P::DEmit(0)],
        &[P::DGet(0), P::Emit, P::DAdd(0), P::DAdd(1), P::DFlush(0), P::Coins, P::Block],
        &[P::Rec, P::Rec, P::Gas, P::Coins, P::Submit, P::Submit, P::Spend],
        &[P::Coins, P::Gas, P::Drain, P::DrainGas, P::Emit, P::Coins],
    ];
    for (i, seq) in long.iter().enumerate() {
        for cut in 1..=seq.len() {
            c.case(|| format!("history {i} to step {cut}, each question alone at each point"), |c| {
                // the shorter ones are covered by their continuation
                if cut < seq.len() && !c.thorough() {
                    return history(c, &seq[..cut], None, false);
                }
                history(c, &seq[..cut], None, true)
            });
        }
    }
    for left in 0..c.pick(2, 3) {
        let lists: Vec<Vec<P>> = {
            let pre: Vec<Vec<P>> = vec![vec![], vec![P::Spend], vec![P::Coins, P::Gas], vec![P::Submit], vec![P::DEmit(0), P::Rec], vec![P::Flush], vec![P::Drain], vec![P::DrainGas, P::Flush]];
            let post: Vec<Vec<P>> = vec![vec![], vec![P::Emit], vec![P::Spend, P::Submit, P::Block], vec![P::DEmit(1), P::Flush, P::Emit]];
            let mut v = vec![];
            for a in &pre {
                for b in &post {
                    let mut s = a.clone();
                    s.extend(vec![P::Emit; left as usize]);
                    s.push(P::Roll);
                    s.extend(b);
                    v.push(s);
                }
            }
            v
        };
        for (i, seq) in lists.iter().enumerate() {
            c.case(|| format!("end of an epoch, history {seq:?}"), |c| {
                let (tpl, s) = near_end(c, "tpl", left)?;
                history(c, seq, Some((&tpl, &s)), i % 4 == 3 || c.thorough())
            });
        }
    }
    values(c);
    funds(c);
}

/// values: asked in every order, any number of times
fn values(c: &mut Ctx) {
    type V<T> = (&'static str, fn(&T) -> String);
    fn orders<T>(c: &mut Ctx, what: &str, make: &dyn Fn() -> T, qs: &[V<T>]) -> R {
        // what each answers on a value never asked before
        let want: Vec<String> = qs.iter().map(|q| (q.1)(&make())).collect();
        for len in 2..=c.pick(3, 4) {
            for t in tuples(qs.len(), len) {
                let x = make();
                for i in &t {
                    let got = guard(|| (qs[*i].1)(&x))?;
                    same!(got, want[*i], "{what}: {} asked in the order {:?}", qs[*i].0, t.iter().map(|i| qs[*i].0).collect::<Vec<_>>());
                    c.transitions += 1;
                }
                c.traces += 1;
                c.state(&(what, &t));
            }
        }
        Ok(())
    }
    let tq: [V<Transaction>; 6] = [
        ("hash", |x| hex(&Transactionable::hash(x))),
        ("signing digest", |x| hex(&x.hash_without_signature())),
        ("verify", |x| format!("{:?}", x.verify().map_err(|e| short(&e)))),
        ("dump", |x| hex(&x.dump().unwrap())),
        ("size", |x| x.get_dump_size().to_string()),
        ("fields", |x| format!("{:?} {:?} {} {:?} {:?} {:?}", x.get_sender(), x.get_receiver(), x.get_timestamp(), x.get_signature(), x.get_data(), Transaction::get_amount(x))),
    ];
    for (i, data) in [None, Some(vec![1u8]), Some(vec![0u8; 600])].into_iter().enumerate() {
        for bad in [false, true] {
            c.case(|| format!("questions to a transaction, payload {i}, signature {}", if bad { "wrong" } else { "right" }), |c| {
                let x = tx(&key(1), &acct(2), 1_650_000_000, pow2(200) + u(3), data.clone());
                let mut raw = ref_dump(&x);
                if bad {
                    let n = raw.len();
                    raw[n - 1] ^= 1;
                }
                let make = move || Transaction::parse(&raw[1..]).unwrap();
                orders(c, "transaction", &make, &tq)
            });
        }
    }
    let bq: [V<BlockArc>; 8] = [
        ("hash", |b| hex(&b.hash().unwrap())),
        ("dump", |b| hex(&b.dump().unwrap())),
        ("size", |b| b.get_dump_size().to_string()),
        ("validate against itself", |b| format!("{:?}", b.validate(Some(b.clone())).map_err(|e| short(&e)))),
        ("validate against genesis", |b| format!("{:?}", b.validate(Some(genesis())).map_err(|e| short(&e)))),
        ("validate against nothing", |b| format!("{:?}", b.validate(None).map_err(|e| short(&e)))),
        ("verify_block", |b| b.verify_block(&b.get_info().previous_hash).to_string()),
        ("fields", |b| format!("{:?} {:?} {} {:?} {}", b.get_founder(), b.get_fee(), b.get_info().timestamp, b.transactions(), hex(&b.get_info().pow))),
    ];
    for kind in 0..4usize {
        for good in [true, false] {
            c.case(|| format!("questions to a block of kind {kind}, {}", if good { "a valid successor of the inception block" } else { "an altered one" }), |c| {
                let g = Blk::of(genesis())?;
                let txs = if kind == 1 { vec![hh(1), hh(2), hh(3)] } else { vec![] };
                let n = mine(&g.hash, &g.d(), &txs, good).ok_or("no nonce")?;
                let i = info(g.ts() + 600, n, g.hash, u(1), diff(lz(&g.d())), addr(3));
                let a = match kind {
                    0 | 1 => Any::T(fee_of(lz(&g.d())), merkle(&txs), txs, i),
                    2 => Any::S(hh(4), i),
                    _ => Any::D(i),
                };
                orders(c, "block", &|| a.arc(), &bq)
            });
        }
    }
}

/// the stand-alone funds: a question leaves no account behind
fn funds(c: &mut Ctx) {
    c.case(|| "the stand-alone funds store".into(), |c| {
        for asked in [false, true] {
            for ops in tuples(4, 3) {
                let d = c.dir("funds");
                let db = ok("opening", reopen(|| sled::open(&d)))?;
                let f = blockchaintree::summary_db::SummaryDB::new(db.clone());
                for o in ops.iter() {
                    if asked {
                        for i in 0..5 {
                            let x = txt(f.get_funds(&addr(i)));
                            same!(txt(f.get_funds(&addr(i))), x, "get_funds asked again");
                        }
                    }
                    let a = addr(*o as u64 % 2);
                    let n = 10u32.pow(*o as u32 + 1);
                    let _ = match o {
                        0 | 1 => block_on(f.add_funds(&a, &n.into())),
                        _ => block_on(f.decrease_funds(&a, &5u32.into())),
                    };
                    c.transitions += 1;
                }
                drop(f);
                let n = db.len();
                let want = ops.iter().filter(|o| **o < 2).collect::<std::collections::BTreeSet<_>>().len();
                ensure!(n <= want, "{n} accounts are stored after {ops:?} with questions {asked}, {want} were credited");
                c.state(&("funds", &ops, asked));
                c.traces += 1;
            }
        }
        Ok(())
    });
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C35",
        level: "model_checking",
        run: c35,
        exhaustive: true,
        shards: 8,
        rule: "explicit-state exploration of histories with questions inserted: all histories of up to the stated depth with every question of the library, about what exists, what never exists and what is still to come, asked twice before every step; fixed longer histories, also across the end of an epoch, with each question alone at each point; the complete content of the folder compared key by key with the same history without questions, after closing and after a kill; all orders of questions to one transaction or block; states = histories, points and questions, transitions = questions",
        assumptions: &["asking for the derivative chain of an owner who has none creates it: that is an operation, not a question"],
    }]
}

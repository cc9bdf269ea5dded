//! C36 damaged stored data.
use crate::epoch;
use crate::layout::{get, put, Store};
use crate::model::*;
use crate::persist::{acct, near_end, owner, patch_closing, Run, St, P};
use crate::rt::*;
use crate::submit::{ref_dump, ref_hash};
use crate::util::*;
use crate::{ensure, same};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

/// one stored record: which store, under which key
#[derive(Clone, Debug, PartialEq, Eq)]
struct Rec {
    store: String,
    key: Vec<u8>,
}
fn deriv(o: usize) -> String {
    format!("DERIVATIVES/{}", hex(&owner(o)))
}
fn records(s: &St, all: &dyn Fn(&str) -> Result<Store, Fail>) -> Result<Vec<Rec>, Fail> {
    let mut v = vec![];
    let mut stores: Vec<String> = ["MAIN/BLOCKS", "MAIN/REF", "MAIN/TRANSACTIONS", "SUMMARY", "GASSUMMARY"].iter().map(|x| x.to_string()).collect();
    for o in s.own.keys() {
        stores.push(format!("{}/BLOCKS", deriv(*o)));
        stores.push(format!("{}/REF", deriv(*o)));
    }
    for st in stores {
        for k in all(&st)?.into_keys() {
            v.push(Rec { store: st.clone(), key: k });
        }
    }
    Ok(v)
}
/// what may become of a record (None: it is gone)
fn damages(raw: &[u8], all: bool) -> Vec<(String, Option<Vec<u8>>)> {
    let n = raw.len();
    let mut v: Vec<(String, Option<Vec<u8>>)> = vec![("gone".into(), None), ("empty".into(), Some(vec![]))];
    let cuts: BTreeSet<usize> = if all { (1..n).collect() } else { [1, 2, n / 2, n.saturating_sub(32), n - 1].into_iter().filter(|k| *k > 0 && *k < n).collect() };
    for k in cuts {
        v.push((format!("cut to {k} of {n} bytes"), Some(raw[..k].to_vec())));
    }
    let firsts: Vec<u8> = if all { (0..=255).collect() } else { vec![0, 1, 2, 3, 4, 5, 33, 255] };
    for f in firsts {
        if f != raw[0] {
            let mut x = raw.to_vec();
            x[0] = f;
            v.push((format!("first byte {f} instead of {}", raw[0]), Some(x)));
        }
    }
    for k in [1usize, 31, 32, 33, 600] {
        let mut x = raw.to_vec();
        x.extend(vec![9; k]);
        v.push((format!("{k} bytes too long"), Some(x)));
    }
    v
}
fn set(d: &Path, r: &Rec, v: Option<&[u8]>) -> R {
    let db = ok("opening a store", reopen(|| sled::open(d.join(&r.store))))?;
    match v {
        Some(v) => db.insert(r.key.as_slice(), v),
        None => db.remove(r.key.as_slice()),
    }
    .map_err(|e| Fail::from(e.to_string()))?;
    db.flush().map_err(|e| Fail::from(e.to_string()))?;
    Ok(())
}

/// every question, against what is stored: an error only about the damaged record
fn ask(c: &mut Ctx, t: &mut BlockChainTree, s: &St, made: &[Transaction], bad: &Rec, now: Option<&[u8]>, what: &str) -> R {
    let is = |store: &str, key: &[u8]| bad.store == store && bad.key == key;
    fn call<T, E: std::fmt::Debug>(c: &mut Ctx, what: &str, r: Result<Result<T, E>, String>) -> Result<Option<T>, Fail> {
        c.transitions += 1;
        match r {
            Err(p) => Err(format!("{what} {p}").into()),
            Ok(Err(_)) => {
                c.count("answered_by_an_error", 1);
                Ok(None)
            }
            Ok(Ok(x)) => Ok(Some(x)),
        }
    }
    let mut chains: Vec<(String, Idx, Ch)> = vec![("MAIN".into(), s.main.clone(), Ch::M(t.get_main_chain()))];
    for (o, (anchor, m)) in &s.own {
        let Some(h) = call(c, &format!("{what}: get_derivative_chain"), guard(|| t.get_derivative_chain(&owner(*o))))? else {
            // the code looks at the last block of the main chain before it opens a chain
            ensure!(main_tip(s, bad), "{what}: the chain of owner {o}, which exists, cannot be had");
            continue;
        };
        same!(hex(&*h.genesis_hash), hex(anchor), "{what}: anchor of owner {o}");
        chains.push((deriv(*o), m.clone(), Ch::D(h)));
    }
    for (name, m, ch) in &chains {
        same!(ch.height()?, m.height(), "{what}: height of {name}");
        let (bs, rs) = (format!("{name}/BLOCKS"), format!("{name}/REF"));
        for (k, b) in m.v.iter().enumerate() {
            let h = m.base + u(k as u64);
            let hit = is(&bs, &be32(&h));
            let raw: Option<Vec<u8>> = if hit { now.map(|x| x.to_vec()) } else { Some(b.raw.clone()) };
            let w = format!("{what}: {name} at height {h}");
            let last = k + 1 == m.v.len();
            // stored bytes, and a block only if it is exactly what is stored
            let mut by_height: Vec<(&str, Option<Option<Vec<u8>>>, Option<Option<Vec<u8>>>)> = match ch {
                Ch::M(x) => vec![("find_by_height", call(c, &w, guard(|| x.find_raw_by_height(&h)))?, call(c, &w, guard(|| x.find_by_height(&h)))?.map(|b| b.map(|b| b.dump().unwrap())))],
                Ch::D(x) => vec![("find_by_height", call(c, &w, guard(|| x.find_raw_by_height(&h)))?, call(c, &w, guard(|| x.find_by_height(&h)))?.map(|b| b.map(|b| b.dump().unwrap())))],
            };
            if last {
                by_height.push(match ch {
                    Ch::M(x) => ("get_last_block", call(c, &w, guard(|| x.get_last_raw_block()))?, call(c, &w, guard(|| x.get_last_block()))?.map(|b| b.map(|b| b.dump().unwrap()))),
                    Ch::D(x) => ("get_last_block", call(c, &w, guard(|| x.get_last_raw_block()))?, call(c, &w, guard(|| x.get_last_block()))?.map(|b| b.map(|b| b.dump().unwrap()))),
                });
            }
            for (q, r, d) in by_height {
                if hit {
                    if let Some(r) = &r {
                        ensure!(*r == raw, "{w}: {q} (raw) returns {:?}, stored is {:?}", r.as_ref().map(|x| hex(x)), raw.as_ref().map(|x| hex(x)));
                    }
                    ensure!(d != Some(None) || raw.is_none(), "{w}: {q} says there is no block, stored is {:?}", raw.as_ref().map(|x| hex(x)));
                    if let Some(Some(d)) = d {
                        ensure!(raw.as_ref().is_some_and(|x| x.starts_with(&d)), "{w}: {q} returns a block {} that is not what is stored: {:?}", hex(&d), raw.as_ref().map(|x| hex(x)));
                    }
                } else {
                    same!(r.flatten().map(|x| hex(&x)), raw.as_ref().map(|x| hex(x)), "{w}: {q} (raw) of an intact block");
                    same!(d.flatten().map(|x| hex(&x)), raw.as_ref().map(|x| hex(x)), "{w}: {q} of an intact block");
                }
            }
            // by hash: the genuine block or none
            let (r, d) = match ch {
                Ch::M(x) => (call(c, &w, guard(|| x.find_raw_by_hash(&b.hash)))?, call(c, &w, guard(|| x.find_by_hash(&b.hash)))?.map(|b| b.map(|b| b.dump().unwrap()))),
                Ch::D(x) => (call(c, &w, guard(|| x.find_raw_by_hash(&b.hash)))?, call(c, &w, guard(|| x.find_by_hash(&b.hash)))?.map(|b| b.map(|b| b.dump().unwrap()))),
            };
            let intact = !hit && !is(&rs, &b.hash);
            for (q, r) in [("find_raw_by_hash", r), ("find_by_hash", d)] {
                match r.flatten() {
                    Some(r) => same!(hex(&r), hex(&b.raw), "{w}: {q}"),
                    None => ensure!(!intact, "{w}: {q} does not find an intact block"),
                }
            }
        }
    }
    let mc = t.get_main_chain();
    for x in made.iter().filter(|x| s.txs.contains_key(&ref_hash(x))) {
        let h = ref_hash(x);
        let hit = is("MAIN/TRANSACTIONS", &h);
        let raw = if hit { now.map(|x| x.to_vec()) } else { Some(ref_dump(x)) };
        let w = format!("{what}: transaction {}", s8(&h));
        let e = call(c, &w, guard(|| mc.transaction_exists(&h)))?;
        let r = call(c, &w, guard(|| mc.get_transaction_raw(&h)))?;
        let g = call(c, &w, guard(|| mc.get_transaction(&h)))?.map(|x| x.map(|x| ref_dump(&x)));
        if hit {
            ensure!(g != Some(None) || raw.is_none(), "{w}: said not to exist, stored is {:?}", raw.as_ref().map(|x| hex(x)));
            if let Some(Some(g)) = g {
                ensure!(raw.as_ref().is_some_and(|x| x.starts_with(&g)), "{w}: a transaction {} is returned that is not what is stored: {:?}", hex(&g), raw.as_ref().map(|x| hex(x)));
            }
            if let Some(r) = r {
                ensure!(r == raw, "{w}: raw record");
            }
            ensure!(now.is_some() || e != Some(true), "{w}: exists although it is gone");
        } else {
            same!(e, Some(true), "{w}: presence");
            same!(r.flatten().map(|x| hex(&x)), raw.as_ref().map(|x| hex(x)), "{w}: raw record");
            same!(g.flatten().map(|x| hex(&x)), raw.as_ref().map(|x| hex(x)), "{w}: record");
        }
    }
    for i in 0..4 {
        let a = acct(i);
        let (coins, gas) = s.led.get(&i).copied().unwrap_or_default();
        for (store, want, got) in [("SUMMARY", coins, call(c, what, guard(|| t.get_amount(&a)))?), ("GASSUMMARY", gas, call(c, what, guard(|| t.get_gas(&a)))?)] {
            if is(store, &a) {
                if let Some(x) = got {
                    let n = now.unwrap_or(&[0]);
                    ensure!(n.starts_with(&enc_u256(&x)), "{what}: {store} of account {i} is {x}, stored is {}", hex(n));
                }
            } else {
                same!(got, Some(want), "{what}: {store} of account {i}");
            }
        }
    }
    Ok(())
}

fn main_tip(s: &St, bad: &Rec) -> bool {
    bad.store == "MAIN/BLOCKS" && bad.key == be32(&(s.main.height() - 1))
}
/// may this operation fail because of this record?
fn needs(s: &St, op: P, bad: &Rec) -> bool {
    let main_tip = main_tip(s, bad);
    let bal = |store: &str, i: usize| bad.store == store && bad.key == acct(i);
    match op {
        P::Emit | P::Block => main_tip,
        P::Roll => main_tip || bad.store == "SUMMARY" || bad.store == "GASSUMMARY",
        P::Rec | P::Batch | P::Flush | P::MFlush => false,
        P::Coins | P::Drain => bal("SUMMARY", 1),
        P::DrainGas => bal("GASSUMMARY", 1) || bal("GASSUMMARY", 2),
        P::Gas => bal("GASSUMMARY", 1),
        P::Spend => bal("SUMMARY", 0) || bal("SUMMARY", 2),
        P::Submit => main_tip || bal("SUMMARY", 1) || bal("SUMMARY", 2) || bal("GASSUMMARY", 1),
        P::DGet(_) | P::DEmit(_) | P::DAdd(_) | P::DFlush(_) if main_tip => true,
        P::DGet(o) | P::DEmit(o) | P::DAdd(o) | P::DFlush(o) => match s.own.get(&o) {
            // a first block is made on the anchor, found by its hash
            None => !matches!(op, P::DGet(_)) && bad.store == "MAIN/REF" && bad.key == s.main.v.last().unwrap().hash,
            Some((anchor, m)) if m.v.is_empty() => {
                bad.store == "MAIN/REF" && bad.key == *anchor || bad.store == "MAIN/BLOCKS" && s.main.v.iter().any(|b| b.hash == *anchor && be32(&b.h()).to_vec() == bad.key)
            }
            Some(_) => bad.store.starts_with(&deriv(o)),
        },
        P::Reopen => true,
    }
}

fn stocked(c: &Ctx) -> Result<(PathBuf, St, Vec<Transaction>, Vec<H>), Fail> {
    let d = c.dir("tpl");
    let mut r = Run::open(d.clone(), St::fresh()?)?;
    for op in [P::Coins, P::Gas, P::DGet(1), P::Emit, P::Submit, P::DEmit(0), P::Block, P::DEmit(0), P::Rec, P::Spend, P::Flush] {
        ensure!(r.step(op)?, "setup");
    }
    r.t = None;
    Ok((d, r.s, r.made, r.blocks))
}

fn c36(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    // which records there are is known only when the tree exists: the shards agree on the number
    const RECORDS: usize = 28;
    for i in 0..RECORDS {
        c.case(|| format!("stored record {i} of a tree, every damage, every question"), |c| one(c, i, None));
        for op in [P::Emit, P::Block, P::Rec, P::Batch, P::Coins, P::Spend, P::Gas, P::Drain, P::DrainGas, P::Submit, P::DGet(0), P::DGet(2), P::DEmit(0), P::DEmit(1), P::DEmit(2), P::DAdd(0), P::DAdd(1), P::Flush, P::MFlush, P::DFlush(0)] {
            c.case(|| format!("stored record {i} of a tree, main damages, then {op:?}"), |c| one(c, i, Some(op)));
        }
    }
    closing(c);
    configs(c);
    funds(c);
}
fn one(c: &mut Ctx, i: usize, op: Option<P>) -> R {
    let (tpl, s, made, blocks) = stocked(c)?;
    let recs = records(&s, &|st| get(&tpl.join(st)))?;
    ensure!(recs.len() <= 28, "{} records", recs.len());
    let Some(bad) = recs.get(i).cloned() else {
        c.count("records_less_than_listed", 1);
        return Ok(());
    };
    let raw = get(&tpl.join(&bad.store))?[&bad.key].clone();
    let d = c.dir("x");
    for (how, now) in damages(&raw, op.is_none() || c.thorough()) {
        let what = format!("{} {}: {how}", bad.store, s8(&bad.key));
        copy_dir(&tpl, &d);
        set(&d, &bad, now.as_deref())?;
        let mut r = Run::open(d.clone(), s.clone())?;
        r.tag = 500;
        r.made = made.clone();
        r.blocks = blocks.clone();
        match op {
            None => ask(c, r.t.as_mut().unwrap(), &s, &made, &bad, now.as_deref(), &what)?,
            Some(op) => {
                if !attempt(c, &mut r, op, &bad, &how, &what)? {
                    c.count("carried_out_on_what_the_record_still_decodes_to", 1);
                    continue;
                }
            }
        }
        mend(&mut r, &bad, now.as_deref(), &raw, &what)?;
        r.compare(&format!("{what}: mended"))?;
        if op.is_none() {
            for op in [P::Block, P::DEmit(0), P::DEmit(1), P::Submit, P::Emit] {
                r.step(op).map_err(|e| Fail::from(format!("{what}: mended, then: {}", e.msg)))?;
            }
            r.compare(&format!("{what}: mended, going on"))?;
        }
        c.traces += 1;
        c.state(&(i, op, how));
    }
    Ok(())
}
/// the operation succeeds with its whole effect or fails without any (false: it was carried out
/// on what the record still decodes to)
fn attempt(c: &mut Ctx, r: &mut Run, op: P, bad: &Rec, how: &str, what: &str) -> Result<bool, Fail> {
    let Some(mut x) = r.plan(op)? else {
        c.count("steps_not_applicable", 1);
        return Ok(true);
    };
    c.transitions += 1;
    let t = r.t.as_mut().unwrap();
    match guard(|| (x.call)(t)) {
        Err(p) => return Err(format!("{what}: {op:?} {p}").into()),
        Ok(Ok(())) => {
            if reads(&r.s, op, bad) {
                let unreadable = match bad.store.as_str() {
                    "SUMMARY" | "GASSUMMARY" => how == "empty" || how.starts_with("cut"),
                    _ => how == "empty" || how == "gone" || how.starts_with("cut to 1 ") || how.starts_with("cut to 2 "),
                };
                ensure!(!unreadable, "{what}: {op:?} was carried out although it needs that record");
                return Ok(false);
            }
            r.s = x.next;
        }
        Ok(Err(e)) => {
            ensure!(needs(&r.s, op, bad), "{what}: {op:?} has nothing to do with that record but failed: {e}");
            c.count("answered_by_an_error", 1);
            if matches!(op, P::DEmit(o) | P::DAdd(o) if !r.s.own.contains_key(&o)) && reads(&r.s, op, bad) {
                // the chain may have been created on it
                return Ok(false);
            }
            // what was asked about exists now, on some paths
            if let P::DEmit(o) | P::DAdd(o) = op {
                if let Some(v) = x.via.first() {
                    if !r.s.own.contains_key(&o) && guard(|| r.t.as_mut().unwrap().get_derivative_chain(&owner(o)).is_ok())? {
                        r.s = v.clone();
                    }
                }
            }
        }
    }
    Ok(true)
}
/// does this operation depend on what the record says?
fn reads(s: &St, op: P, bad: &Rec) -> bool {
    match op {
        // the anchor is the last block of the main chain
        P::DGet(o) | P::DAdd(o) | P::DEmit(o) if !s.own.contains_key(&o) => main_tip(s, bad),
        // carries its block with it
        P::Block | P::DAdd(_) | P::DFlush(_) | P::DGet(_) => false,
        P::DEmit(o) if s.own.get(&o).is_some_and(|x| !x.1.v.is_empty()) => {
            let m = &s.own[&o].1;
            bad.store == format!("{}/BLOCKS", deriv(o)) && bad.key == be32(&(m.height() - 1))
        }
        P::DEmit(o) if s.own.contains_key(&o) => !main_tip(s, bad) && needs(s, op, bad),
        _ => needs(s, op, bad),
    }
}
/// puts the record back unless the operation replaced it
fn mend(r: &mut Run, bad: &Rec, now: Option<&[u8]>, raw: &[u8], what: &str) -> R {
    ok(&format!("{what}: flush"), guard(|| block_on(r.t.as_ref().unwrap().flush())))?;
    r.t = None;
    if get(&r.d.join(&bad.store))?.get(&bad.key).map(|v| v.as_slice()) == now {
        set(&r.d, bad, Some(raw))?;
    }
    r.reopen()
}

/// the end of an epoch
fn closing(c: &mut Ctx) {
    for (store, i) in [("SUMMARY", 0usize), ("SUMMARY", 1), ("SUMMARY", 2), ("GASSUMMARY", 1), ("MAIN/BLOCKS", 0)] {
        c.case(|| format!("closing an epoch with a damaged record in {store} ({i})"), |c| {
            let (tpl, s) = near_end(c, "tpl", 0)?;
            let bad = Rec { store: store.into(), key: if store == "MAIN/BLOCKS" { be32(&(s.main.height() - 1)).to_vec() } else { acct(i).to_vec() } };
            let raw = get(&tpl.join(store))?.get(&bad.key).cloned().ok_or("no such record")?;
            let d = c.dir("x");
            for (how, now) in damages(&raw, c.thorough()) {
                let what = format!("closing, {store} ({i}): {how}");
                copy_dir(&tpl, &d);
                set(&d, &bad, now.as_deref())?;
                let mut r = Run::open(d.clone(), s.clone())?;
                r.tag = 500;
                let before = r.s.main.height();
                let mut x = r.plan(P::Roll)?.ok_or("not at the end")?;
                let t = r.t.as_mut().unwrap();
                c.transitions += 1;
                match guard(|| (x.call)(t)) {
                    Err(p) => return Err(format!("{what}: {p}").into()),
                    Ok(Err(_)) => {
                        mend(&mut r, &bad, now.as_deref(), &raw, &what)?;
                        r.compare(&format!("{what}: refused, mended"))?;
                        ensure!(r.step(P::Roll)?, "not at the end");
                        patch_closing(&mut r)?;
                        r.compare(&format!("{what}: refused, mended, closed"))?;
                    }
                    Ok(Ok(())) => {
                        ensure!(store != "MAIN/BLOCKS" || now.is_some() && how.contains("too long"), "{what}: the epoch was closed on top of a block that cannot be read");
                        same!(r.t().get_main_chain().get_height(), before + 1, "{what}: height");
                    }
                }
                c.traces += 1;
                c.state(&(store, i, how));
            }
            Ok(())
        });
    }
}

/// the stand-alone funds
fn funds(c: &mut Ctx) {
    for x in [u(0), u(7), u(256), pow2(64), pow2(200) + u(5), U256::MAX] {
        c.case(|| format!("stand-alone funds, damaged record of {x}"), |c| {
            let raw = enc_u256(&x);
            for (how, now) in damages(&raw, true) {
                let what = format!("funds of {x}: {how}");
                let d = c.dir("funds");
                let db = ok("opening", reopen(|| sled::open(&d)))?;
                let f = blockchaintree::summary_db::SummaryDB::new(db.clone());
                ok("add_funds", guard(|| block_on(f.add_funds(&addr(1), &u(50)))))?;
                if let Some(v) = &now {
                    db.insert(addr(0), v.as_slice()).map_err(|e| Fail::from(e.to_string()))?;
                }
                let cut = how == "empty" || how.starts_with("cut");
                let n = now.as_deref().unwrap_or(&[0]);
                match guard(|| f.get_funds(&addr(0))).map_err(|p| format!("{what}: get_funds {p}"))? {
                    Ok(v) => {
                        let v = U256::from_dec_str(&v.to_string()).map_err(|e| Fail::from(format!("{what}: {e:?}")))?;
                        ensure!(n.starts_with(&enc_u256(&v)) || n[0] == 0 && v.is_zero(), "{what}: read as {v}");
                        ensure!(!cut || n.starts_with(&enc_u256(&v)), "{what}: read as {v}");
                    }
                    Err(_) => c.count("answered_by_an_error", 1),
                }
                for op in 0..2 {
                    let before = db.get(addr(0)).map_err(|e| Fail::from(e.to_string()))?;
                    let r = guard(|| block_on(async { if op == 0 { f.add_funds(&addr(0), &u(1)).await } else { f.decrease_funds(&addr(0), &u(1)).await } })).map_err(|p| format!("{what}: operation {op} {p}"))?;
                    if r.is_err() {
                        ensure!(db.get(addr(0)).map_err(|e| Fail::from(e.to_string()))? == before, "{what}: operation {op} failed but changed the record");
                    } else {
                        ensure!(!cut || op > 0, "{what}: a credit was given to a record that cannot be read");
                    }
                    c.transitions += 1;
                }
                same!(ok("get_funds", guard(|| f.get_funds(&addr(1))))?.to_string(), "50", "{what}: another account");
                c.traces += 1;
                c.state(&("funds", x.0, how));
            }
            Ok(())
        });
    }
}

/// configurations cut short
fn configs(c: &mut Ctx) {
    for which in 0..3usize {
        c.case(|| format!("configuration {which} cut to every length"), |c| {
            let (tpl, s, made, blocks) = stocked(c)?;
            let name = ["MAIN".into(), deriv(0), deriv(1)][which].clone();
            let d = c.dir("x");
            copy_dir(&tpl, &d);
            let p = d.join(&name).join("Chain.config");
            let raw = std::fs::read(&p).map_err(|e| Fail::from(e.to_string()))?;
            let wait = P::Block;
            for k in 0..raw.len() {
                copy_dir(&tpl, &d);
                std::fs::write(&p, &raw[..k]).map_err(|e| Fail::from(e.to_string()))?;
                let what = format!("configuration of {name} cut to {k} of {} bytes", raw.len());
                c.transitions += 1;
                if which == 0 {
                    refused(&format!("{what}: opening"), guard(|| BlockChainTree::new(d.to_str().unwrap()).map(|_| ())))?;
                    refused(&format!("{what}: opening again"), guard(|| BlockChainTree::new(d.to_str().unwrap()).map(|_| ())))?;
                } else {
                    let mut r = Run::open(d.clone(), s.clone())?;
                    r.tag = 500;
                    for _ in 0..2 {
                        refused(&format!("{what}: asking for the chain"), guard(|| r.t().get_derivative_chain(&owner(which - 1)).map(|_| ())))?;
                    }
                    let n = nonce(1);
                    refused(&format!("{what}: emitting on it"), guard(|| block_on(r.t().emmit_new_derivative_block(&n, &owner(which - 1), 1_800_000_000)).map(|_| ())))?;
                    // the rest is not affected, and stays so
                    ensure!(r.step(wait)?, "a block");
                    flush(r.t.as_ref().unwrap())?;
                }
                ensure!(std::fs::read(&p).map(|x| x == raw[..k]).unwrap_or(false), "{what}: the configuration was replaced");
                std::fs::write(&p, &raw).map_err(|e| Fail::from(e.to_string()))?;
                let mut r = Run::open(d.clone(), s.clone())?;
                r.tag = 500;
                r.made = made.clone();
                r.blocks = blocks.clone();
                if which > 0 {
                    // the same plan gives the same block
                    let x = r.plan(wait)?.ok_or("a block")?;
                    r.s = x.next;
                }
                r.compare(&format!("{what}: mended"))?;
                c.traces += 1;
                c.state(&(which, k));
            }
            Ok(())
        });
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C36",
        level: "fault_enumeration",
        run: c36,
        exhaustive: true,
        shards: 8,
        rule: "exhaustive enumeration of single damages to a stored tree: every record of every store removed, emptied, cut to every length, with every first byte, and lengthened; every configuration cut to every length; every question of the library asked, and every operation carried out under the main damages; answers compared with what is stored, the state after the record was put back compared with the model; states = damages and operations, transitions = calls",
        assumptions: &["the damage lies in one record's value or one configuration, not inside the storage library's own files, whose checksums are its own", "a damaged record that still decodes is what it decodes to"],
    }]
}

//! C01, C02, C03: ledger arithmetic, refusals, concurrency.
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum L {
    AddC(usize, U256),
    SubC(usize, U256),
    SetC(usize, U256),
    SendC(usize, usize, U256),
    AddG(usize, U256),
    SubG(usize, U256),
    SendG(usize, usize, U256),
    GetC(usize),
    GetG(usize),
}
use L::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
    pub c: Vec<U256>,
    pub g: Vec<U256>,
}
impl M {
    pub fn new(n: usize) -> M {
        M { c: vec![u(0); n], g: vec![u(0); n] }
    }
    /// Some(value read) if the operation can be honoured; the model is updated
    pub fn apply(&mut self, op: &L) -> Option<U256> {
        let z = U256::zero();
        match *op {
            AddC(a, x) => self.c[a] = self.c[a].checked_add(x)?,
            AddG(a, x) => self.g[a] = self.g[a].checked_add(x)?,
            SubC(a, x) => self.c[a] = self.c[a].checked_sub(x)?,
            SubG(a, x) => self.g[a] = self.g[a].checked_sub(x)?,
            SetC(a, x) => self.c[a] = x,
            SendC(a, b, x) => send(&mut self.c, a, b, x)?,
            SendG(a, b, x) => send(&mut self.g, a, b, x)?,
            GetC(a) => return Some(self.c[a]),
            GetG(a) => return Some(self.g[a]),
        }
        Some(z)
    }
}
fn send(v: &mut [U256], a: usize, b: usize, x: U256) -> Option<()> {
    if a == b {
        return Some(());
    }
    let f = v[a].checked_sub(x)?;
    let t = v[b].checked_add(x)?;
    v[a] = f;
    v[b] = t;
    Some(())
}

/// Outer Err: crash. Inner Err: refused.
pub fn apply(t: &BlockChainTree, ad: &[Addr], op: &L) -> Result<Result<U256, String>, String> {
    let z = U256::zero();
    guard(|| {
        match *op {
            AddC(a, x) => t.add_amount(&ad[a], x).map(|_| z),
            SubC(a, x) => t.sub_amount(&ad[a], x).map(|_| z),
            SetC(a, x) => t.set_amount(&ad[a], x).map(|_| z),
            SendC(a, b, x) => t.send_amount(&ad[a], &ad[b], x).map(|_| z),
            AddG(a, x) => t.add_gas(&ad[a], x).map(|_| z),
            SubG(a, x) => t.sub_gas(&ad[a], x).map(|_| z),
            SendG(a, b, x) => t.send_gas(&ad[a], &ad[b], x).map(|_| z),
            GetC(a) => t.get_amount(&ad[a]),
            GetG(a) => t.get_gas(&ad[a]),
        }
        .map_err(|e| short(&e))
    })
}

pub fn check_all(t: &BlockChainTree, ad: &[Addr], m: &M, what: &str) -> R {
    for (i, a) in ad.iter().enumerate() {
        let c = ok("get_amount", guard(|| t.get_amount(a)))?;
        same!(c, m.c[i], "coins of account {i} after {what}");
        let g = ok("get_gas", guard(|| t.get_gas(a)))?;
        same!(g, m.g[i], "gas of account {i} after {what}");
    }
    Ok(())
}

/// loads balances into (fresh) accounts; zero balances stay absent unless `touch`
fn load(t: &BlockChainTree, ad: &[Addr], m: &M) -> R {
    for (i, a) in ad.iter().enumerate() {
        if !m.c[i].is_zero() {
            ok("add_amount", guard(|| t.add_amount(a, m.c[i])))?;
        }
        if !m.g[i].is_zero() {
            ok("add_gas", guard(|| t.add_gas(a, m.g[i])))?;
        }
    }
    Ok(())
}

struct Bank {
    t: BlockChainTree,
    next: u64,
    dir: std::path::PathBuf,
    used: u64,
}
impl Bank {
    fn new(c: &Ctx) -> Bank {
        vsched::set_no_flusher(true);
        let dir = c.dir("bank");
        Bank { t: open_tree(&dir).unwrap_or_else(|e| panic!("{}", e.msg)), next: c.shard << 40, dir, used: 0 }
    }
    fn fresh(&mut self, n: usize) -> Vec<Addr> {
        self.used += n as u64;
        if self.used > 400_000 {
            // keep the store small: start over with a new tree
            let d = self.dir.with_extension(format!("{}", self.next));
            let old = std::mem::replace(&mut self.t, open_tree(&d).unwrap_or_else(|e| panic!("{}", e.msg)));
            drop(old);
            let _ = std::fs::remove_dir_all(&self.dir);
            self.dir = d;
            self.used = 0;
        }
        (0..n)
            .map(|_| {
                self.next += 1;
                addr(self.next)
            })
            .collect()
    }
}

fn around(v: &mut Vec<U256>, x: U256) {
    v.push(x);
    if let Some(y) = x.checked_sub(u(1)) {
        v.push(y)
    }
    if let Some(y) = x.checked_add(u(1)) {
        v.push(y)
    }
}

fn alphabet(vals: &[u64], full: bool) -> Vec<L> {
    let mut v = vec![];
    for &x in vals {
        let x = u(x);
        for a in 0..3 {
            v.push(AddC(a, x));
            v.push(SubC(a, x));
            if full {
                v.push(SetC(a, x));
            }
            v.push(AddG(a, x));
            v.push(SubG(a, x));
            for b in 0..3 {
                if full || a != 2 {
                    v.push(SendC(a, b, x));
                    v.push(SendG(a, b, x));
                }
            }
        }
    }
    v
}

/// one operation on the real ledger against the model, in the C01 reading:
/// whatever was reported as done must have exactly its effect
fn step(b: &BlockChainTree, ad: &[Addr], m: &mut M, op: &L, strict: bool) -> R {
    let mut m2 = m.clone();
    let exp = m2.apply(op);
    let r = match apply(b, ad, op) {
        Ok(r) => r,
        // how a refusal is reported is C02's subject; that it has no effect is seen in the balances
        Err(_) if exp.is_none() && !strict => return Ok(()),
        Err(p) => return Err(format!("{op:?} {p}").into()),
    };
    match (&r, exp) {
        (Ok(_), Some(_)) => *m = m2,
        (Err(_), None) => {}
        (Ok(_), None) => return Err(format!("{op:?} was accepted in {m:?} but cannot be honoured").into()),
        (Err(e), Some(_)) => return Err(format!("{op:?} was refused in {m:?} but can be honoured: {e}").into()),
    }
    if let (Ok(v), Some(x)) = (r, exp) {
        same!(v, x, "value returned by {op:?}");
    }
    Ok(())
}

fn c01(c: &mut Ctx) {
    let mut bank = Bank::new(c);
    // A: every (payer, payee, amount) at representation boundaries
    let vals = if c.thorough() { ints_dense() } else { ints_bytes() };
    for asset in 0..2 {
        for kind in 0..5 {
            for &b1 in &vals {
                c.case(|| format!("A asset={asset} kind={kind} balance={b1:#x}"), |c| {
                    let mut amts = if kind == 2 && !c.thorough() { ints_bytes() } else if c.thorough() { ints_bytes() } else { ints_dense() };
                    around(&mut amts, b1);
                    around(&mut amts, U256::MAX - b1);
                    amts.sort();
                    amts.dedup();
                    let b2s = if kind == 3 { ints_bytes().into_iter().step_by(if c.thorough() { 1 } else { 7 }).collect() } else { vec![u(7)] };
                    for b2 in b2s {
                        let ad = bank.fresh(2);
                        let mut m = M::new(2);
                        load(&bank.t, &ad, &{
                            if asset == 0 { m.c = vec![b1, b2]; m.g = vec![u(3), u(9)]; } else { m.g = vec![b1, b2]; m.c = vec![u(3), u(9)]; }
                            m.clone()
                        })?;
                        for &x in &amts {
                            let op = match (asset, kind) {
                                (0, 0) => AddC(0, x),
                                (0, 1) => SubC(0, x),
                                (0, 2) => SetC(0, x),
                                (0, 3) => SendC(0, 1, x),
                                (0, _) => SendC(0, 0, x),
                                (_, 0) => AddG(0, x),
                                (_, 1) => SubG(0, x),
                                (_, 2) => GetG(0),
                                (_, 3) => SendG(0, 1, x),
                                _ => SendG(0, 0, x),
                            };
                            let before = m.clone();
                            step(&bank.t, &ad, &mut m, &op, false)?;
                            c.transitions += 1;
                            c.state(&m);
                            check_all(&bank.t, &ad, &m, &format!("{op:?} in {before:?}"))?;
                            if before.clone().apply(&op).is_none() {
                                continue;
                            }
                            // back to the start state, through the reverse operation
                            let back = match op {
                                AddC(a, x) => SubC(a, x),
                                SubC(a, x) => AddC(a, x),
                                SetC(a, _) => SetC(a, b1),
                                SendC(a, b, x) if a != b => SendC(b, a, x),
                                AddG(a, x) => SubG(a, x),
                                SubG(a, x) => AddG(a, x),
                                SendG(a, b, x) if a != b => SendG(b, a, x),
                                _ => GetC(0),
                            };
                            step(&bank.t, &ad, &mut m, &back, false)?;
                            c.transitions += 1;
                            check_all(&bank.t, &ad, &m, &format!("{back:?} undoing {op:?}"))?;
                        }
                    }
                    c.traces += 1;
                    Ok(())
                });
            }
        }
    }
    // B: all operation sequences (no state merging)
    let (full, small) = (alphabet(&[1, 256], true), alphabet(&[1], false));
    seqs(c, &mut bank, "B2", &full, 2, false);
    seqs(c, &mut bank, "B3", &small, 3, false);
    if c.thorough() {
        seqs(c, &mut bank, "B3full", &full, 3, false);
        seqs(c, &mut bank, "B4", &alphabet(&[1], false)[..18].to_vec(), 4, false);
    }
    // C: isolation from addresses that differ in one byte, are prefixes, or permutations
    for pos in 0..33usize {
        for delta in [1u8, 0x80, 0xff] {
            c.case(|| format!("C neighbour byte {pos} ^ {delta:#x}"), |c| {
                let base = bank.fresh(1)[0];
                let mut n1 = base;
                n1[pos] ^= delta;
                let mut n2 = base;
                n2[32 - pos] ^= delta ^ 0x55;
                if n2 == n1 || n2 == base {
                    n2[0] ^= 0x11;
                }
                let ad = vec![base, n1, n2];
                let mut m = M::new(3);
                m.c = vec![u(1000), u(2000), u(3000)];
                m.g = vec![u(400), u(500), u(600)];
                load(&bank.t, &ad, &m)?;
                for op in alphabet(&[1, 300], true) {
                    step(&bank.t, &ad, &mut m, &op, false)?;
                    check_all(&bank.t, &ad, &m, &format!("{op:?}"))?;
                    c.transitions += 1;
                    c.state(&m);
                }
                // the named account as a shorter or longer byte string is another account
                for l in [0usize, 1, 16, 31, 32] {
                    ok("add_amount", guard(|| bank.t.add_amount(&base[..l], u(5))))?;
                    ok("add_gas", guard(|| bank.t.add_gas(&base[..l], u(5))))?;
                    check_all(&bank.t, &ad, &m, &format!("credit of the {l}-byte prefix"))?;
                    c.transitions += 2;
                }
                c.traces += 1;
                Ok(())
            });
        }
    }
    // names of any length are accounts of their own (only those of 33 bytes can be asked for)
    for l in [0usize, 1, 31, 32, 34, 64, 65, 66, 200] {
        for op1 in 0..7usize {
            c.case(|| format!("C names of 33 and {l} bytes, beginning with {op1}"), |c| {
                let t = &open_tree(&c.dir("names"))?;
                for rest in 0..49 {
                    let base = addr(rest as u64);
                    let odd: Vec<u8> = base.iter().cycle().take(l).copied().collect();
                    let mut m = [[u(0); 2]; 2];
                    let names: [&[u8]; 2] = [&base, &odd];
                    // the shortest names are shared by all histories: what they hold is emptied below
                    for (k, op) in [0, 5, op1, rest % 7, rest / 7].into_iter().enumerate() {
                        let (x, who) = (u(k as u64 * 3 + 5), k % 2);
                        let (a, b) = (names[who], names[1 - who]);
                        let gas = usize::from(op >= 4);
                        let (r, fits) = match op {
                            0 => (guard(|| t.add_amount(a, x)), true),
                            1 => (guard(|| t.sub_amount(a, x)), m[who][0] >= x),
                            2 => (guard(|| t.set_amount(a, x)), true),
                            3 => (guard(|| t.send_amount(a, b, x)), m[who][0] >= x),
                            4 => (guard(|| t.send_gas(a, b, x)), m[who][1] >= x),
                            5 => (guard(|| t.add_gas(a, x)), true),
                            _ => (guard(|| t.sub_gas(a, x)), m[who][1] >= x),
                        };
                        let what = format!("operation {op} by the name of {} bytes", a.len());
                        let r = r.map_err(|p| Fail::from(format!("{what} {p}")))?;
                        same!(r.is_ok(), fits, "{what}");
                        if fits {
                            match op {
                                0 | 5 => m[who][gas] = m[who][gas] + x,
                                2 => m[who][0] = x,
                                1 | 6 => m[who][gas] = m[who][gas] - x,
                                _ => {
                                    m[who][gas] = m[who][gas] - x;
                                    m[1 - who][gas] = m[1 - who][gas] + x;
                                }
                            }
                        }
                        same!(ok("get_amount", guard(|| t.get_amount(&base)))?, m[0][0], "coins after {what}");
                        same!(ok("get_gas", guard(|| t.get_gas(&base)))?, m[0][1], "gas after {what}");
                        c.transitions += 1;
                    }
                    c.state(&(l, op1, rest));
                    refused("more coins than the name holds", guard(|| t.sub_amount(&odd, m[1][0] + 1)))?;
                    refused("more gas than the name holds", guard(|| t.sub_gas(&odd, m[1][1] + 1)))?;
                    if !m[1][0].is_zero() {
                        ok("the coins the name holds", guard(|| t.sub_amount(&odd, m[1][0])))?;
                    }
                    if !m[1][1].is_zero() {
                        ok("the gas the name holds", guard(|| t.sub_gas(&odd, m[1][1])))?;
                    }
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
    // D: many accounts, every one checked after a round of cross transfers
    for n in c.pick(vec![300usize, 1500], vec![300, 1500, 20000]) {
        c.case(|| format!("D {n} accounts"), |c| {
            let ad = bank.fresh(n);
            let mut m = M::new(n);
            for i in 0..n {
                step(&bank.t, &ad, &mut m, &AddC(i, u(i as u64 * 257)), false)?;
                step(&bank.t, &ad, &mut m, &AddG(i, u(i as u64 * 3 + 1)), false)?;
            }
            for i in 0..n {
                let j = (i * 7 + 3) % n;
                step(&bank.t, &ad, &mut m, &SendC(i, j, u(i as u64 * 100)), false)?;
                step(&bank.t, &ad, &mut m, &SendG(j, i, u(1)), false)?;
                c.transitions += 2;
            }
            check_all(&bank.t, &ad, &m, "cross transfers")?;
            c.traces += 1;
            Ok(())
        });
    }
    // E: the root account's initial supply obeys the same rules
    c.case(|| "E root account".into(), |c| {
        let d = c.dir("root");
        let t = open_tree(&d)?;
        let ad = vec![sv::ROOT_PUBLIC_ADDRESS, addr(1)];
        let mut m = M::new(2);
        m.c[0] = *sv::COINS_PER_CYCLE;
        check_all(&t, &ad, &m, "opening")?;
        for op in [SendC(0, 1, *sv::MAIN_CHAIN_PAYMENT), SendC(0, 0, u(5)), SendC(1, 0, u(1)), AddG(0, u(4)), SendG(0, 1, u(4)), SubC(0, u(1)), AddC(0, u(2))] {
            step(&t, &ad, &mut m, &op, false)?;
            check_all(&t, &ad, &m, &format!("{op:?}"))?;
            c.transitions += 1;
        }
        Ok(())
    });
    vsched::set_no_flusher(true);
    crate::persist::single_faults(c, &[crate::persist::P::Coins, crate::persist::P::Spend, crate::persist::P::Gas, crate::persist::P::Drain, crate::persist::P::DrainGas]);
}

fn seqs(c: &mut Ctx, bank: &mut Bank, tag: &str, al: &[L], depth: usize, strict: bool) {
    // grouped by the first operation (and second, for balance of the shards)
    for (i, o1) in al.iter().enumerate() {
        for (j, o2) in al.iter().enumerate() {
            let _ = (i, j);
            c.case(|| format!("{tag} {o1:?} {o2:?} ..."), |c| {
                let mut idx = vec![0usize; depth - 2];
                loop {
                    let ad = bank.fresh(3);
                    let mut m = M::new(3);
                    let mut hist = vec![];
                    let ops: Vec<L> = [*o1, *o2].into_iter().chain(idx.iter().map(|k| al[*k])).collect();
                    for op in &ops {
                        hist.push(*op);
                        step(&bank.t, &ad, &mut m, op, strict).map_err(|e| Fail { key: e.key, msg: format!("{} (history {hist:?})", e.msg) })?;
                        c.transitions += 1;
                        if depth <= 3 || hist.len() == ops.len() {
                            check_all(&bank.t, &ad, &m, &format!("history {hist:?}"))?;
                        }
                    }
                    c.state(&m);
                    c.traces += 1;
                    let mut k = 0;
                    while k < idx.len() {
                        idx[k] += 1;
                        if idx[k] < al.len() {
                            break;
                        }
                        idx[k] = 0;
                        k += 1;
                    }
                    if k == idx.len() {
                        break;
                    }
                }
                Ok(())
            });
        }
    }
}

fn c02(c: &mut Ctx) {
    let mut bank = Bank::new(c);
    let vals = if c.thorough() { ints_dense() } else { ints_bytes() };
    for asset in 0..2 {
        for kind in 0..4 {
            for &b1 in &vals {
                c.case(|| format!("A asset={asset} kind={kind} balance={b1:#x}"), |c| {
                    let b2s: Vec<U256> = if kind == 2 { let mut v = ints_bytes().into_iter().step_by(if c.thorough() { 2 } else { 5 }).collect::<Vec<_>>(); around(&mut v, U256::MAX - b1); v } else { vec![u(7)] };
                    for b2 in b2s {
                        let mut amts: Vec<U256> = if kind == 2 { ints_bytes().into_iter().step_by(3).collect() } else { ints_bytes() };
                        around(&mut amts, b1);
                        around(&mut amts, U256::MAX - b1);
                        around(&mut amts, U256::MAX - b2);
                        amts.push(u(0));
                        amts.push(U256::MAX);
                        amts.sort();
                        amts.dedup();
                        let ad = bank.fresh(3);
                        let mut m0 = M::new(3);
                        if asset == 0 { m0.c = vec![b1, b2, u(11)]; m0.g = vec![u(3), u(0), u(12)] } else { m0.g = vec![b1, b2, u(11)]; m0.c = vec![u(3), u(0), u(12)] }
                        load(&bank.t, &ad, &m0)?;
                        for &x in &amts {
                            let op = match (asset, kind) {
                                (0, 0) => AddC(0, x),
                                (0, 1) => SubC(0, x),
                                (0, 2) => SendC(0, 1, x),
                                (0, _) => SendC(0, 0, x),
                                (_, 0) => AddG(0, x),
                                (_, 1) => SubG(0, x),
                                (_, 2) => SendG(0, 1, x),
                                _ => SendG(0, 0, x),
                            };
                            if kind == 3 && x > b1 {
                                continue; // an unaffordable transfer to oneself: "nothing changes" is all that is promised
                            }
                            let mut m = m0.clone();
                            step(&bank.t, &ad, &mut m, &op, true)?;
                            check_all(&bank.t, &ad, &m, &format!("{op:?} in {m0:?}"))?;
                            c.transitions += 1;
                            c.state(&(&m0, h64(&op)));
                            if m != m0 {
                                // restore
                                let back = match op {
                                    AddC(a, x) => SubC(a, x),
                                    SubC(a, x) => AddC(a, x),
                                    SendC(a, b, x) => SendC(b, a, x),
                                    AddG(a, x) => SubG(a, x),
                                    SubG(a, x) => AddG(a, x),
                                    SendG(a, b, x) => SendG(b, a, x),
                                    _ => unreachable!(),
                                };
                                step(&bank.t, &ad, &mut m, &back, true)?;
                                c.transitions += 1;
                            }
                        }
                        check_all(&bank.t, &ad, &m0, "all attempts undone")?;
                    }
                    c.traces += 1;
                    Ok(())
                });
            }
        }
    }
    // unaffordable self transfers change nothing and do not crash
    for (i, &b) in ints_bytes().iter().enumerate() {
        c.case(|| format!("self transfer beyond balance {i}"), |c| {
            let ad = bank.fresh(1);
            let mut m = M::new(1);
            m.c[0] = b;
            m.g[0] = b;
            load(&bank.t, &ad, &m)?;
            for x in [b.saturating_add(u(1)), U256::MAX] {
                for op in [SendC(0, 0, x), SendG(0, 0, x)] {
                    if let Err(p) = apply(&bank.t, &ad, &op) {
                        return Err(format!("{op:?} {p}").into());
                    }
                    check_all(&bank.t, &ad, &m, &format!("{op:?}"))?;
                    c.transitions += 1;
                }
            }
            Ok(())
        });
    }
    let (full, small) = (alphabet(&[1, 256], true), alphabet(&[1], false));
    let nos = |v: &[L]| v.iter().copied().filter(|o| !matches!(o, SendC(a, b, _) | SendG(a, b, _) if a == b)).collect::<Vec<_>>();
    seqs(c, &mut bank, "B2", &nos(&full), 2, true);
    seqs(c, &mut bank, "B3", &nos(&small), 3, true);
    if c.thorough() {
        seqs(c, &mut bank, "B3full", &nos(&full), 3, true);
    }
}

// ------------------------------------------------------------ concurrency

#[derive(Clone, Debug)]
pub struct Done {
    pub th: usize,
    pub start: usize,
    pub end: usize,
    pub op: usize,
}

/// Is there a one-at-a-time order, consistent with real time, that explains
/// all results?  `try_op(model, op index) -> Option<new model>` is None when the
/// recorded result does not fit.
pub fn linearizable<S: Clone>(ev: &[Done], s: &S, try_op: &dyn Fn(&S, usize) -> Option<S>, last: &dyn Fn(&S) -> bool) -> bool {
    fn go<S: Clone>(ev: &[Done], done: u32, s: &S, f: &dyn Fn(&S, usize) -> Option<S>, last: &dyn Fn(&S) -> bool) -> bool {
        if done.count_ones() as usize == ev.len() {
            return last(s);
        }
        for i in 0..ev.len() {
            if done >> i & 1 == 1 {
                continue;
            }
            // i may come next unless another pending operation finished before i began
            if (0..ev.len()).any(|j| done >> j & 1 == 0 && j != i && ev[j].end < ev[i].start) {
                continue;
            }
            if let Some(s2) = f(s, ev[i].op) {
                if go(ev, done | 1 << i, &s2, f, last) {
                    return true;
                }
            }
        }
        false
    }
    go(ev, 0, s, try_op, last)
}

pub struct Clock(std::sync::atomic::AtomicUsize);
impl Clock {
    pub fn new() -> Arc<Clock> {
        Arc::new(Clock(Default::default()))
    }
    pub fn tick(&self) -> usize {
        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
    }
}

type Res = Result<Result<U256, String>, String>;

pub struct SharedTree(pub BlockChainTree);
// all operations used here take &self
unsafe impl Sync for SharedTree {}
unsafe impl Send for SharedTree {}

fn conc(c: &mut Ctx, bank: &mut Arc<SharedTree>, next: &mut u64, init: &M, progs: &[Vec<L>], bound: usize) -> R {
    let tree = bank.clone();
    let n = init.c.len();
    let mut nx = *next;
    let mut traces = 0u64;
    let r = vsched::explore(bound, 200_000, &mut |prefix| {
        let ad: Arc<Vec<Addr>> = Arc::new((0..n).map(|_| { nx += 1; addr(nx) }).collect());
        load(&tree.0, &ad, init).map_err(|e| e.msg)?;
        let clock = Clock::new();
        let out: Arc<Mutex<Vec<(Done, L, Res)>>> = Arc::new(Mutex::new(vec![]));
        let mut bodies: Vec<vsched::Body> = vec![];
        for (th, ops) in progs.iter().enumerate() {
            let (tree, ad, clock, out, ops) = (tree.clone(), ad.clone(), clock.clone(), out.clone(), ops.clone());
            bodies.push(Box::new(move || {
                for op in &ops {
                    let start = clock.tick();
                    let r = apply(&tree.0, &ad, op);
                    let end = clock.tick();
                    let mut o = out.lock().unwrap();
                    let k = o.len();
                    o.push((Done { th, start, end, op: k }, *op, r));
                }
            }));
        }
        let x = vsched::run_once(bodies, prefix);
        if let Some(f) = &x.failed {
            return Err(format!("{f}; schedule {:?}", x.trace));
        }
        traces += 1;
        let o = out.lock().unwrap().clone();
        for (_, op, r) in &o {
            if let Err(p) = r {
                return Err(format!("{op:?} {p}; schedule {:?}", x.trace));
            }
        }
        let mut fin = M::new(n);
        for i in 0..n {
            fin.c[i] = tree.0.get_amount(&ad[i]).map_err(|e| short(&e))?;
            fin.g[i] = tree.0.get_gas(&ad[i]).map_err(|e| short(&e))?;
        }
        let ev: Vec<Done> = o.iter().map(|x| x.0.clone()).collect();
        let good = linearizable(
            &ev,
            init,
            &|m: &M, k| {
                let mut m2 = m.clone();
                match o[k].1 {
                    // beyond the balance: nothing happens, either answer is fine
                    SendC(a, b, x) if a == b && x > m.c[a] => return Some(m2),
                    SendG(a, b, x) if a == b && x > m.g[a] => return Some(m2),
                    _ => {}
                }
                let exp = m2.apply(&o[k].1);
                match (exp, o[k].2.as_ref().unwrap()) {
                    (Some(v), Ok(w)) if v == *w => Some(m2),
                    (None, Err(_)) => Some(m.clone()),
                    _ => None,
                }
            },
            &|m: &M| *m == fin,
        );
        if !good {
            return Err(format!("no serial order explains results {:?} and final {fin:?} from {init:?}; schedule {:?}", o.iter().map(|x| (x.0.th, x.1, &x.2)).collect::<Vec<_>>(), x.trace));
        }
        Ok(x)
    });
    *next = nx;
    let s = r.map_err(Fail::from)?;
    c.count("schedules", s.executions);
    c.count("scheduling_decisions", s.choice_points);
    c.max("decisions_per_schedule", s.max_depth as u64);
    if s.capped {
        c.count("capped", 1);
    }
    c.transitions += s.steps;
    c.traces += traces;
    Ok(())
}

fn c03(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let dir = c.dir("bank");
    let mut bank = Arc::new(SharedTree(open_tree(&dir).unwrap_or_else(|e| panic!("{}", e.msg))));
    let mut next = c.shard << 40;
    let mut init = M::new(2);
    init.c = vec![u(5), u(300)];
    init.g = vec![u(5), u(300)];
    let x = u(4);
    let ops = vec![AddC(0, x), SubC(0, x), SetC(0, x), SendC(0, 1, x), SendC(1, 0, u(256)), SendC(0, 0, x), GetC(0), GetC(1)];
    let gops = vec![AddG(0, x), SubG(0, x), SendG(0, 1, x), SendG(1, 0, u(256)), SendG(0, 0, x), GetG(0), GetG(1)];
    let mixed = vec![AddC(0, x), SubC(0, x), SendC(0, 1, x), AddG(0, x), SubG(0, x), SendG(0, 1, x)];
    let bound = c.pick(3, 8);
    for (name, al) in [("coins", &ops), ("gas", &gops), ("mixed", &mixed)] {
        // two threads, two operations each (first thread's program is enumerated fully)
        for a in al {
            for b in al {
                for p in al {
                    c.case(|| format!("2x2 {name} {a:?},{b:?} | {p:?},*"), |c| {
                        for q in al {
                            let progs = vec![vec![*a, *b], vec![*p, *q]];
                            c.state(&format!("{name}{progs:?}"));
                            conc(c, &mut bank, &mut next, &init, &progs, bound)?;
                        }
                        Ok(())
                    });
                }
            }
        }
        // three threads, one operation each
        for a in al {
            for b in al {
                c.case(|| format!("3x1 {name} {a:?} | {b:?} | *"), |c| {
                    for p in al {
                        let progs = vec![vec![*a], vec![*b], vec![*p]];
                        c.state(&format!("{name}{progs:?}"));
                        conc(c, &mut bank, &mut next, &init, &progs, bound)?;
                        // from an empty ledger too (absent accounts)
                        conc(c, &mut bank, &mut next, &M::new(2), &progs, bound)?;
                    }
                    Ok(())
                });
            }
        }
    }
    if c.thorough() {
        let al = vec![AddC(0, x), SubC(0, x), SendC(0, 1, x), SendC(1, 0, u(256)), GetC(0)];
        for a in &al {
            for b in &al {
                for p in &al {
                    for q in &al {
                        c.case(|| format!("3x2 {a:?},{b:?} | {p:?},{q:?} | *,*"), |c| {
                            for r in &al {
                                for s in &al {
                                    let progs = vec![vec![*a, *b], vec![*p, *q], vec![*r, *s]];
                                    c.state(&format!("{progs:?}"));
                                    conc(c, &mut bank, &mut next, &init, &progs, 2)?;
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // conservation over a longer three-thread run of transfers
    for k in 0..3usize {
        c.case(|| format!("conservation ring {k}"), |c| {
            let mut init = M::new(3);
            init.c = vec![u(10), u(10), u(10)];
            init.g = vec![u(10), u(10), u(10)];
            let progs: Vec<Vec<L>> = (0..3).map(|t| (0..2).map(|i| if (t + i + k) % 2 == 0 { SendC(t, (t + 1) % 3, u(6)) } else { SendG(t, (t + 2) % 3, u(6)) }).collect()).collect();
            conc(c, &mut bank, &mut next, &init, &progs, 2)
        });
    }
    ensure_used();
}
fn ensure_used() {
    let _ = |c: bool| -> R { ensure!(c, "x"); Ok(()) };
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", level: "model_checking", run: c01, exhaustive: true, shards: 8,
            rule: "explicit-state exploration of the real ledger against an exact-integer reference model: every operation at every representation boundary, every operation sequence up to the stated depth over three accounts, every one-byte address neighbour; a case is non-trivial when at least one accepted operation was executed and compared on all accounts and both assets; states = distinct (coins, gas) vectors reached, transitions = operations executed on the real ledger",
            assumptions: &["sled 0.34.7's transactions are atomic (its public operations are exercised, not re-verified)"] },
        Prop { id: "C02", level: "model_checking", run: c02, exhaustive: true, shards: 8,
            rule: "every ledger operation in every boundary state with amounts at, one below and one above each acceptance threshold, plus all operation sequences up to depth 3, refusals included; non-trivial = executed on the real ledger and all balances compared; transitions = operations executed",
            assumptions: &["an unaffordable transfer to oneself may be reported either way (nothing changes)"] },
        Prop { id: "C03", level: "model_checking", run: c03, exhaustive: true, shards: 8,
            rule: "stateless model checking: for every combination of thread programs over the operation alphabet, every schedule of storage-operation entries and lock acquisitions with at most B preemptions (3 quick, 8 thorough; all schedules for these program sizes when the bound exceeds their switch points); each execution is checked for linearizability against the exact ledger model; states = distinct program combinations, transitions = scheduler steps, traces = executions",
            assumptions: &["each public sled operation is atomic: schedules interleave at storage-operation and lock granularity, sequentially consistent memory"] },
    ]
}
#[allow(dead_code)]
fn unused() -> R {
    same!(1, 1, "x");
    Ok(())
}

//! C04, C05: transaction submission.
use crate::ledger::{linearizable, Clock, Done, SharedTree};
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub fn byte_price() -> U256 {
    u(625_000_000_000)
}

/// observable state of a set of accounts and transactions
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct S {
    pub c: Vec<U256>,
    pub g: Vec<U256>,
    pub rec: BTreeSet<usize>,
}

#[derive(Clone)]
pub struct T {
    pub from: usize,
    pub to: usize,
    pub amount: U256,
    pub size: usize,
    pub valid: bool,
}

impl S {
    /// the admission rule of the statement
    pub fn submit(&mut self, id: usize, t: &T, fee: U256) -> bool {
        let gas = byte_price() * U256::from(t.size);
        let need = match fee.checked_add(t.amount) {
            Some(x) => x,
            None => return false,
        };
        if !t.valid || self.rec.contains(&id) || self.g[t.from] < gas || self.c[t.from] < need {
            return false;
        }
        if t.from != t.to {
            match self.c[t.to].checked_add(t.amount) {
                None => return false,
                Some(x) => self.c[t.to] = x,
            }
            self.c[t.from] -= t.amount;
        }
        self.g[t.from] -= gas;
        self.rec.insert(id);
        true
    }
}

pub fn observe(t: &BlockChainTree, ad: &[Addr], txs: &[Transaction]) -> Result<S, Fail> {
    let mut s = S { c: vec![], g: vec![], rec: BTreeSet::new() };
    for a in ad {
        s.c.push(ok("get_amount", guard(|| t.get_amount(a)))?);
        s.g.push(ok("get_gas", guard(|| t.get_gas(a)))?);
    }
    let mc = t.get_main_chain();
    for (i, x) in txs.iter().enumerate() {
        let h = ref_hash(x);
        let there = ok("transaction_exists", guard(|| mc.transaction_exists(&h)))?;
        let got = ok("get_transaction", guard(|| mc.get_transaction(&h)))?;
        same!(got.is_some(), there, "presence of transaction {i}");
        if let Some(g) = got {
            same_tx(&g, x)?;
            s.rec.insert(i);
        }
    }
    Ok(s)
}
pub fn ref_dump(x: &Transaction) -> Vec<u8> {
    enc_tx(x.get_sender(), x.get_receiver(), x.get_timestamp(), x.get_signature(), Transaction::get_amount(x), x.get_data().unwrap_or(&[]))
}
pub fn ref_hash(x: &Transaction) -> H {
    sha(&[&ref_dump(x)])
}
pub fn same_tx(a: &Transaction, b: &Transaction) -> R {
    same!(hex(a.get_sender()), hex(b.get_sender()), "sender");
    same!(hex(a.get_receiver()), hex(b.get_receiver()), "receiver");
    same!(a.get_timestamp(), b.get_timestamp(), "timestamp");
    same!(hex(a.get_signature()), hex(b.get_signature()), "signature");
    same!(Transaction::get_amount(a), Transaction::get_amount(b), "amount");
    same!(a.get_data().unwrap_or(&[]), b.get_data().unwrap_or(&[]), "payload");
    Ok(())
}

pub fn set(t: &BlockChainTree, a: &Addr, c: U256, g: U256) -> R {
    ok("set_amount", guard(|| t.set_amount(a, c)))?;
    let old = ok("get_gas", guard(|| t.get_gas(a)))?;
    if old > g {
        ok("sub_gas", guard(|| t.sub_gas(a, old - g)))?;
    } else if old < g {
        ok("add_gas", guard(|| t.add_gas(a, g - old)))?;
    }
    Ok(())
}

fn tip(t: &BlockChainTree, d: u32) -> R {
    let mc = t.get_main_chain();
    let h = mc.get_height();
    let txs = vec![hh(d as u64)];
    let b: BlockArc = Arc::new(TransactionBlock::new(fee_of(d), info(1_700_000_000, hh(1), hh(2), h, diff(d), addr(1)), merkle(&txs), txs));
    ok("add_block", guard(|| mc.add_block(b)))
}

/// one submission against the model; the state of all accounts and transactions is compared
fn submit(t: &BlockChainTree, ad: &[Addr], txs: &[Transaction], m: &mut S, ts: &[T], i: usize, fee: U256, what: &dyn Fn() -> String) -> Result<bool, Fail> {
    let before = m.clone();
    let exp = m.submit(i, &ts[i], fee);
    let r = guard(|| t.send_transaction(&txs[i]));
    match r {
        Err(p) => return Err(format!("{}: submission {p}", what()).into()),
        Ok(Ok(())) if !exp => return Err(format!("{}: accepted, but must be refused in {before:?}", what()).into()),
        Ok(Err(e)) if exp => return Err(format!("{}: refused, but must be accepted in {before:?}: {}", what(), short(&e)).into()),
        _ => {}
    }
    let got = observe(t, ad, txs)?;
    same!(got, *m, "{}: state after {} submission from {before:?}", what(), if exp { "an accepted" } else { "a refused" });
    Ok(exp)
}

fn mk(k: &Key, to: &Addr, ts: u64, amount: U256, data: Option<Vec<u8>>, from: usize, toi: usize) -> (Transaction, T) {
    let x = tx(k, to, ts, amount, data);
    let size = ref_dump(&x).len();
    (x, T { from, to: toi, amount, size, valid: true })
}

fn c04(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let keys: Vec<Key> = (0..4).map(key).collect();
    let mut next = c.shard << 40;
    let mut fresh = move || {
        next += 1;
        addr(next)
    };
    let mut ts_next = c.shard << 40;
    let mut amounts = vec![u(0), u(1), u(255), u(256), u(62_499), u(1u64 << 32), U256::from(u64::MAX), pow2(64), pow2(127), pow2(248) - 1, pow2(248), U256::MAX - fee_of(257), U256::MAX - 1, U256::MAX];
    let lens: Vec<Option<usize>> = c.pick(vec![None, Some(1), Some(255), Some(1000)], vec![None, Some(0), Some(1), Some(31), Some(255), Some(256), Some(1000), Some(70_000)]);
    if c.thorough() {
        amounts = ints_bytes();
        amounts.push(U256::MAX - fee_of(256));
        amounts.push(U256::MAX - fee_of(1));
    }
    let tips: Vec<u32> = c.pick(vec![1, 2, 8, 9, 16, 100, 255, 256], (1..=256).collect());
    // E: payloads of every size: the gas threshold follows the encoded length
    {
        let mut tree: Option<BlockChainTree> = None;
        for len in ladder(c.pick(70_000, 1 << 20)) {
            c.case(|| format!("E payload of {len} bytes"), |c| {
                if tree.is_none() {
                    let t = open_tree(&c.dir("tip"))?;
                    tip(&t, 3)?;
                    tree = Some(t);
                }
                let t = tree.as_ref().unwrap();
                let fee = fee_of(3);
                let amount = u(300);
                let ad = vec![keys[0].pk, fresh(), keys[1].pk];
                for gi in 0..3 {
                    ts_next += 1;
                    let (x, mt) = mk(&keys[0], &ad[1], ts_next, amount, (len > 0).then(|| vec![0x5a; len]), 0, 1);
                    let req = byte_price() * U256::from(mt.size);
                    set(t, &ad[0], fee + amount, [req - 1, req, req + 1][gi])?;
                    let mut m = observe(t, &ad, std::slice::from_ref(&x))?;
                    let acc = submit(t, &ad, &[x], &mut m, &[mt], 0, fee, &|| format!("payload of {len} bytes, gas {:+} of the required {req}", gi as i64 - 1))?;
                    same!(acc, gi > 0, "payload of {len} bytes accepted");
                    c.transitions += 1;
                }
                c.state(&("E", len));
                Ok(())
            });
        }
    }
    // A: thresholds, at every tip difficulty
    for &d in &tips {
        let mut tree: Option<BlockChainTree> = None;
        for to_self in [false, true] {
            for len in &lens {
                c.case(|| format!("A tip width {d} self {to_self} payload {len:?}"), |c| {
                    if tree.is_none() {
                        let t = open_tree(&c.dir("tip"))?;
                        tip(&t, d)?;
                        tree = Some(t);
                    }
                    let t = tree.as_ref().unwrap();
                    let fee = fee_of(d);
                    for &amount in &amounts {
                        let need = fee.checked_add(amount);
                        let recv = fresh();
                        let sender = &keys[0];
                        let ad = if to_self { vec![sender.pk, keys[1].pk] } else { vec![sender.pk, recv, keys[1].pk] };
                        let toi = if to_self { 0 } else { 1 };
                        // coins around the threshold, gas around the threshold, receiver room
                        let mut coins = vec![u(0), U256::MAX];
                        if let Some(n) = need {
                            coins.extend([n, n.saturating_sub(u(1)), n.saturating_add(u(1)), amount, fee]);
                        } else {
                            coins.push(amount);
                        }
                        coins.sort();
                        coins.dedup();
                        let rooms: Vec<U256> = if to_self { vec![u(0)] } else { vec![u(0), u(7), U256::MAX - amount, (U256::MAX - amount).saturating_add(u(1))] };
                        for (ci, &cc) in coins.iter().enumerate() {
                            for gi in 0..5 {
                                for (ri, room) in rooms.iter().enumerate() {
                                    if ri > 1 && (gi != 1 || ci % 2 == 1) && !c.thorough() {
                                        continue;
                                    }
                                    ts_next += 1;
                                    let (x, mt) = mk(sender, &ad[toi], ts_next, amount, len.map(|n| vec![0x5a; n]), 0, toi);
                                    let req = byte_price() * U256::from(mt.size);
                                    let gas = [req - 1, req, req + 1, u(0), U256::MAX][gi];
                                    set(t, &ad[0], cc, gas)?;
                                    if !to_self {
                                        set(t, &ad[1], *room, u(5))?;
                                    }
                                    let mut m = observe(t, &ad, std::slice::from_ref(&x))?;
                                    same!((m.c[0], m.g[0]), (cc, gas), "prepared balances");
                                    let acc = submit(t, &ad, &[x], &mut m, &[mt], 0, fee, &|| format!("coins {cc} gas {gas} (required {req}) amount {amount} receiver {room}"))?;
                                    c.transitions += 1;
                                    c.state(&(d, to_self, len, amount, cc, gi, ri));
                                    c.count(if acc { "accepted" } else { "refused" }, 1);
                                }
                            }
                        }
                    }
                    c.traces += 1;
                    Ok(())
                });
            }
        }
    }
    // B: signature faults on an otherwise payable transaction
    for field in 0..8 {
        for bit in 0..8 {
            c.case(|| format!("B altered field {field} bit {bit}"), |c| {
                let t = open_tree(&c.dir("sig"))?;
                let (ka, kb) = (&keys[0], &keys[1]);
                let base = tx(ka, &kb.pk, 77, u(1000), Some(vec![1, 2, 3]));
                let (mut s, mut r, mut ts, mut sig, mut am, mut da) = (ka.pk, kb.pk, 77u64, *base.get_signature(), u(1000), vec![1u8, 2, 3]);
                match field {
                    0 => s = kb.pk,
                    1 => r[1 + bit * 4] ^= 1 << bit,
                    2 => ts ^= 1 << (bit * 8),
                    3 => sig[bit * 8] ^= 1 << bit,
                    4 => am = am ^ (U256::one() << (bit * 31)),
                    5 => da[bit % 3] ^= 1 << bit,
                    6 => da.push(bit as u8),
                    _ => s[32 - bit * 4] ^= 1 << bit,
                }
                let x = Transaction::new_signed(s, r, ts, am, Some(da), sig);
                let ad = vec![s, r, ka.pk, kb.pk];
                for a in &ad {
                    set(&t, a, pow2(250), pow2(250))?;
                }
                let before = observe(&t, &ad, std::slice::from_ref(&x))?;
                refused("a transaction whose signature does not match", guard(|| t.send_transaction(&x)))?;
                same!(observe(&t, &ad, std::slice::from_ref(&x))?, before, "state after the refusal");
                // and the untouched one goes through
                ok("send_transaction of the original", guard(|| t.send_transaction(&base)))?;
                c.transitions += 2;
                c.traces += 1;
                Ok(())
            });
        }
    }
    // C: repetition, in every way a transaction can have been recorded before
    for way in 0..5 {
        for reps in 1..4 {
            for reopen in [false, true] {
                c.case(|| format!("C recorded before by way {way}, submitted {reps} times, reopen {reopen}"), |c| {
                    let dir = c.dir("rep");
                    let mut t = open_tree(&dir)?;
                    let (ka, kb) = (&keys[0], &keys[1]);
                    let (x, mt) = mk(ka, &kb.pk, 5, u(10), Some(vec![9; 4]), 0, 1);
                    let (y, myt) = mk(ka, &kb.pk, 6, u(10), Some(vec![9; 4]), 0, 1);
                    let (txs, mts) = (vec![x.clone(), y], vec![mt, myt]);
                    let ad = vec![ka.pk, kb.pk];
                    set(&t, &ad[0], pow2(60), pow2(60))?;
                    set(&t, &ad[1], pow2(60), pow2(60))?;
                    let mut m = observe(&t, &ad, &txs)?;
                    let mc = t.get_main_chain();
                    match way {
                        0 => {
                            ok("send_transaction", guard(|| t.send_transaction(&x)))?;
                            m.submit(0, &mts[0], fee_of(1));
                        }
                        1 => { ok("add_transaction", guard(|| mc.add_transaction(&x)))?; m.rec.insert(0); }
                        2 => { ok("add_transactions", guard(|| mc.add_transactions(&[x.clone()])))?; m.rec.insert(0); }
                        3 => { ok("add_new_block", guard(|| t.add_new_block(tblock(u(1), 50), &[x.clone()])))?; m.rec.insert(0); }
                        _ => {
                            ok("send_transaction", guard(|| t.send_transaction(&txs[1])))?;
                            m.submit(1, &mts[1], fee_of(1));
                        }
                    }
                    if reopen {
                        flush(&t)?;
                        drop(mc);
                        drop(t);
                        t = open_tree(&dir)?;
                    }
                    for k in 0..reps {
                        submit(&t, &ad, &txs, &mut m, &mts, 0, fee_of(1), &|| format!("submission {k}"))?;
                        submit(&t, &ad, &txs, &mut m, &mts, 1, fee_of(1), &|| format!("submission {k} of the sibling"))?;
                        c.transitions += 2;
                    }
                    c.state(&m);
                    c.traces += 1;
                    Ok(())
                });
            }
        }
    }
    // D: all sequences over an alphabet of transactions between three accounts
    let depth = c.pick(3, 5);
    let f1 = fee_of(1);
    let specs: Vec<(usize, usize, U256)> = vec![(0, 1, u(1000)), (0, 1, f1), (1, 2, u(500)), (1, 0, u(1)), (2, 0, u(7)), (0, 0, u(3)), (2, 1, f1 * 2)];
    for first in 0..specs.len() {
        for second in 0..specs.len() {
            c.case(|| format!("D sequences {first} {second} ..."), |c| {
                let t = open_tree(&c.dir("seq"))?;
                let mut kn = 1000 + c.evaluations * 100_000;
                let n = specs.len();
                for rest in 0..n.pow(depth - 2) {
                    let mut seq = vec![first, second];
                    let mut r = rest;
                    for _ in 0..depth - 2 {
                        seq.push(r % n);
                        r /= n;
                    }
                    kn += 3;
                    let ks: Vec<Key> = (0..3).map(|i| key(kn + i)).collect();
                    let ad: Vec<Addr> = ks.iter().map(|k| k.pk).collect();
                    let mut txs = vec![];
                    let mut mts = vec![];
                    for (i, (f, to, am)) in specs.iter().enumerate() {
                        let (x, m) = mk(&ks[*f], &ad[*to], i as u64, *am, None, *f, *to);
                        txs.push(x);
                        mts.push(m);
                    }
                    let g = byte_price() * u(mts[0].size as u64);
                    set(&t, &ad[0], f1 * 2 + 1000, g * 3)?;
                    set(&t, &ad[1], f1 - 600, g * 2 + 1)?;
                    set(&t, &ad[2], f1 * 3, g * 2 - 1)?;
                    let mut m = observe(&t, &ad, &txs)?;
                    for &i in &seq {
                        let a = submit(&t, &ad, &txs, &mut m, &mts, i, f1, &|| format!("sequence {seq:?} at {i}"))?;
                        c.transitions += 1;
                        c.count(if a { "accepted" } else { "refused" }, 1);
                    }
                    c.state(&m);
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
    // F: unusual fields: none but the payment rule decides
    let keyed = |sk: H| {
        let s = secp256k1::SecretKey::from_slice(&sk).unwrap();
        Key { sk, pk: secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &s).serialize() }
    };
    let mut one = [0u8; 32];
    one[31] = 1;
    let mut last = secp256k1::constants::CURVE_ORDER;
    last[31] -= 1;
    let even = (0..).map(key).find(|k| k.pk[0] == 2).unwrap();
    let odd = (0..).map(key).find(|k| k.pk[0] == 3).unwrap();
    let senders = [keyed(one), keyed(last), even, odd];
    let times: Vec<u64> = {
        let mut v = vec![0u64, 1, 1000, (1 << 31) - 1, 1 << 31, u32::MAX as u64, 1 << 32, sv::INCEPTION_TIMESTAMP - 1, sv::INCEPTION_TIMESTAMP, sv::INCEPTION_TIMESTAMP + 1, i64::MAX as u64 - 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
        if c.thorough() {
            v.extend((0..64).flat_map(|b| [1u64 << b, (1 << b) + 1, !(1 << b)]));
            v.sort();
            v.dedup();
        }
        v
    };
    for (si, sender) in senders.iter().enumerate() {
        for (ri, rname) in ["zeros", "ones", "root", "sender's mirror", "no point", "bars", "another key", "sender"].iter().enumerate() {
            c.case(|| format!("F sender {si}, receiver {rname}: unusual times, amounts and payloads"), |c| {
                let t = open_tree(&c.dir("odd"))?;
                let mut recv = match ri {
                    0 => [0; 33],
                    1 => [0xff; 33],
                    2 => crate::model::ROOT,
                    4 => [4; 33],
                    5 => [b'|'; 33],
                    6 => key(99).pk,
                    _ => sender.pk,
                };
                if ri == 3 {
                    recv[0] ^= 1;
                }
                let ad = if ri == 7 { vec![sender.pk] } else { vec![sender.pk, recv] };
                let some = tx(sender, &recv, 5, u(1), None);
                let datas: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![0]), Some(vec![0; 32]), Some(vec![0xff; 32]), Some(b"|".to_vec()), Some(ref_dump(&some)), Some((0..=255).collect())];
                let fee = fee_of(1);
                for (ti, &ts) in times.iter().enumerate() {
                    for (di, data) in datas.iter().enumerate() {
                        for (ai, &amount) in [u(0), u(1), u(u64::MAX), pow2(128)].iter().enumerate() {
                            if ti > 1 && di > 1 && (ti + di) % 4 != ai && !c.thorough() {
                                continue;
                            }
                            let (x, mt) = mk(sender, &recv, ts, amount, data.clone(), 0, ad.len() - 1);
                            let txs = [x];
                            if ok("transaction_exists", guard(|| t.get_main_chain().transaction_exists(&ref_hash(&txs[0]))))? {
                                // no payload and an empty one are the same transaction
                                continue;
                            }
                            let req = byte_price() * U256::from(mt.size);
                            // just short of coins, just short of gas, then just enough of both
                            for (dc, dg) in [(1, 0), (0, 1), (0, 0)] {
                                set(&t, &ad[0], fee + amount - u(dc), req - u(dg))?;
                                let mut m = observe(&t, &ad, &txs)?;
                                let acc = submit(&t, &ad, &txs, &mut m, &[mt.clone()], 0, fee, &|| format!("time {ts} amount {amount} payload {di}, short of {dc} coins and {dg} gas"))?;
                                same!(acc, (dc, dg) == (0, 0), "accepted");
                                c.transitions += 1;
                            }
                            c.state(&("F", si, ri, ti, di, ai));
                        }
                    }
                }
                Ok(())
            });
        }
    }
    vsched::set_no_flusher(true);
    crate::persist::single_faults(c, &[crate::persist::P::Submit]);
}

// -------------------------------------------------------------------- C05

struct Scn {
    name: &'static str,
    /// starting coins / gas in units of (fee, gas of one transaction) plus an offset
    c: Vec<U256>,
    g: Vec<u64>,
    txs: Vec<(usize, usize, U256, u64)>,
    progs: Vec<Vec<usize>>,
}

fn conc(c: &mut Ctx, tree: &Arc<SharedTree>, kn: &mut u64, s: &Scn, bound: usize) -> R {
    let fee = fee_of(1);
    let mut nk = *kn;
    let mut traces = 0;
    let r = vsched::explore(bound, 400_000, &mut |prefix| {
        nk += 10;
        let ks: Vec<Key> = (0..s.c.len()).map(|i| key(nk + i as u64)).collect();
        let ad: Vec<Addr> = ks.iter().map(|k| k.pk).collect();
        let (mut txs, mut mts) = (vec![], vec![]);
        for (f, to, am, ts) in &s.txs {
            let (x, m) = mk(&ks[*f], &ad[*to], *ts, *am, None, *f, *to);
            txs.push(x);
            mts.push(m);
        }
        let g = byte_price() * u(mts[0].size as u64);
        for i in 0..ad.len() {
            set(&tree.0, &ad[i], s.c[i], g * u(s.g[i])).map_err(|e| e.msg)?;
        }
        let init = observe(&tree.0, &ad, &txs).map_err(|e| e.msg)?;
        let clock = Clock::new();
        let out: Arc<Mutex<Vec<(Done, usize, Result<bool, String>)>>> = Arc::new(Mutex::new(vec![]));
        let shared = Arc::new(txs);
        let mut bodies: Vec<vsched::Body> = vec![];
        for (th, ops) in s.progs.iter().enumerate() {
            let (tree, txs, clock, out, ops) = (tree.clone(), shared.clone(), clock.clone(), out.clone(), ops.clone());
            bodies.push(Box::new(move || {
                for op in ops {
                    let start = clock.tick();
                    let r = guard(|| tree.0.send_transaction(&txs[op]).is_ok());
                    let end = clock.tick();
                    let mut o = out.lock().unwrap();
                    let k = o.len();
                    o.push((Done { th, start, end, op: k }, op, r));
                }
            }));
        }
        let x = vsched::run_once(bodies, prefix);
        if let Some(f) = &x.failed {
            return Err(format!("{f}; schedule {:?}", x.trace));
        }
        traces += 1;
        let o = out.lock().unwrap().clone();
        for (_, op, r) in &o {
            if let Err(p) = r {
                return Err(format!("submission {op} {p}; schedule {:?}", x.trace));
            }
        }
        let fin = observe(&tree.0, &ad, &shared).map_err(|e| e.msg)?;
        let ev: Vec<Done> = o.iter().map(|x| x.0.clone()).collect();
        let good = linearizable(
            &ev,
            &init,
            &|m: &S, k| {
                let mut m2 = m.clone();
                let e = m2.submit(o[k].1, &mts[o[k].1], fee);
                (e == *o[k].2.as_ref().unwrap()).then_some(m2)
            },
            &|m: &S| *m == fin,
        );
        if !good {
            return Err(format!("no serial order explains accepted {:?} and final {fin:?} from {init:?}; schedule {:?}", o.iter().map(|x| (x.0.th, x.1, x.2.clone())).collect::<Vec<_>>(), x.trace));
        }
        Ok(x)
    });
    *kn = nk;
    let st = r.map_err(Fail::from)?;
    c.count("schedules", st.executions);
    c.count("scheduling_decisions", st.choice_points);
    c.max("decisions_per_schedule", st.max_depth as u64);
    if st.capped {
        c.count("capped", 1);
    }
    c.transitions += st.steps;
    c.traces += traces;
    Ok(())
}

fn c05(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let dir = c.dir("bank");
    let tree = Arc::new(SharedTree(open_tree(&dir).unwrap_or_else(|e| panic!("{}", e.msg))));
    let mut kn = c.shard << 40;
    let f = fee_of(1);
    let a = u(1000);
    let mut scn: Vec<Scn> = vec![];
    // programs over: 0: A->B, 1: A->C, 2: A->B (same amount, other time), 3: B->C (needs A's money), 4: C->A, 5: A->A
    let txs = vec![(0, 1, a, 1), (0, 2, a, 1), (0, 1, a, 2), (1, 2, a, 1), (2, 0, a, 1), (0, 0, a, 3)];
    let starts: Vec<(&'static str, Vec<U256>, Vec<u64>)> = vec![
        ("one affordable (coins)", vec![f + a, f, f * 9], vec![9, 9, 9]),
        ("one affordable (gas)", vec![f * 9, f, f * 9], vec![1, 9, 9]),
        ("two affordable (coins)", vec![f + a * 2, f, f * 9], vec![9, 9, 9]),
        ("plenty", vec![f * 9, f * 9, f * 9], vec![9, 9, 9]),
        ("receiver nearly full", vec![f * 9, U256::MAX - a, f * 9], vec![9, 9, 9]),
    ];
    let two: Vec<Vec<Vec<usize>>> = {
        let mut v = vec![];
        for x in 0..6usize {
            for y in x..6 {
                v.push(vec![vec![x], vec![y]]);
            }
        }
        for x in 0..6usize {
            for y in 0..6 {
                v.push(vec![vec![x, 3], vec![y]]);
                if c.thorough() {
                    v.push(vec![vec![x, y], vec![y, x]]);
                }
            }
        }
        v
    };
    let three: Vec<Vec<Vec<usize>>> = if c.thorough() {
        let mut v = vec![];
        for x in 0..6usize {
            for y in x..6 {
                for z in y..6 {
                    v.push(vec![vec![x], vec![y], vec![z]]);
                }
            }
        }
        v
    } else {
        vec![vec![vec![0], vec![0], vec![0]], vec![vec![0], vec![1], vec![2]], vec![vec![0], vec![3], vec![4]], vec![vec![0], vec![0], vec![3]], vec![vec![1], vec![5], vec![4]]]
    };
    for (name, cs, gs) in &starts {
        for p in &two {
            scn.push(Scn { name, c: cs.clone(), g: gs.clone(), txs: txs.clone(), progs: p.clone() });
        }
        for p in &three {
            scn.push(Scn { name, c: cs.clone(), g: gs.clone(), txs: txs.clone(), progs: p.clone() });
        }
    }
    let b2 = c.pick(3, 12);
    for s in &scn {
        c.case(|| format!("{} {:?}", s.name, s.progs), |c| {
            c.state(&(s.name, &s.progs));
            let n: usize = s.progs.len();
            conc(c, &tree, &mut kn, s, if n > 2 { if c.thorough() { 3 } else { 2 } } else { b2 })
        });
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C04", level: "model_checking", run: c04, exhaustive: true, shards: 8,
            rule: "every combination of tip difficulty, amount class, payload length, self/other receiver with coins and gas at, one below and one above the threshold (plus 0 and maximum) and receiver room at and beyond its limit; every kind of signature fault; every way of having been recorded before; all sequences of the stated depth over seven transactions between three accounts; each submission is judged by an independent admission model and the complete observable state is compared; states = distinct (parameter class / final state), transitions = submissions executed",
            assumptions: &["SHA-256 and ECDSA hardness", "a transfer the receiver's balance cannot represent counts as not payable"] },
        Prop { id: "C05", level: "model_checking", run: c05, exhaustive: true, shards: 8,
            rule: "stateless model checking: for every scenario (start balances x thread programs of submissions) every schedule of storage-operation entries and lock waits with at most B preemptions; results, balances and recorded set of every execution must be explained by a one-at-a-time order consistent with real time; states = scenarios, transitions = scheduler steps, traces = executions",
            assumptions: &["each public sled operation is atomic; sequentially consistent memory"] },
    ]
}
#[allow(dead_code)]
fn unused() -> R {
    ensure!(true, "x");
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    Ok(())
}

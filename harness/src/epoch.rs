//! C17 epoch rollover, C21 crash during rollover.
use crate::chainx::{emit_main, tuples, Attempt};
use crate::fsx;
use crate::model::*;
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

/// coins and gas of every account that holds any
pub type Led = BTreeMap<Vec<u8>, (U256, U256)>;

fn dec(v: &[u8]) -> Result<U256, Fail> {
    let n = *v.first().ok_or("empty balance record")? as usize;
    ensure!(n <= 32 && v.len() > n, "balance record {} is not a number", hex(v));
    Ok(U256::from_big_endian(&v[1..1 + n]))
}
/// all records of a (closed) store
pub fn store(d: &Path, name: &str) -> Result<BTreeMap<Vec<u8>, U256>, Fail> {
    let p = d.join(name);
    ensure!(p.is_dir(), "there is no store {name}");
    let db = ok("opening a balance store", reopen(|| sled::open(&p)))?;
    let mut m = BTreeMap::new();
    for r in db.iter() {
        let (k, v) = r.map_err(|e| Fail::from(format!("reading store {name}: {e}")))?;
        m.insert(k.to_vec(), dec(&v)?);
    }
    Ok(m)
}
/// number of records of a closed store
pub fn store_len(p: &Path) -> Result<usize, Fail> {
    ensure!(p.is_dir(), "there is no store {p:?}");
    let db = ok("opening a store", reopen(|| sled::open(p)))?;
    Ok(db.len())
}
fn join(c: BTreeMap<Vec<u8>, U256>, g: BTreeMap<Vec<u8>, U256>) -> Led {
    let mut l = Led::new();
    for (k, v) in c {
        l.entry(k).or_default().0 = v;
    }
    for (k, v) in g {
        l.entry(k).or_default().1 = v;
    }
    l.retain(|_, v| *v != (U256::zero(), U256::zero()));
    l
}
/// the previous epoch's snapshot of a closed tree
pub fn snap(d: &Path) -> Result<Led, Fail> {
    Ok(join(store(d, sv::OLD_AMOUNT_SUMMARY)?, store(d, sv::OLD_GAS_SUMMARY)?))
}
/// the balances of a closed tree
pub fn ledger(d: &Path) -> Result<Led, Fail> {
    Ok(join(store(d, sv::AMOUNT_SUMMARY)?, store(d, sv::GAS_SUMMARY)?))
}
pub fn show(l: &Led) -> String {
    let v: Vec<String> = l.iter().map(|(k, v)| format!("{}:{}/{}", s8(k), v.0, v.1)).collect();
    if v.len() > 8 { format!("{} accounts {}..", v.len(), v[..8].join(" ")) } else { v.join(" ") }
}
pub fn same_led(a: &Led, b: &Led, what: &str) -> R {
    if a != b {
        let d: Vec<String> = a
            .keys()
            .chain(b.keys())
            .collect::<BTreeSet<_>>()
            .into_iter()
            .filter(|k| a.get(*k) != b.get(*k))
            .take(4)
            .map(|k| format!("{}: {:?} instead of {:?}", s8(k), a.get(k), b.get(k)))
            .collect();
        return Err(format!("{what}: {}", d.join("; ")).into());
    }
    Ok(())
}
/// balances through the interface, of the accounts named
pub fn view(t: &BlockChainTree, ad: &[Addr]) -> Result<Led, Fail> {
    let mut l = Led::new();
    for a in ad {
        let x = (ok("get_amount", guard(|| t.get_amount(a)))?, ok("get_gas", guard(|| t.get_gas(a)))?);
        if x != (U256::zero(), U256::zero()) {
            l.insert(a.to_vec(), x);
        }
    }
    Ok(l)
}

/// what is entered for an account: None nothing, Some(0) an explicit zero
type Ent = (Option<U256>, Option<U256>);
fn enter(t: &BlockChainTree, a: &Addr, e: &Ent) -> R {
    if let Some(x) = e.0 {
        ok("set_amount", guard(|| t.set_amount(a, x)))?;
    }
    if let Some(x) = e.1 {
        if x.is_zero() {
            ok("add_gas", guard(|| t.add_gas(a, u(5))))?;
            ok("sub_gas", guard(|| t.sub_gas(a, u(5))))?;
        } else {
            ok("add_gas", guard(|| t.add_gas(a, x)))?;
        }
    }
    Ok(())
}
fn put(l: &mut Led, a: &Addr, e: &Ent) {
    let v = l.entry(a.to_vec()).or_default();
    if let Some(x) = e.0 {
        v.0 = x
    }
    if let Some(x) = e.1 {
        v.1 = x
    }
    if *v == (U256::zero(), U256::zero()) {
        l.remove(&a.to_vec());
    }
}
pub fn fresh_led() -> Led {
    Led::from([(ROOT.to_vec(), (cycle(), U256::zero()))])
}
pub fn after_close(l: &Led) -> Led {
    let mut l = l.clone();
    l.entry(ROOT.to_vec()).or_default().0 = cycle();
    l
}
const TS: u64 = 1_700_000_000;

/// Emits the closing block on an open tree at an epoch's end; returns its root.
fn close(t: &mut BlockChainTree, m: &mut Idx, what: &str) -> Result<H, Fail> {
    let tip = m.v.last().unwrap().clone();
    let n = mine(&tip.hash, &tip.d(), &[], true).ok_or("no nonce")?;
    emit_main(t, m, &Attempt { txs: &[], nonce: n, founder: addr(5), ts: tip.ts() + 600 }, &|| what.to_string())?;
    Ok(m.v.last().unwrap().b.get_merkle_root())
}
/// One rollover from a copy of the template; every claim about balances and snapshot checked.
/// Returns the root of the closing block.
fn rollover(c: &Ctx, tpl: &Path, tip: &Blk, es: &[(Addr, Ent)], base: &Led, what: &str) -> Result<(H, Led), Fail> {
    let d = c.dir("x");
    copy_dir(tpl, &d);
    let mut led = base.clone();
    let ad: Vec<Addr> = es.iter().map(|e| e.0).chain([ROOT, addr(77)]).collect();
    let root;
    let after;
    {
        let mut t = open_tree(&d)?;
        for (a, e) in es {
            enter(&t, a, e)?;
            put(&mut led, a, e);
        }
        if es.len() < 50 {
            same_led(&view(&t, &ad)?, &led, &format!("{what}: balances before"))?;
        }
        let mut m = Idx { base: tip.h(), v: vec![tip.clone()] };
        root = close(&mut t, &mut m, what)?;
        after = after_close(&led);
        same_led(&view(&t, &ad)?, &after, &format!("{what}: balances after"))?;
        flush(&t)?;
    }
    same_led(&ledger(&d)?, &after, &format!("{what}: balances stored after"))?;
    same_led(&snap(&d)?, &led, &format!("{what}: snapshot"))?;
    Ok((root, led))
}
/// distinct balances must have distinct roots
fn commits(seen: &mut HashMap<H, Led>, root: H, led: Led, what: &str) -> R {
    if let Some(o) = seen.get(&root) {
        ensure!(*o == led, "{what}: the root {} commits to [{}] and also to [{}]", s8(&root), show(&led), show(o));
    }
    seen.insert(root, led);
    Ok(())
}
fn template(d: &Path, epoch: u64) -> Result<Blk, Fail> {
    tree_with_tip(d, epoch * EPOCH, 1, TS)
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum O {
    Roll,
    Ord,
    Bad,
    Send,
    Gas,
    New,
    Empty,
    Reopen,
    Spend,
}
const OPS: [O; 9] = [O::Roll, O::Ord, O::Bad, O::Send, O::New, O::Empty, O::Gas, O::Reopen, O::Spend];

struct W {
    d: PathBuf,
    t: Option<BlockChainTree>,
    m: Idx,
    led: Led,
    snap: Led,
    epoch: u64,
    new: u64,
    ad: Vec<Addr>,
}
impl W {
    fn open(d: PathBuf, tpl: &Path, tip: &Blk) -> Result<W, Fail> {
        copy_dir(tpl, &d);
        let t = open_tree(&d)?;
        let mut led = fresh_led();
        for (i, e) in [(u(700), u(40)), (u(0), u(9)), (u(3), u(0))].iter().enumerate() {
            let e = (Some(e.0), Some(e.1));
            enter(&t, &addr(i as u64 + 1), &e)?;
            put(&mut led, &addr(i as u64 + 1), &e);
        }
        Ok(W { d, t: Some(t), m: Idx { base: tip.h(), v: vec![tip.clone()] }, led, snap: Led::new(), epoch: 1, new: 0, ad: vec![ROOT, addr(1), addr(2), addr(3)] })
    }
    fn t(&mut self) -> &mut BlockChainTree {
        self.t.as_mut().unwrap()
    }
    fn closed(&mut self, what: &str) -> R {
        flush(self.t())?;
        self.t = None;
        same_led(&snap(&self.d)?, &self.snap, &format!("{what}: snapshot"))?;
        same_led(&ledger(&self.d)?, &self.led, &format!("{what}: balances stored"))?;
        Ok(())
    }
    fn opened(&mut self) -> R {
        self.t = Some(open_tree(&self.d)?);
        Ok(())
    }
    fn bad(&mut self, what: &str) -> R {
        let tip = self.m.v.last().unwrap().clone();
        let closing = ((tip.h() + 1) % u(EPOCH)).is_zero();
        // right nonce for the wrong kind of list, wrong nonce for the right one
        let (l1, l2): (Vec<H>, Vec<H>) = if closing { (vec![hh(1)], vec![]) } else { (vec![], vec![hh(1)]) };
        let n1 = mine(&tip.hash, &tip.d(), &l1, true).unwrap();
        let n2 = mine(&tip.hash, &tip.d(), &l2, false);
        let mut m = std::mem::take(&mut self.m);
        let r = (|| {
            emit_main(self.t(), &mut m, &Attempt { txs: &l1, nonce: n1, founder: addr(5), ts: tip.ts() + 1 }, &|| format!("{what} (refused)"))?;
            if let Some(n2) = n2 {
                emit_main(self.t(), &mut m, &Attempt { txs: &l2, nonce: n2, founder: addr(5), ts: tip.ts() + 1 }, &|| format!("{what} (refused)"))?;
            }
            Ok(())
        })();
        self.m = m;
        r
    }
    fn ord(&mut self, what: &str) -> R {
        let tip = self.m.v.last().unwrap().clone();
        if ((tip.h() + 1) % u(EPOCH)).is_zero() {
            return Ok(()); // only a closing block may follow
        }
        let txs = vec![hh(self.m.v.len() as u64)];
        let n = mine(&tip.hash, &tip.d(), &txs, true).unwrap();
        let mut m = std::mem::take(&mut self.m);
        let r = emit_main(self.t(), &mut m, &Attempt { txs: &txs, nonce: n, founder: addr(6), ts: tip.ts() + 601 }, &|| what.to_string());
        self.m = m;
        r.map(|_| ())
    }
    /// brings the chain to the end of the current epoch
    fn forward(&mut self, what: &str) -> R {
        let tip = self.m.v.last().unwrap().clone();
        if ((tip.h() + 1) % u(EPOCH)).is_zero() {
            return Ok(());
        }
        self.closed(what)?;
        let top = self.epoch * EPOCH;
        craft_height(&self.d, top - 1)?;
        self.opened()?;
        let mut m = Idx { base: u(top - 1), v: vec![] };
        crate::chainx::put_tip(self.t(), &mut m, diff(1), tip.ts() + 1)?;
        self.m = m;
        Ok(())
    }
    fn step(&mut self, o: O, what: &str) -> R {
        let bal = |l: &Led, a: &Addr| l.get(&a.to_vec()).copied().unwrap_or_default();
        match o {
            O::Roll => {
                self.forward(what)?;
                self.bad(what)?;
                let mut m = std::mem::take(&mut self.m);
                let r = close(self.t(), &mut m, what);
                self.m = m;
                r?;
                self.epoch += 1;
                self.snap = self.led.clone();
                self.led = after_close(&self.led);
            }
            O::Ord => self.ord(what)?,
            O::Bad => self.bad(what)?,
            O::Send => {
                let (a, b) = (addr(1), addr(2));
                let x = bal(&self.led, &a).0.min(u(7));
                ok("send_amount", guard(|| self.t().send_amount(&a, &b, x)))?;
                let (n, mm) = (bal(&self.led, &a).0 - x, bal(&self.led, &b).0 + x);
                put(&mut self.led, &a, &(Some(n), None));
                put(&mut self.led, &b, &(Some(mm), None));
            }
            O::Gas => {
                let (a, b) = (addr(1), addr(3));
                let x = bal(&self.led, &a).1.min(u(11));
                ok("send_gas", guard(|| self.t().send_gas(&a, &b, x)))?;
                let (n, mm) = (bal(&self.led, &a).1 - x, bal(&self.led, &b).1 + x);
                put(&mut self.led, &a, &(None, Some(n)));
                put(&mut self.led, &b, &(None, Some(mm)));
            }
            O::New => {
                self.new += 1;
                let a = addr(100 + self.new);
                let (co, g) = (u(self.new), u(3 * self.new));
                ok("add_amount", guard(|| self.t().add_amount(&a, co)))?;
                ok("add_gas", guard(|| self.t().add_gas(&a, g)))?;
                put(&mut self.led, &a, &(Some(co), Some(g)));
                self.ad.push(a);
            }
            O::Empty => {
                let a = addr(1);
                let (co, g) = bal(&self.led, &a);
                ok("sub_amount", guard(|| self.t().sub_amount(&a, co)))?;
                ok("sub_gas", guard(|| self.t().sub_gas(&a, g)))?;
                put(&mut self.led, &a, &(Some(u(0)), Some(u(0))));
            }
            O::Spend => {
                let a = addr(2);
                let x = bal(&self.led, &ROOT).0 / 3;
                ok("send_amount", guard(|| self.t().send_amount(&ROOT, &a, x)))?;
                let (n, mm) = (bal(&self.led, &ROOT).0 - x, bal(&self.led, &a).0 + x);
                put(&mut self.led, &ROOT, &(Some(n), None));
                put(&mut self.led, &a, &(Some(mm), None));
            }
            O::Reopen => {
                self.closed(what)?;
                self.opened()?;
            }
        }
        let (ad, led) = (self.ad.clone(), self.led.clone());
        same_led(&view(self.t(), &ad)?, &led, &format!("{what}: balances"))
    }
}

fn c17(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    let tpl = c.dir("tpl");
    let tip = template(&tpl, 1).unwrap_or_else(|e| panic!("{}", e.msg));
    let base = fresh_led();
    // every ledger over two accounts, addresses chosen to be confusable
    let mut fams: Vec<(&str, [Addr; 2])> = vec![("unrelated", [addr(1), addr(2)])];
    let mut p = [b'|'; 33];
    let q = p;
    p[32] = 1;
    fams.push(("bars", [q, p]));
    fams.push(("extreme", [[0; 33], [0xff; 33]]));
    let mut b = ROOT;
    b[32] ^= 1;
    let mut b2 = ROOT;
    b2[0] ^= 1;
    fams.push(("close to the root account", [b, b2]));
    let big = pow2(255) + u(1);
    let opts: Vec<Option<U256>> = c.pick(vec![None, Some(u(0)), Some(u(1)), Some(u(0x017c))], vec![None, Some(u(0)), Some(u(1)), Some(u(0x017c)), Some(big), Some(u(256))]);
    let roots: Vec<Ent> = vec![(None, None), (Some(u(0)), None), (Some(u(1)), Some(u(1)))];
    for (fname, f) in &fams {
        for r in &roots {
            for half in 0..2 {
                // halves share the fixed part and differ in which account varies fully
                c.case(|| format!("{fname} accounts, root account {r:?}: every ledger, part {half}"), |c| {
                    let mut seen = HashMap::new();
                    for a0 in &opts {
                        for a1 in &opts {
                            for b0 in &opts {
                                for b1 in &opts {
                                    // part 0: account A complete, B diagonal; part 1 the other way; thorough: everything
                                    if !c.thorough() && (if half == 0 { b0 != b1 } else { a0 != a1 }) {
                                        continue;
                                    }
                                    if c.thorough() && half == 1 {
                                        continue;
                                    }
                                    let es = [(f[0], (*a0, *a1)), (f[1], (*b0, *b1)), (ROOT, *r)];
                                    let w = format!("accounts {es:?}").chars().take(200).collect::<String>();
                                    let (root, led) = rollover(c, &tpl, &tip, &es, &base, &w)?;
                                    c.state(&led);
                                    c.transitions += 1;
                                    commits(&mut seen, root, led, &w)?;
                                }
                            }
                        }
                    }
                    c.traces += 1;
                    Ok(())
                });
            }
        }
    }
    // every single change to a ledger of n accounts changes the root; the order of entering does not
    let ns: Vec<u64> = c.pick((0..=17).chain([31, 32, 33]).collect(), (0..=40).chain([63, 64, 65, 127, 128, 129]).collect());
    for n in ns {
        c.case(|| format!("{n} accounts: every single change of a balance"), |c| {
            let es: Vec<(Addr, Ent)> = (0..n).map(|i| (addr(i), (Some(u(1000 + i)), (i % 3 != 0).then(|| u(50 + i))))).collect();
            let mut seen = HashMap::new();
            let (r0, l0) = rollover(c, &tpl, &tip, &es, &base, &format!("{n} accounts"))?;
            commits(&mut seen, r0, l0.clone(), "unchanged")?;
            let mut rev = es.clone();
            rev.reverse();
            let (r1, _) = rollover(c, &tpl, &tip, &rev, &base, "entered in reverse")?;
            same!(hex(&r1), hex(&r0), "root of the same {n} balances entered in reverse order");
            for i in 0..n as usize {
                for k in 0..4 {
                    let mut e = es.clone();
                    match k {
                        0 => e[i].1 .0 = Some(u(1001 + i as u64)),
                        1 => e[i].1 .1 = Some(u(51 + i as u64)),
                        2 => e[i].1 = (Some(u(0)), e[i].1 .1),
                        _ => { e.remove(i); }
                    }
                    let w = format!("{n} accounts, account {i} changed in way {k}");
                    let (r, l) = rollover(c, &tpl, &tip, &e, &base, &w)?;
                    commits(&mut seen, r, l, &w)?;
                    c.transitions += 1;
                }
            }
            c.state(&("n", n));
            c.traces += 1;
            Ok(())
        });
    }
    // two closings: what the older snapshot held never shows in the newer
    let kinds: Vec<Option<U256>> = vec![None, Some(u(0)), Some(u(1)), Some(big)];
    let accts: Vec<Addr> = c.pick(vec![addr(1)], vec![addr(1), addr(2)]);
    let n1 = kinds.len().pow(2);
    for first in 0..n1 {
        for root in [None, Some(u(0))] {
            c.case(|| format!("ledger {first} at one closing, root account then {root:?}, every ledger at the next"), |c| {
                for second in 0..n1.pow(accts.len() as u32) {
                    let d = c.dir("two");
                    copy_dir(&tpl, &d);
                    let mut w = W { t: Some(open_tree(&d)?), d, m: Idx { base: tip.h(), v: vec![tip.clone()] }, led: fresh_led(), snap: Led::new(), epoch: 1, new: 0, ad: vec![ROOT, addr(1), addr(2)] };
                    let what = format!("ledgers {first} and {second}");
                    let mut code = (first, second);
                    for close in 0..2 {
                        for a in accts.clone() {
                            let k = if close == 0 { &mut code.0 } else { &mut code.1 };
                            let e = (kinds[*k % 4], kinds[*k / 4 % 4]);
                            if close == 1 {
                                *k /= n1;
                            }
                            enter_abs(w.t(), &a, &e)?;
                            put(&mut w.led, &a, &e);
                        }
                        if let (1, Some(x)) = (close, root) {
                            enter_abs(w.t(), &ROOT, &(Some(x), None))?;
                            put(&mut w.led, &ROOT, &(Some(x), None));
                        }
                        w.step(O::Roll, &what)?;
                        w.closed(&what)?;
                        w.opened()?;
                        c.transitions += 1;
                    }
                    c.state(&(first, second, root));
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
    // balances of every width and addresses changed in every byte
    for kind in 0..3 {
        c.case(|| format!("wide balances: every byte of {} decides", ["coins", "gas beside coins", "gas without coins"][kind]), |c| {
            let mut seen = HashMap::new();
            let other = (addr(3), (Some(u(77)), Some(u(78))));
            let wide = |x: U256| match kind {
                0 => (Some(x), Some(u(9))),
                1 => (Some(u(9)), Some(x)),
                _ => (None, Some(x)),
            };
            let full = U256::from_big_endian(&[0xa5; 32]);
            let mut xs = vec![full, U256::MAX, U256::MAX - 1, pow2(255)];
            for k in 0..32 {
                xs.push(full ^ (u(1) << (8 * k)));
                xs.push(full ^ (u(0x80) << (8 * k)));
                xs.push(pow2(8 * k));
                xs.push(pow2(8 * k) - 1 + (pow2(8 * k + 1) - pow2(8 * k)));
            }
            xs.sort();
            xs.dedup();
            for x in xs.into_iter().filter(|x| !x.is_zero()) {
                let es = [(addr(2), wide(x)), other];
                let w = format!("account {:?}", es[0].1);
                let (r, l) = rollover(c, &tpl, &tip, &es, &base, &w)?;
                c.state(&(kind, x));
                c.transitions += 1;
                commits(&mut seen, r, l, &w)?;
            }
            for k in 0..33 {
                for m in [1u8, 0x80] {
                    let mut a = addr(2);
                    a[k] ^= m;
                    let es = [(a, wide(full)), other];
                    let w = format!("account with byte {k} of its address changed");
                    let (r, l) = rollover(c, &tpl, &tip, &es, &base, &w)?;
                    c.state(&(kind, a.to_vec()));
                    c.transitions += 1;
                    commits(&mut seen, r, l, &w)?;
                }
            }
            c.traces += 1;
            Ok(())
        });
    }
    // large ledgers
    for n in ladder(c.pick(3000, 30_000)).into_iter().filter(|n| *n > 33).map(|n| n as u64) {
        c.case(|| format!("{n} accounts"), |c| {
            let mut es: Vec<(Addr, Ent)> = (0..n).map(|i| (addr(i * 7919), (Some(u(i + 1)), (i % 2 == 0).then(|| u(i + 5))))).collect();
            let mut seen = HashMap::new();
            for i in [usize::MAX, 0, n as usize / 2, n as usize - 1] {
                if i != usize::MAX {
                    es[i].1 .0 = Some(u(5));
                    es[i].1 .1 = Some(u(4));
                }
                let (r, l) = rollover(c, &tpl, &tip, &es, &base, &format!("{n} accounts"))?;
                ensure!(!seen.contains_key(&r), "{n} accounts: the root does not depend on account {i}");
                commits(&mut seen, r, l, &format!("{n} accounts"))?;
            }
            c.state(&("big", n));
            Ok(())
        });
    }
    // histories across several epochs
    let (nops, depth) = c.pick((9, 3), (9, 4));
    for pre in tuples(nops, 1) {
        for pre2 in 0..nops {
            c.case(|| format!("all histories of {} after an entered ledger, beginning {:?}, {:?}", depth + 1, OPS[pre[0]], OPS[pre2]), |c| {
                for rest in tuples(nops, depth - 2) {
                    let mut seq: Vec<O> = [pre[0], pre2].iter().chain(&rest).map(|i| OPS[*i]).collect();
                    seq.push(O::Roll);
                    seq.push(O::Ord);
                    let mut w = W::open(c.dir("h"), &tpl, &tip)?;
                    for (i, o) in seq.iter().enumerate() {
                        w.step(*o, &format!("{:?}", &seq[..=i]))?;
                        c.transitions += 1;
                    }
                    w.closed(&format!("{seq:?}"))?;
                    c.state(&seq);
                    c.traces += 1;
                }
                Ok(())
            });
        }
    }
    // a rollover during which a call fails: what is reported as done, at once or when tried again, is complete
    for sort in [Fault::File(false), Fault::File(true), Fault::Store] {
        let parts = 4;
        for part in 0..parts {
            c.case(|| format!("second rollover with {sort:?} failing, part {part}"), |c| {
                let tpl = c.dir("ftpl");
                let (mut led, tip, ad) = {
                    let mut w = W::open(c.dir("w"), &c.dir("tp3"), &template(&c.dir("tp3"), 1)?)?;
                    for o in [O::Spend, O::New, O::Roll, O::Ord, O::Send, O::Gas, O::Empty, O::New] {
                        w.step(o, "prepare")?;
                    }
                    w.forward("prepare")?;
                    flush(w.t())?;
                    w.t = None;
                    copy_dir(&w.d, &tpl);
                    (w.led.clone(), w.m.v.last().unwrap().clone(), w.ad.clone())
                };
                led.retain(|_, v| *v != Default::default());
                let n = mine(&tip.hash, &tip.d(), &[], true).ok_or("no nonce")?;
                let mut want: Option<H> = None;
                let (mut i, mut total) = (-1i64, 0i64);
                while i < total {
                    if i < 0 || i as usize % parts == part {
                        let k = faulty_close(c, &tpl, &tip, &n, &led, &ad, &mut want, sort, i)?;
                        if i < 0 {
                            total = k as i64;
                        }
                        c.state(&(sort, i));
                    }
                    i += 1;
                }
                Ok(())
            });
        }
    }
    // many epochs in a row, and late ones
    for start in [1u64, 2, 255, 256, 4294] {
        c.case(|| format!("five rollovers in a row from epoch {start}"), |c| {
            let d2 = c.dir("tp2");
            let tip2 = template(&d2, start)?;
            let mut w = W::open(c.dir("h"), &d2, &tip2)?;
            w.epoch = start;
            for i in 0..5 {
                for o in [O::New, O::Spend, O::Send, O::Roll, O::Ord, O::Empty, O::Gas] {
                    w.step(o, &format!("epoch {}+{i} {o:?}", start))?;
                    c.transitions += 1;
                }
                w.closed("between")?;
                w.opened()?;
            }
            c.state(&("many", start));
            Ok(())
        });
    }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Fault {
    /// a file-system call, alone or with all later ones
    File(bool),
    /// a call into the storage library
    Store,
}
/// Closes an epoch on a copy of the template while the i-th call fails (-1: none), again if it
/// was refused, after reopening if need be; returns the number of calls.
fn faulty_close(c: &mut Ctx, tpl: &Path, tip: &Blk, n: &H, led: &Led, ad: &[Addr], want: &mut Option<H>, sort: Fault, i: i64) -> Result<usize, Fail> {
    let d = c.dir("x");
    copy_dir(tpl, &d);
    let after = after_close(led);
    let mut t = open_tree(&d)?;
    let ts = tip.ts() + 600;
    let mut emit = |t: &mut BlockChainTree| guard(|| block_on(t.emmit_new_main_block(n, &addr(5), &[], ts)).map(|b| b.get_merkle_root()).map_err(|e| short(&e)));
    match sort {
        Fault::File(sticky) => fsx::arm_fs_faults(&d, i, sticky),
        Fault::Store => vsched::arm_faults(if !(0..64).contains(&i) { 0 } else { 1 << i }),
    }
    let mut r = emit(&mut t);
    let (calls, hits, names) = match sort {
        Fault::File(_) => fsx::disarm_fs_faults(),
        Fault::Store => {
            let (k, h, n) = vsched::disarm_faults();
            (k as usize, h as usize, n.into_iter().map(String::from).collect())
        }
    };
    let mut what = format!("rollover with call {i} ({}) failing", names.get(i.max(0) as usize).cloned().unwrap_or_default());
    let lib = |p: &String| crate::persist::library(p);
    match &r {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => ensure!(hits > 0, "{what}: refused without a fault: {e}"),
        Err(p) => ensure!(lib(p), "{what}: {p}"),
    }
    if !matches!(r, Ok(Ok(_))) {
        c.count("refused", 1);
        r = emit(&mut t);
        what += ", tried again";
        if let Err(p) = &r {
            ensure!(lib(p), "{what}: {p}");
        }
    }
    let root = match r {
        Ok(Ok(root)) => root,
        _ => {
            // the storage library refuses until the store is opened again
            c.count("refused_until_reopened", 1);
            guard(|| drop(t)).or_else(|p| if lib(&p) { Ok(()) } else { Err(p) })?;
            t = open_tree(&d)?;
            what += ", reopened and tried again";
            if t.get_main_chain().get_height() != tip.h() + 1 {
                // the library kept the block and lost the answer (C21, C22)
                c.count("kept_without_an_answer", 1);
                return Ok(calls);
            }
            match emit(&mut t)? {
                Ok(root) => root,
                Err(e) => return Err(format!("{what}: refused: {e}").into()),
            }
        }
    };
    let w = *want.get_or_insert(root);
    same!(hex(&root), hex(&w), "{what}: root");
    same_led(&view(&t, ad)?, &after, &format!("{what}: balances"))?;
    match guard(|| flush(&t)) {
        Ok(Ok(())) => {}
        // a store that failed does not flush again: what it holds is not known
        _ if hits > 0 => {
            c.count("not_flushed", 1);
            let _ = guard(|| drop(t));
            return Ok(calls);
        }
        Ok(Err(e)) => return Err(format!("{what}: flush: {}", e.msg).into()),
        Err(p) => return Err(format!("{what}: flush: {p}").into()),
    }
    drop(t);
    same_led(&ledger(&d)?, &after, &format!("{what}: balances stored"))?;
    same_led(&snap(&d)?, led, &format!("{what}: snapshot"))?;
    c.transitions += 1;
    Ok(calls)
}

// ---------------------------------------------------------------- C21

fn stores() -> Vec<PathBuf> {
    vec![
        Path::new(sv::MAIN_CHAIN_DIRECTORY).join(sv::BLOCKS_FOLDER),
        Path::new(sv::MAIN_CHAIN_DIRECTORY).join(sv::REFERENCES_FOLDER),
        sv::AMOUNT_SUMMARY.into(),
        sv::GAS_SUMMARY.into(),
        Path::new(sv::MAIN_CHAIN_DIRECTORY).join(sv::TRANSACTIONS_FOLDER),
    ]
}
/// what the periodic flusher does to the stores selected by `mask`
pub fn background(d: &Path, mask: usize) {
    for (i, s) in stores().iter().enumerate() {
        if mask >> i & 1 == 1 {
            assert!(sled::mc_background_flush(&d.join(s)), "store {s:?} is not open");
        }
    }
}

/// everything the recovered tree must satisfy
struct Exp {
    tip: Blk,
    closing: Blk,
    before: Led,
    after: Led,
    ad: Vec<Addr>,
}
#[derive(PartialEq, Debug, Hash, Clone, Copy)]
enum Found {
    Before,
    After,
}
fn recover(c: &mut Ctx, d: &Path, x: &Exp, what: &str) -> Result<Found, Fail> {
    let found;
    {
        let mut t = open_tree(d).map_err(|e| Fail::from(format!("{what}: {}", e.msg)))?;
        let ch = Ch::M(t.get_main_chain());
        let h = ch.height()?;
        let led = view(&t, &x.ad)?;
        let mut m = Idx { base: x.tip.h(), v: vec![x.tip.clone()] };
        if h == x.closing.h() {
            m.check(&ch, &[x.closing.hash], what)?;
            if led == x.after && x.after != x.before {
                return Err(known("root-coins-ahead", format!("{what}: the epoch is not closed but the root account already has the new supply")));
            }
            same_led(&led, &x.before, &format!("{what}: the epoch is not closed, balances"))?;
            found = Found::Before;
            // carry the rollover out again
            let root = close(&mut t, &mut m, what)?;
            same!(hex(&root), hex(&x.closing.b.get_merkle_root()), "{what}: root of the repeated rollover");
            ensure!(m.v[1].raw == x.closing.raw, "{what}: the repeated rollover gives another block");
        } else {
            same!(h, x.closing.h() + 1, "{what}: height");
            m.v.push(x.closing.clone());
            m.check(&ch, &[], what)?;
            if led == x.before && x.after != x.before {
                return Err(known("root-coins-behind", format!("{what}: the epoch is closed but the root account does not have the new supply")));
            }
            same_led(&led, &x.after, &format!("{what}: the epoch is closed, balances"))?;
            found = Found::After;
        }
        same_led(&view(&t, &x.ad)?, &x.after, &format!("{what}: balances in the end"))?;
        // the tree goes on
        let tip = m.v.last().unwrap().clone();
        let txs = vec![hh(4242)];
        let n = mine(&tip.hash, &tip.d(), &txs, true).unwrap();
        emit_main(&mut t, &mut m, &Attempt { txs: &txs, nonce: n, founder: addr(6), ts: tip.ts() + 601 }, &|| format!("{what}: next block"))?;
        flush(&t).map_err(|e| Fail::from(format!("{what}: {}", e.msg)))?;
    }
    same_led(&ledger(d)?, &x.after, &format!("{what}: balances stored in the end"))?;
    same_led(&snap(d)?, &x.before, &format!("{what}: snapshot in the end"))?;
    c.transitions += 1;
    Ok(found)
}

fn c21(c: &mut Ctx) {
    vsched::set_no_flusher(true);
    // ledgers at the moment of closing; the root account has spent some of its coins or nothing
    let shapes: Vec<(&str, Vec<(Addr, Ent)>)> = vec![
        ("spent", vec![(ROOT, (Some(u(17)), Some(u(3)))), (addr(1), (Some(u(500)), Some(u(20)))), (addr(2), (None, Some(u(8))))]),
        ("untouched", vec![]),
        ("emptied", vec![(ROOT, (Some(u(0)), None)), (addr(1), (Some(pow2(200)), None)), (addr(3), (Some(u(0)), Some(u(0))))]),
        ("many", (0..40).map(|i| (addr(i), (Some(u(i + 1)), Some(u(2 * i))))).collect()),
    ];
    for second in [false, true] {
        for (sname, es) in &shapes {
            for flushed in [true, false] {
                if *sname == "emptied" && !flushed {
                    continue;
                }
                // what the periodic flusher wrote after the closing emission, before the process died or flushed
                let masks: Vec<usize> = match (flushed, c.thorough()) {
                    (false, _) => vec![0],
                    (true, true) => (0..16).collect(),
                    (true, false) => (0..8).collect(),
                };
                for mask in masks {
                    for part in 0..c.pick(2usize, 4) {
                        let parts = c.pick(2usize, 4);
                        c.case(|| format!("{} rollover, {sname} ledger, {} before, background flush {mask:03b}, part {part}", if second { "second" } else { "first" }, if flushed { "flushed" } else { "not flushed" }), |c| {
                            let tpl = c.dir("tpl");
                            let mut tip = template(&tpl, 1)?;
                            let mut base = fresh_led();
                            if second {
                                let mut w = W::open(c.dir("w"), &tpl, &tip)?;
                                w.step(O::Spend, "prepare")?;
                                w.step(O::Roll, "prepare")?;
                                w.step(O::Send, "prepare")?;
                                w.forward("prepare")?;
                                flush(w.t())?;
                                tip = w.m.v.last().unwrap().clone();
                                base = w.led.clone();
                                w.t = None;
                                copy_dir(&w.d, &tpl);
                            }
                            if flushed {
                                let t = open_tree(&tpl)?;
                                for (a, e) in es {
                                    enter_abs(&t, a, e)?;
                                    put(&mut base, a, e);
                                }
                                flush(&t)?;
                            }
                            let d = c.dir("x");
                            copy_dir(&tpl, &d);
                            // the run that is interrupted
                            fsx::start(&d);
                            let r = (|| -> Result<(Exp, usize), Fail> {
                                let mut t = open_tree(&d)?;
                                let mut before = base.clone();
                                if !flushed {
                                    for (a, e) in es {
                                        enter_abs(&t, a, e)?;
                                        put(&mut before, a, e);
                                    }
                                }
                                let m0 = fsx::mark();
                                let mut m = Idx { base: tip.h(), v: vec![tip.clone()] };
                                close(&mut t, &mut m, "the interrupted run")?;
                                background(&d, mask);
                                flush(&t)?;
                                let after = after_close(&before);
                                let mut ad: BTreeSet<Addr> = es.iter().map(|e| e.0).collect();
                                ad.extend([ROOT, addr(1), addr(2), addr(3), addr(77)]);
                                Ok((Exp { tip: tip.clone(), closing: m.v[1].clone(), before, after, ad: ad.into_iter().collect() }, m0))
                            })();
                            let (img, log) = fsx::stop();
                            let (x, m0) = r?;
                            if std::env::var("MC_LOG").is_ok() {
                                for (i, o) in log.iter().enumerate() {
                                    eprintln!("{i} {} {o:?}", o.name().chars().take(100).collect::<String>());
                                }
                            }
                            let n0 = log.len();
                            let (pre, post) = log.split_at(m0);
                            let log: Vec<fsx::Op> = pre.iter().cloned().chain(fsx::join_zeros(post.to_vec())).collect();
                            c.count("recorded_calls", (n0 - m0) as u64);
                            let cr = fsx::Crash::new(&img, &log);
                            cr.killed(log.len()).same_tree(&fsx::snapshot(&d)).map_err(|e| Fail::from(format!("harness: the recorded calls do not rebuild the directory: {e}")))?;
                            let y = c.dir("y");
                            let mut seen = BTreeSet::new();
                            let mut last = Found::Before;
                            // a store not flushed before the run legitimately comes back older: those cases only ask for
                            // a usable tree
                            for k in m0..=log.len() {
                                let mut imgs = vec![(format!("killed after call {k}"), cr.killed(k))];
                                if let Some(fsx::Op::Write { data, .. }) = log.get(k) {
                                    let n = data.len();
                                    let mut cuts = BTreeSet::from([1, n / 2, n.saturating_sub(1)]);
                                    if c.thorough() {
                                        cuts.extend([2, 4, 8, 12, 16, 17, 24, 32, n / 4, 3 * n / 4]);
                                    }
                                    for cut in cuts {
                                        if cut > 0 && cut < n {
                                            if let Some(i) = cr.torn(k, cut) {
                                                imgs.push((format!("killed in call {k} ({}) after {cut} bytes", log[k].name()), i));
                                            }
                                        }
                                    }
                                }
                                for (w, im) in imgs {
                                    if !seen.insert(im.print()) {
                                        continue;
                                    }
                                    if seen.len() % parts != part {
                                        continue;
                                    }
                                    im.write_to(&y);
                                    let w = format!("{w} of {} ({} next)", log.len(), log.get(k).map_or("nothing".into(), |o| o.name()));
                                    if flushed {
                                        match recover(c, &y, &x, &w) {
                                            Ok(f) => last = f,
                                            Err(e) if !e.key.is_empty() => c.soft(e),
                                            Err(e) => return Err(e),
                                        }
                                    } else {
                                        usable(c, &y, &x, &base, &w)?;
                                    }
                                    c.state(&im.print());
                                    c.count("crash_images", 1);
                                }
                            }
                            if flushed {
                                // completing everything
                                cr.killed(log.len()).write_to(&y);
                                same!(recover(c, &y, &x, "completed")?, Found::After, "completed");
                            }
                            let _ = last;
                            c.traces += 1;
                            Ok(())
                        });
                    }
                }
            }
        }
    }
}
/// the ledger entered absolutely (gas too)
fn enter_abs(t: &BlockChainTree, a: &Addr, e: &Ent) -> R {
    if let Some(co) = e.0 {
        ok("set_amount", guard(|| t.set_amount(a, co)))?;
    }
    if let Some(g) = e.1 {
        let old = ok("get_gas", guard(|| t.get_gas(a)))?;
        if old > g {
            ok("sub_gas", guard(|| t.sub_gas(a, old - g)))?;
        } else if old < g {
            ok("add_gas", guard(|| t.add_gas(a, g - old)))?;
        }
    }
    Ok(())
}
/// Balances were changed without a flush before the epoch was closed: after a crash each account
/// has a balance from before or after those changes; a mixture between accounts is allowed then,
/// but the chain is on either side and the tree goes on.
fn usable(c: &mut Ctx, d: &Path, x: &Exp, base: &Led, what: &str) -> R {
    let mut t = open_tree(d).map_err(|e| Fail::from(format!("{what}: {}", e.msg)))?;
    let ch = Ch::M(t.get_main_chain());
    let h = ch.height()?;
    let led = view(&t, &x.ad)?;
    let mut m = Idx { base: x.tip.h(), v: vec![x.tip.clone()] };
    if h != x.closing.h() {
        m.v.push(x.closing.clone());
    }
    m.check(&ch, &[], what)?;
    for a in &x.ad {
        let g = |l: &Led| l.get(&a.to_vec()).copied().unwrap_or_default();
        let (now, b, o, n) = (g(&led), g(base), g(&x.before), g(&x.after));
        ensure!([b.0, o.0, n.0].contains(&now.0) && [b.1, o.1, n.1].contains(&now.1), "{what}: account {} has {now:?}, which it never had", s8(a));
    }
    if m.v.len() == 1 {
        close(&mut t, &mut m, what)?;
        let mut want = led.clone();
        want.entry(ROOT.to_vec()).or_default().0 = cycle();
        same_led(&view(&t, &x.ad)?, &want, &format!("{what}: after the repeated rollover"))?;
        flush(&t)?;
        drop(t);
        drop(ch);
        same_led(&snap(d)?, &led, &format!("{what}: snapshot of the repeated rollover"))?;
    }
    c.transitions += 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", level: "model_checking", run: c17, exhaustive: true, shards: 8,
            rule: "every ledger over confusable accounts with every combination of absent, zero and positive coins and gas; every single change to a ledger of n accounts; all histories of the stated depth over nine operations across several epochs; after each rollover the balances, the stored ledger and the snapshot are compared completely and roots of distinct ledgers must differ; states = ledgers and histories",
            assumptions: &["heights near an epoch's end are reached by rewriting the configuration file, then appending", "SHA-256 collisions do not occur among the enumerated ledgers"] },
        Prop { id: "C21", level: "fault_enumeration", run: c21, exhaustive: true, shards: 8,
            rule: "the file-system calls of a rollover (and of what the periodic flusher may write then, every subset of the stores) are recorded; for every prefix of the calls, and every write cut at several lengths, the directory is rebuilt, reopened, compared with the state before and after, and the rollover repeated; states = distinct directory images",
            assumptions: &["a killed process loses no completed write (power loss is C20)", "heights near an epoch's end are reached by rewriting the configuration file"] },
    ]
}

//! C10 Merkle tree, C11 proof of work, C12 retarget rule.
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use std::collections::{BTreeMap, HashMap, HashSet};

const SWAP: &str = "sibling-swap";
const MASK: &str = "and-masked";

fn root(items: &[H]) -> Result<H, Fail> {
    Ok(guard(|| *MerkleTree::build_tree(items).get_root())?)
}
fn verify(item: &H, root: &H, proof: &[H]) -> Result<bool, Fail> {
    let p: Vec<&H> = proof.iter().collect();
    Ok(guard(|| MerkleTree::verify_proof(item, root, &p))?)
}
/// what the AND-combining scheme, computed independently, says about a proof
fn ref_verify(item: &H, root: &H, proof: &[H]) -> bool {
    if proof.is_empty() {
        return false;
    }
    let mut x = *item;
    for p in proof {
        for i in 0..32 {
            x[i] &= p[i];
        }
        x = sha(&[&x]);
    }
    x == *root
}
fn flip(x: &H, b: usize) -> H {
    let mut y = *x;
    y[b / 8] ^= 0x80 >> (b % 8);
    y
}

/// must be rejected; a deviation that the AND scheme explains is the known weakness
fn reject(c: &mut Ctx, item: &H, root: &H, proof: &[H], what: impl Fn() -> String) -> R {
    c.transitions += 1;
    if verify(item, root, proof)? {
        if ref_verify(item, root, proof) {
            c.soft(known(MASK, format!("{} verifies: bits cleared by the AND with a sibling are not bound", what())));
        } else {
            return Err(format!("{} verifies", what()).into());
        }
    }
    Ok(())
}
fn proof_of(items: &[H], i: usize) -> Result<Vec<H>, Fail> {
    let t = guard(|| MerkleTree::build_tree(items))?;
    let p = guard(|| t.get_proof(&items[i]).into_iter().copied().collect::<Vec<H>>())?;
    ensure!(!p.is_empty(), "the proof for item {i} of {} is empty", items.len());
    Ok(p[..p.len() - 1].to_vec())
}

fn c10(c: &mut Ctx) {
    // every list length: completeness and soundness of every item's proof
    let mut lens: Vec<usize> = (1..=33).collect();
    lens.extend([63, 64, 65, 127, 128, 129, 255, 256, 257]);
    if c.thorough() {
        lens.extend(34..=300);
        lens.extend([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]);
        lens.sort();
        lens.dedup();
    }
    for n in lens {
        c.case(|| format!("list of {n} items: every proof verifies, no other item or root does"), |c| {
            let items: Vec<H> = (0..n as u64).map(|k| hh(1000 * n as u64 + k)).collect();
            let r = root(&items)?;
            c.state(&("list", n));
            let other = root(&items[..n - 1])?;
            let mut more = items.clone();
            more.push(hh(77));
            let other2 = root(&more)?;
            ensure!(r != other, "removing the last of {n} items keeps the root");
            ensure!(r != other2, "adding an item to {n} keeps the root");
            let t = guard(|| MerkleTree::build_tree(&items))?;
            let mut proofs = vec![];
            for (i, it) in items.iter().enumerate() {
                let p: Vec<H> = guard(|| t.get_proof(it).into_iter().copied().collect())?;
                ensure!(!p.is_empty(), "empty proof for item {i}");
                let p = p[..p.len() - 1].to_vec();
                c.transitions += 1;
                ensure!(verify(it, &r, &p)?, "the proof of item {i} of {n} does not verify");
                reject(c, it, &other, &p, || format!("the proof of item {i} of {n} against the root of {} items", n - 1))?;
                reject(c, it, &other2, &p, || format!("the proof of item {i} of {n} against the root of {} items", n + 1))?;
                proofs.push(p);
            }
            for i in 0..n {
                let wide = n <= 33 || c.thorough() && n <= 130;
                for j in 0..n {
                    if i != j && (wide || j == i ^ 1 || j == i + 1 || j + 1 == i || j == 0 || j == n - 1) {
                        // the sibling itself: item & sibling is the same either way round, but then the
                        // proof's first step is the item, not its sibling
                        reject(c, &items[j], &r, &proofs[i], || format!("item {j} with the proof of item {i} of {n}"))?;
                    }
                }
                for x in [hh(5_000_000 + i as u64), [0u8; 32], [0xff; 32]] {
                    reject(c, &x, &r, &proofs[i], || format!("item {}.. (not in the list) with the proof of item {i} of {n}", s8(&x)))?;
                }
            }
            // an item that is not there has no proof
            let ghost = hh(6_000_000);
            let p: Vec<H> = guard(|| t.get_proof(&ghost).into_iter().copied().collect())?;
            for k in 0..=p.len() {
                reject(c, &ghost, &r, &p[..k], || format!("an item not in the list of {n} with what get_proof returns for it, {k} steps"))?;
            }
            Ok(())
        });
    }
    // long lists: items all along them
    for n in ladder(c.pick(40_001, 300_000)).into_iter().filter(|n| *n > 257) {
        c.case(|| format!("list of {n} items: proofs, alterations and removals all along it"), |c| {
            let items: Vec<H> = (0..n as u64).map(|k| hh(7 * n as u64 + k)).collect();
            let t = guard(|| MerkleTree::build_tree(&items))?;
            let r = root(&items)?;
            same!(*t.get_root(), r, "root built twice");
            for i in positions(n) {
                let p: Vec<H> = guard(|| t.get_proof(&items[i]).into_iter().copied().collect())?;
                ensure!(!p.is_empty(), "empty proof for item {i}");
                let p = &p[..p.len() - 1];
                ensure!(verify(&items[i], &r, p)?, "the proof of item {i} of {n} does not verify");
                for j in [i ^ 1, i + 2, i / 2, n - 1] {
                    if j < n && j != i {
                        reject(c, &items[j], &r, p, || format!("item {j} with the proof of item {i} of {n}"))?;
                    }
                }
                reject(c, &hh(5), &r, p, || format!("an item not in the list with the proof of item {i} of {n}"))?;
                reject(c, &items[i], &r, &p[1..], || format!("the proof of item {i} of {n} without its first step"))?;
                let mut x = items.clone();
                x[i] = hh(6);
                ensure!(root(&x)? != r, "replacing item {i} of {n} keeps the root");
                x.remove(i);
                ensure!(root(&x)? != r, "removing item {i} of {n} keeps the root");
                let j = (i + n / 2 + 1) % n;
                let mut x = items.clone();
                x.swap(i, j);
                if root(&x)? == r {
                    if merkle(&x) == merkle(&items) {
                        c.soft(known(SWAP, format!("exchanging items {i} and {j} of {n} keeps the root")));
                    } else {
                        return Err(format!("exchanging items {i} and {j} of {n} keeps the root").into());
                    }
                }
                c.transitions += 4;
            }
            let mut x = items.clone();
            x.push(hh(8));
            ensure!(root(&x)? != r, "adding an item to {n} keeps the root");
            c.state(&("long", n));
            Ok(())
        });
    }
    // every alteration of every proof
    let alt: Vec<usize> = c.pick(vec![1, 2, 3, 4, 5, 7, 8, 9, 16, 33], (1..=34).chain([63, 64, 65, 128]).collect());
    for n in alt {
        for i in 0..n {
            if n > 9 && !c.thorough() && ![0, 1, n / 2, n - 2, n - 1].contains(&i) {
                continue;
            }
            c.case(|| format!("item {i} of {n}: every altered, missing, extra or reordered step, every root bit"), |c| {
                let items: Vec<H> = (0..n as u64).map(|k| hh(2000 * n as u64 + k)).collect();
                let r = root(&items)?;
                let p = proof_of(&items, i)?;
                let it = items[i];
                ensure!(verify(&it, &r, &p)?, "the proof does not verify");
                c.state(&("proof", n, i));
                for b in 0..256 {
                    let r2 = flip(&r, b);
                    ensure!(!verify(&it, &r2, &p)?, "the proof verifies against the root with bit {b} changed");
                    reject(c, &flip(&it, b), &r, &p, || format!("the item with bit {b} changed"))?;
                }
                for s in 0..p.len() {
                    for b in 0..256 {
                        let mut q = p.clone();
                        q[s] = flip(&q[s], b);
                        reject(c, &it, &r, &q, || format!("the proof with bit {b} of step {s} changed"))?;
                    }
                    let mut subst: Vec<H> = vec![[0; 32], hh(9), it, r];
                    subst.extend(items.iter().take(8));
                    subst.extend(&p);
                    for x in subst {
                        if x != p[s] {
                            let mut q = p.clone();
                            q[s] = x;
                            reject(c, &it, &r, &q, || format!("the proof with step {s} replaced by {}..", s8(&x)))?;
                        }
                    }
                    let mut q = p.clone();
                    q.remove(s);
                    reject(c, &it, &r, &q, || format!("the proof without step {s}"))?;
                    reject(c, &it, &r, &p[..s], || format!("the first {s} steps of the proof"))?;
                    reject(c, &it, &r, &p[s + 1..], || format!("the proof without its first {} steps", s + 1))?;
                    for t in s + 1..p.len() {
                        if p[s] != p[t] {
                            let mut q = p.clone();
                            q.swap(s, t);
                            reject(c, &it, &r, &q, || format!("the proof with steps {s} and {t} exchanged"))?;
                        }
                    }
                }
                for s in 0..=p.len() {
                    let mut ins: Vec<H> = vec![[0; 32], [0xff; 32], hh(9), it, r];
                    ins.extend(&p);
                    for x in ins {
                        let mut q = p.clone();
                        q.insert(s, x);
                        reject(c, &it, &r, &q, || format!("the proof with {}.. inserted at step {s}", s8(&x)))?;
                    }
                }
                Ok(())
            });
        }
    }
    // arbitrary proofs: always a verdict
    c.case(|| "proofs of 0 to 80 arbitrary steps".into(), |c| {
        for len in 0..=80usize {
            for fill in [[0u8; 32], [0xff; 32], hh(3)] {
                for item in [[0u8; 32], [0xff; 32], hh(4)] {
                    let p = vec![fill; len];
                    for r in [[0u8; 32], [0xff; 32], hh(4), fill, item] {
                        reject(c, &item, &r, &p, || format!("{len} steps of {}.. for item {}.. and root {}..", s8(&fill), s8(&item), s8(&r)))?;
                    }
                    c.state(&("arb", len, fill, item));
                }
            }
        }
        let e = root(&[])?;
        for it in [e, hh(1), [0xff; 32]] {
            let t = guard(|| MerkleTree::build_tree(&[]))?;
            let p: Vec<H> = guard(|| t.get_proof(&it).into_iter().copied().collect())?;
            for k in 0..=p.len() {
                reject(c, &it, &e, &p[..k], || format!("item {}.. of the empty list", s8(&it)))?;
            }
        }
        Ok(())
    });
    // the root binds the list: all pairs of lists of a closed family have different roots
    let fam = |c: &mut Ctx, name: String, lists: Box<dyn Fn() -> Vec<Vec<usize>>>| {
        c.case(|| format!("all pairs of {name} have different roots"), |c| {
            let mut seen: HashMap<H, Vec<usize>> = HashMap::new();
            for l in lists() {
                let items: Vec<H> = l.iter().map(|k| hh(300 + *k as u64)).collect();
                let r = root(&items)?;
                c.transitions += 1;
                c.state(&("list", &l));
                if let Some(o) = seen.get(&r) {
                    if *o == l {
                        continue;
                    }
                    let oi: Vec<H> = o.iter().map(|k| hh(300 + *k as u64)).collect();
                    if merkle(&oi) == merkle(&items) {
                        c.soft(known(SWAP, format!("lists {o:?} and {l:?} have the same root: exchanging sibling subtrees is not bound")));
                    } else {
                        return Err(format!("the lists {o:?} and {l:?} have the same root").into());
                    }
                } else {
                    seen.insert(r, l);
                }
            }
            Ok(())
        });
    };
    let np = c.pick(8, 9);
    for n in 2..=np {
        fam(c, format!("orders of {n} items"), Box::new(move || perms(n)));
    }
    let (k, l) = c.pick((4, 8), (4, 9));
    fam(c, format!("lists over {k} items of length 0 to {l} (repetitions included)"), Box::new(move || {
        let mut v: Vec<Vec<usize>> = vec![vec![]];
        let mut last = v.clone();
        for _ in 0..l {
            last = last.iter().flat_map(|x| (0..k).map(move |y| { let mut z = x.clone(); z.push(y); z })).collect();
            v.extend(last.clone());
        }
        v
    }));
    fam(c, "prefixes of a long list and of its single replacements".into(), Box::new(|| {
        let mut v: Vec<Vec<usize>> = (0..70).map(|n| (0..n).collect()).collect();
        for n in 1..70usize {
            for i in 0..n {
                let mut x: Vec<usize> = (0..n).collect();
                x[i] = 1000 + n * 100 + i;
                v.push(x.clone());
                x[i] = i;
                x.remove(i);
                if i + 1 < n {
                    v.push(x);
                }
            }
        }
        v
    }));
    // exchanging any two items, also far apart
    let xs = c.pick(vec![9usize, 12, 16, 17, 31], (9..=40).collect());
    for n in xs {
        fam(c, format!("lists of {n} items with one pair exchanged"), Box::new(move || {
            let mut v = vec![(0..n).collect::<Vec<_>>()];
            for i in 0..n {
                for j in i + 1..n {
                    let mut x: Vec<usize> = (0..n).collect();
                    x.swap(i, j);
                    v.push(x);
                }
            }
            v
        }));
    }
    // single-bit replacements of items
    let bn = c.pick(6usize, 17);
    for n in 1..=bn {
        c.case(|| format!("{n} items: every single bit of every item is bound by the root"), |c| {
            let items: Vec<H> = (0..n as u64).map(|k| hh(3000 + k)).collect();
            let r = root(&items)?;
            for i in 0..n {
                for b in 0..256 {
                    let mut x = items.clone();
                    x[i] = flip(&x[i], b);
                    c.transitions += 1;
                    if root(&x)? == r {
                        if merkle(&x) == merkle(&items) {
                            c.soft(known(MASK, format!("bit {b} of item {i} of {n} can be changed without changing the root: it is cleared by the AND with the sibling")));
                        } else {
                            return Err(format!("bit {b} of item {i} of {n} can be changed without changing the root").into());
                        }
                    }
                }
            }
            c.state(&("bits", n));
            Ok(())
        });
    }
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for k in 0..n {
        v = v.into_iter().flat_map(|p: Vec<usize>| (0..=p.len()).map(move |i| { let mut q = p.clone(); q.insert(i, k); q })).collect();
    }
    v
}

// ---------------------------------------------------------------- C11

/// difficulty values of every width: pure, single bit, and with arbitrary tails
fn difficulties() -> Vec<(u32, H)> {
    let mut v = vec![];
    for d in 0..=256u32 {
        v.push((d, diff(d)));
        if d < 256 {
            let mut one = [0u8; 32];
            one[(d / 8) as usize] = 0x80 >> (d % 8);
            v.push((d, one));
            let mut tail = hh(d as u64);
            for i in 0..=d {
                tail[(i / 8) as usize] &= !(0x80 >> (i % 8));
            }
            for i in 0..32 {
                tail[i] |= one[i];
            }
            v.push((d, tail));
            let mut end = one;
            end[31] |= 1;
            v.push((d, end));
            let mut mid = one;
            for i in d as usize / 8 + 1..32 {
                mid[i] = if i % 2 == 0 { 0 } else { 0xff };
            }
            v.push((d, mid));
        }
    }
    v
}
fn pow_case(c: &mut Ctx, h: &H, d: &H, txs: &[H], n: &[u8], what: impl Fn() -> String) -> R {
    c.transitions += 1;
    let got = guard(|| tools::check_pow(h, d, txs, n))?;
    let exp = pow_ok(h, d, txs, n);
    if got != exp {
        let w = lz(&sha(&[h, &merkle(txs), n]));
        return Err(format!("{}: {} although the hash has {w} leading zero bits and {} are required", what(), if got { "accepted" } else { "rejected" }, lz(d)).into());
    }
    Ok(())
}
fn c11(c: &mut Ctx) {
    let ds = difficulties();
    let budget = c.pick(1u64 << 22, 1 << 28);
    let shapes: Vec<(usize, Vec<H>)> = vec![
        (0, vec![]),
        (1, vec![hh(1)]),
        (2, vec![hh(1), hh(2)]),
        (5, (0..5).map(hh).collect()),
        (9, (10..19).map(hh).collect()),
    ];
    for (k, txs) in &shapes {
        for hi in 0..2u64 {
            c.case(|| format!("{k} transactions, parent {hi}: every attainable hash width against every difficulty"), |c| {
                let h = hh(40 + hi);
                let r = merkle(txs);
                // two nonces of every width that the search attains
                let mut found: BTreeMap<u32, Vec<H>> = BTreeMap::new();
                for n in 0..budget {
                    let x = nonce(n);
                    let w = lz(&sha(&[&h, &r, &x]));
                    let e = found.entry(w).or_default();
                    if e.len() < 2 {
                        e.push(x);
                    }
                }
                c.max("hash width attained", *found.keys().max().unwrap() as u64);
                for (w, ns) in &found {
                    for n in ns {
                        for (d, dv) in &ds {
                            pow_case(c, &h, dv, txs, n, || format!("hash of {w} bits, difficulty {}", hex(dv)))?;
                            c.state(&(k, hi, w, d));
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // every input matters: a nonce that is accepted at exactly its own width, one bit of one input changed
    let widths = c.pick(vec![1u32, 4, 7, 8, 9], (1..=16).collect());
    for w in widths {
        c.case(|| format!("width {w}: verdict follows every bit of parent, transactions and nonce"), |c| {
            let h = hh(50);
            let txs = [hh(1), hh(2), hh(3)];
            let d = diff(w);
            let n = mine(&h, &d, &txs, true).unwrap();
            pow_case(c, &h, &d, &txs, &n, || "accepted nonce".into())?;
            for b in 0..256 {
                pow_case(c, &flip(&h, b), &d, &txs, &n, || format!("parent bit {b}"))?;
                pow_case(c, &h, &d, &txs, &flip(&n, b), || format!("nonce bit {b}"))?;
                for i in 0..3 {
                    let mut t = txs;
                    t[i] = flip(&t[i], b);
                    pow_case(c, &h, &d, &t, &n, || format!("transaction {i} bit {b}"))?;
                }
                c.state(&("bit", w, b));
            }
            for k in 0..3 {
                pow_case(c, &h, &d, &txs[..k], &n, || format!("only {k} transactions"))?;
            }
            let mut more = txs.to_vec();
            for k in 0..20 {
                more.push(hh(60 + k));
                pow_case(c, &h, &d, &more, &n, || format!("{} transactions", more.len()))?;
            }
            for p in perms(3) {
                let t: Vec<H> = p.iter().map(|i| txs[*i]).collect();
                pow_case(c, &h, &d, &t, &n, || format!("order {p:?}"))?;
            }
            Ok(())
        });
    }
    // transaction lists of every size
    for k in ladder(c.pick(5001, 70_000)) {
        c.case(|| format!("{k} transactions: verdicts for many nonces, and with the list altered all along it"), |c| {
            let h = hh(51);
            let txs: Vec<H> = (0..k as u64).map(|i| hh(900_000 + i)).collect();
            let r = merkle(&txs);
            for n in 0..40u64 {
                for d in [1u32, 3] {
                    let x = nonce(n);
                    let got = guard(|| tools::check_pow(&h, &diff(d), &txs, &x))?;
                    same!(got, lz(&sha(&[&h, &r, &x])) >= d, "verdict on nonce {n} for {k} transactions at {d} bits");
                    c.transitions += 1;
                }
                if k > 2000 && n > 5 {
                    break;
                }
            }
            let d = diff(9);
            let n = (0u64..).map(nonce).find(|x| lz(&sha(&[&h, &r, x])) >= 9).unwrap();
            for p in positions(k).into_iter().step_by(if k > 500 { 5 } else { 1 }) {
                let mut x = txs.clone();
                x[p] = hh(p as u64);
                pow_case(c, &h, &d, &x, &n, || format!("transaction {p} of {k} replaced"))?;
            }
            c.state(&("many", k));
            Ok(())
        });
    }
    // nonces of other lengths (the interface takes any)
    c.case(|| "nonces of 0 to 80 bytes".into(), |c| {
        for l in 0..=80usize {
            for s in 0..64u64 {
                let n: Vec<u8> = hh(s).iter().chain(hh(s + 1).iter()).chain(hh(s + 2).iter()).copied().take(l).collect();
                for d in [1u32, 2, 3, 5, 8] {
                    pow_case(c, &hh(7), &diff(d), &[hh(1)], &n, || format!("nonce {}", hex(&n)))?;
                }
                c.state(&("len", l, s));
            }
        }
        Ok(())
    });
    // the width function itself, on every width and tail
    c.case(|| "leading zero bits of every width and tail, every slice length".into(), |c| {
        for (d, v) in &ds {
            c.transitions += 1;
            same!(guard(|| tools::count_leading_zeros(v))?, *d, "leading zero bits of {}", hex(v));
            for l in 0..32 {
                same!(guard(|| tools::count_leading_zeros(&v[..l]))?, lz(&v[..l]).min(8 * l as u32), "leading zero bits of {}", hex(&v[..l]));
            }
            c.state(&("lz", v));
        }
        for b in 0..=255u8 {
            for p in 0..32 {
                let mut v = [0u8; 32];
                v[p] = b;
                same!(guard(|| tools::count_leading_zeros(&v))?, lz(&v), "leading zero bits of {}", hex(&v));
                for x in v.iter_mut().skip(p + 1) {
                    *x = 0xff;
                }
                same!(guard(|| tools::count_leading_zeros(&v))?, lz(&v), "leading zero bits of {}", hex(&v));
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C12

fn times(th: bool) -> Vec<(u64, u64)> {
    let mut bases = vec![0u64, 1, 599, 600, 601, sv::INCEPTION_TIMESTAMP, 1 << 32, u64::MAX - 601, u64::MAX - 600, u64::MAX - 1, u64::MAX];
    let mut difs: Vec<i128> = vec![-1, 0, 1, 2, 598, 599, 600, 601, 602, 1199, 1200, 1201, 6000, -599, -600, -601, i64::MAX as i128, u64::MAX as i128, -(u64::MAX as i128), 1 << 32, (1 << 32) + 600, -(1 << 32)];
    if th {
        bases.extend([2, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1]);
        difs.extend((-700..1300).map(|x| x as i128));
        for k in 0..64 {
            for e in [-1i128, 0, 1] {
                difs.push((1i128 << k) + e);
                difs.push(-(1i128 << k) + e);
                difs.push((1i128 << k) + 600 + e);
            }
        }
    }
    let mut v = vec![];
    for b in bases {
        for d in &difs {
            let t = b as i128 + d;
            if (0..=u64::MAX as i128).contains(&t) {
                v.push((b, t as u64));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn c12(c: &mut Ctx) {
    // the whole reachable state graph of the real rule from the starting difficulty, each shard
    // owning a range of the discovery order
    let ts = times(c.thorough());
    let mut seen: Vec<H> = vec![sv::BEGINNING_DIFFICULTY];
    let mut depth: Vec<u32> = vec![1];
    let mut known: HashSet<H> = seen.iter().copied().collect();
    let mut ix = 0;
    while ix < seen.len() && seen.len() < 2000 {
        let s = seen[ix];
        let d = depth[ix];
        for (p, n) in &ts {
            let mut x = s;
            if guard(|| tools::recalculate_difficulty(*p, *n, &mut x)).is_ok() && known.insert(x) {
                seen.push(x);
                depth.push(retarget(d, *p, *n));
            }
        }
        ix += 1;
    }
    for (i, s) in seen.iter().enumerate() {
        let d = depth[i];
        c.case(|| format!("difficulty {} ({d} bits): every boundary time difference", hex(s)), |c| {
            same!(lz(s), d, "leading zero bits of reached difficulty {}", hex(s));
            c.state(s);
            same!(guard(|| tools::recalculate_fee(s))?, fee_of(d), "fee at {d} bits");
            for (p, n) in &ts {
                let mut x = *s;
                c.transitions += 1;
                guard(|| tools::recalculate_difficulty(*p, *n, &mut x)).map_err(|e| format!("after {p}, at {n}: {e}"))?;
                same!(lz(&x), retarget(d, *p, *n), "bits after a block at {n} following {p} from {d} bits");
            }
            Ok(())
        });
    }
    c.case(|| "all difficulties from one bit to all bits are reached".into(), |_| {
        for d in 1..=255u32 {
            ensure!(seen.iter().any(|s| lz(s) == d), "no reachable difficulty requires {d} bits");
        }
        Ok(())
    });
    // long histories: any run of faster/slower/on-time blocks equals the rule
    let (len, all) = c.pick((11usize, 3usize), (14, 3));
    for first in 0..all {
        for start in [1u32, 7, 8, 9, 128, 254, 255, 256] {
            c.case(|| format!("all histories of {len} blocks from {start} bits beginning with kind {first}"), |c| {
                let Some(s0) = seen.iter().find(|s| lz(*s) == start) else { return Ok(()) };
                let mut st: Vec<(H, u32, usize)> = vec![(*s0, start, 0)];
                while let Some((s, d, k)) = st.pop() {
                    if k == len {
                        continue;
                    }
                    for (kind, dt) in [(0usize, 10u64), (1, 600), (2, 2000)] {
                        if k == 0 && kind != first {
                            continue;
                        }
                        let mut x = s;
                        guard(|| tools::recalculate_difficulty(1000, 1000 + dt, &mut x))?;
                        c.transitions += 1;
                        let nd = retarget(d, 1000, 1000 + dt);
                        same!(lz(&x), nd, "bits after {d} with difference {dt}");
                        c.state(&(x, k));
                        st.push((x, nd, k + 1));
                    }
                }
                Ok(())
            });
        }
    }
    // values no chain reaches: still no crash, and the fee is that of the width
    c.case(|| "arbitrary difficulty values: a result without a crash, fee by width".into(), |c| {
        for (d, v) in difficulties() {
            same!(guard(|| tools::recalculate_fee(&v))?, fee_of(d), "fee of {}", hex(&v));
            for (p, n) in [(0u64, 10u64), (0, 600), (0, 601), (700, 3), (u64::MAX, 0), (0, u64::MAX)] {
                let mut x = v;
                c.transitions += 1;
                guard(|| tools::recalculate_difficulty(p, n, &mut x)).map_err(|e| format!("difficulty {}: {e}", hex(&v)))?;
            }
            c.state(&v);
        }
        Ok(())
    });
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            level: "model_checking",
            run: c10,
            rule: "a case is a list length with all its proofs, one item's proof with all alterations, or a closed family of lists compared pairwise; distinct by list and alteration set",
            exhaustive: true,
            assumptions: &["items are hash outputs", "SHA-256 has no collisions among the enumerated values"],
            shards: 8,
        },
        Prop {
            id: "C11",
            level: "model_checking",
            run: c11,
            rule: "a case crosses every difficulty width and tail with every hash width attained, or alters every input bit; distinct by (difficulty, hash width, input)",
            exhaustive: true,
            assumptions: &["hash widths beyond those attained by the search differ only in the comparison of two numbers"],
            shards: 8,
        },
        Prop {
            id: "C12",
            level: "model_checking",
            run: c12,
            rule: "a case is a reachable difficulty value with every boundary time pair, or all histories from a state; distinct by difficulty value",
            exhaustive: true,
            assumptions: &["the time difference matters only through its comparison with the target; checked on the enumerated boundary pairs"],
            shards: 8,
        },
    ]
}

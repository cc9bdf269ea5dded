//! C06-C09: encodings, decoders, identity, signatures.
use crate::rt::*;
use crate::submit::{ref_dump, same_tx};
use crate::util::*;
use crate::{ensure, same};
use num_bigint::BigUint;
use std::collections::HashMap;

// --------------------------------------------------------------- value sets

fn tss() -> Vec<u64> {
    let mut v = vec![0u64, 1, u64::MAX, u64::MAX - 1, sv::INCEPTION_TIMESTAMP];
    for k in 0..64 {
        v.push(1 << k);
        v.push((1u64 << k).wrapping_sub(1));
    }
    v.sort();
    v.dedup();
    v
}
fn h32s() -> Vec<H> {
    let mut v: Vec<H> = vec![[0; 32], [0xff; 32], hh(1), diff(1), diff(256), sv::MAX_DIFFICULTY];
    for i in 0..32 {
        let mut x = [0u8; 32];
        x[i] = 1 << (i % 8);
        v.push(x);
        let mut y = [0xffu8; 32];
        y[i] = 0;
        v.push(y);
    }
    v
}
fn a33s() -> Vec<Addr> {
    let mut v: Vec<Addr> = vec![[0; 33], [0xff; 33], addr(1), sv::ROOT_PUBLIC_ADDRESS];
    for i in 0..33 {
        let mut x = [0u8; 33];
        x[i] = 0x80 >> (i % 8);
        v.push(x);
    }
    v
}
fn base_info() -> BasicInfo {
    info(1_650_000_000, hh(11), hh(12), u(77), diff(9), addr(13))
}
/// header values: every field at its boundary set, others at base; plus crossings of width-carrying fields
fn infos(thorough: bool) -> Vec<BasicInfo> {
    let mut v = vec![];
    for h in ints_dense() {
        let mut i = base_info();
        i.height = h;
        v.push(i);
    }
    for t in tss() {
        let mut i = base_info();
        i.timestamp = t;
        v.push(i);
    }
    for x in h32s() {
        let mut i = base_info();
        i.pow = x;
        v.push(i.clone());
        i = base_info();
        i.previous_hash = x;
        v.push(i.clone());
        i = base_info();
        i.difficulty = x;
        v.push(i);
    }
    for a in a33s() {
        let mut i = base_info();
        i.founder = a;
        v.push(i);
    }
    for h in ints_bytes() {
        for t in [0, 1, 255, 256, u64::MAX] {
            for x in if thorough { h32s() } else { vec![[0; 32], [0xff; 32]] } {
                v.push(info(t, x, [x[0] ^ 0xff; 32], h, x, [x[31]; 33]));
            }
        }
    }
    v
}
fn same_info(a: &BasicInfo, b: &BasicInfo) -> R {
    same!(a.timestamp, b.timestamp, "timestamp");
    same!(hex(&a.pow), hex(&b.pow), "nonce");
    same!(hex(&a.previous_hash), hex(&b.previous_hash), "parent hash");
    same!(a.height, b.height, "height");
    same!(hex(&a.difficulty), hex(&b.difficulty), "difficulty");
    same!(hex(&a.founder), hex(&b.founder), "founder");
    Ok(())
}

// ---------------------------------------------------------------- C06

fn rt_tx(c: &mut Ctx, x: &Transaction) -> R {
    let d = ok("dump", guard(|| x.dump()))?;
    same!(x.get_dump_size(), d.len(), "announced size of a transaction with amount {} and payload {:?}", Transaction::get_amount(x), x.get_data().map(|d| d.len()));
    let y = ok("parse", guard(|| Transaction::parse(&d[1..])))?;
    same_tx(&y, x)?;
    same!(hex(&ok("dump", guard(|| y.dump()))?), hex(&d), "second encoding");
    same!(hex(&y.hash()), hex(&x.hash()), "hash after decoding");
    same!(y.get_dump_size(), d.len(), "announced size after decoding");
    c.transitions += 1;
    c.state(&d);
    Ok(())
}
fn rt_tblock(c: &mut Ctx, b: &TransactionBlock) -> R {
    let d = ok("dump", guard(|| b.dump()))?;
    same!(b.get_dump_size(), d.len(), "announced size of a block with {} transactions, height {}, fee {}", b.transactions.len(), b.default_info.height, b.fee);
    same!(Block::get_dump_size(b), d.len(), "announced size");
    let y = ok("parse", guard(|| TransactionBlock::parse(&d[1..])))?;
    same_info(&y.default_info, &b.default_info)?;
    same!(y.fee, b.fee, "fee");
    same!(hex(&y.merkle_tree_root), hex(&b.merkle_tree_root), "root");
    same!(y.transactions, b.transactions, "transactions");
    same!(hex(&ok("dump", guard(|| y.dump()))?), hex(&d), "second encoding");
    let z = ok("deserialize", guard(|| block::deserialize_main_chain_block(&d)))?;
    same_info(z.get_info(), &b.default_info)?;
    same!(z.get_fee(), b.fee, "fee");
    same!(hex(&z.get_merkle_root()), hex(&b.merkle_tree_root), "root");
    same!(z.transactions().map(|t| t.to_vec()), Some(b.transactions.clone()), "transactions");
    same!(hex(z.get_founder()), hex(&b.default_info.founder), "founder");
    same!(z.get_type() as u8, 2, "type");
    same!(hex(&ok("dump", guard(|| z.dump()))?), hex(&d), "second encoding");
    same!(z.get_dump_size(), d.len(), "announced size after decoding");
    c.transitions += 2;
    c.state(&d);
    Ok(())
}
fn rt_small(c: &mut Ctx, i: &BasicInfo) -> R {
    let mut d = vec![];
    ok("dump", guard(|| i.dump(&mut d)))?;
    same!(i.get_dump_size(), d.len(), "announced size of a header with height {}", i.height);
    let y = ok("parse", guard(|| BasicInfo::parse(&d)))?;
    same_info(&y, i)?;
    let mut d2 = vec![1, 2, 3];
    ok("dump", guard(|| y.dump(&mut d2)))?;
    same!(hex(&d2[3..]), hex(&d), "second encoding, appended to a buffer");
    same!(&d2[..3], &[1u8, 2, 3], "bytes before the encoding");

    let b = DerivativeBlock { default_info: i.clone() };
    let d = ok("dump", guard(|| b.dump()))?;
    same!(b.get_dump_size(), d.len(), "announced size of a derivative block with height {}", i.height);
    let y = ok("parse", guard(|| DerivativeBlock::parse(&d[1..])))?;
    same_info(&y.default_info, i)?;
    same!(hex(&ok("dump", guard(|| y.dump()))?), hex(&d), "second encoding");
    same!(y.get_type() as u8, 3, "type of a derivative block");
    same!(y.get_fee(), u(0), "fee of a derivative block");
    same!(hex(y.get_founder()), hex(&i.founder), "founder of a derivative block");
    ensure!(y.transactions().is_none(), "a derivative block has no transaction list");

    let b = SummarizeBlock { default_info: i.clone(), merkle_tree_root: i.pow };
    let d = ok("dump", guard(|| b.dump()))?;
    same!(b.get_dump_size(), d.len(), "announced size of a closing block with height {}", i.height);
    let y = ok("parse", guard(|| SummarizeBlock::parse(&d[1..])))?;
    same_info(&y.default_info, i)?;
    same!(hex(&y.merkle_tree_root), hex(&i.pow), "root");
    same!(hex(&ok("dump", guard(|| y.dump()))?), hex(&d), "second encoding");
    let z = ok("deserialize", guard(|| block::deserialize_main_chain_block(&d)))?;
    same_info(z.get_info(), i)?;
    same!(hex(&z.get_merkle_root()), hex(&i.pow), "root");
    ensure!(z.transactions().is_none(), "a closing block has no transaction list");
    same!(z.get_type() as u8, 4, "type of a closing block");
    same!(z.get_fee(), u(0), "fee of a closing block");
    same!(hex(z.get_founder()), hex(&i.founder), "founder of a closing block");
    c.transitions += 4;
    c.state(&d);
    Ok(())
}
fn payloads(thorough: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for n in (0..if thorough { 600 } else { 300 }).chain(ladder(if thorough { 1 << 22 } else { 1 << 18 }).into_iter().filter(|n| *n >= 600)) {
        v.push((0..n).map(|i| (i * 7 + n) as u8).collect());
    }
    for b in [0u8, 0xff, 2, 3, 4] {
        v.push(vec![b; 33]);
    }
    v
}
fn bigs() -> Vec<BigUint> {
    let mut v = vec![BigUint::from(0u8)];
    for n in 1..=256usize {
        for (first, rest) in [(1u8, 0u8), (0xff, 0xff), (0x80, 1), (0x7f, 0)] {
            let mut b = vec![rest; n];
            b[0] = first;
            v.push(BigUint::from_bytes_be(&b));
        }
    }
    v.dedup();
    v
}

fn c06(c: &mut Ctx) {
    let th = c.thorough();
    let dense = ints_dense();
    for ch in dense.chunks(64) {
        c.case(|| format!("integers {:#x}..", ch[0]), |c| {
            for x in ch {
                let mut d = vec![];
                ok("dump_u256", guard(|| tools::dump_u256(x, &mut d)))?;
                same!(tools::u256_size(x), d.len(), "announced size of {x:#x}");
                let (y, n) = ok("load_u256", guard(|| tools::load_u256(&d)))?;
                same!(y, *x, "decoded integer");
                same!(n + 1, d.len(), "consumed length of {x:#x} (plus its length byte)");
                let mut long = d.clone();
                long.extend([7u8; 40]);
                same!(ok("load_u256", guard(|| tools::load_u256(&long)))?, (*x, n), "decoding with bytes behind it");
                let mut pre = vec![9u8; 5];
                ok("dump_u256", guard(|| tools::dump_u256(x, &mut pre)))?;
                same!(hex(&pre[5..]), hex(&d), "encoding appended to a buffer");
                let b = BigUint::from_bytes_be(&be32(x));
                let mut e = vec![];
                ok("dump_biguint", guard(|| tools::dump_biguint(&b, &mut e)))?;
                same!(tools::bigint_size(&b), e.len(), "announced size of big integer {b}");
                same!(ok("load_biguint", guard(|| tools::load_biguint(&e)))?, (b.clone(), e.len()), "decoded big integer");
                c.transitions += 2;
                c.state(&d);
            }
            Ok(())
        });
    }
    for ch in bigs().chunks(64) {
        c.case(|| format!("big integers of {} bits..", ch[0].bits()), |c| {
            for b in ch {
                let mut e = vec![];
                let r = guard(|| tools::dump_biguint(b, &mut e))?;
                if b.bits() > 255 * 8 {
                    ensure!(r.is_err(), "an integer of {} bits cannot be encoded but was", b.bits());
                    continue;
                }
                ensure!(r.is_ok(), "an integer of {} bits was refused", b.bits());
                same!(tools::bigint_size(b), e.len(), "announced size of a {}-bit integer", b.bits());
                same!(ok("load_biguint", guard(|| tools::load_biguint(&e)))?, (b.clone(), e.len()), "decoded big integer");
                e.extend([1, 2, 3]);
                same!(ok("load_biguint", guard(|| tools::load_biguint(&e)))?.0, *b, "decoded big integer with bytes behind it");
                c.transitions += 1;
                c.state(&e);
            }
            Ok(())
        });
    }
    for ch in infos(th).chunks(64) {
        c.case(|| format!("headers and plain blocks, height {:#x} time {}..", ch[0].height, ch[0].timestamp), |c| {
            for i in ch {
                rt_small(c, i)?;
            }
            Ok(())
        });
    }
    for (k, i) in infos(false).into_iter().enumerate() {
        if !th && k % 5 != 0 {
            continue;
        }
        c.case(|| format!("transaction block with header {k}"), |c| rt_tblock(c, &TransactionBlock::new(u(62500), i, hh(3), vec![hh(4), hh(5)])));
    }
    for h in ints_bytes() {
        c.case(|| format!("transaction blocks of height {h:#x} with every fee"), |c| {
            for f in ints_bytes() {
                for n in [0, 1, 3] {
                    let mut i = base_info();
                    i.height = h;
                    rt_tblock(c, &TransactionBlock::new(f, i, hh(3), (0..n).map(hh).collect()))?;
                }
            }
            Ok(())
        });
    }
    for ch in dense.chunks(64) {
        c.case(|| format!("block fees {:#x}..", ch[0]), |c| {
            for f in ch {
                rt_tblock(c, &TransactionBlock::new(*f, base_info(), hh(3), vec![hh(4)]))?;
            }
            Ok(())
        });
    }
    for n in (0..if th { 300 } else { 70 }).chain(ladder(if th { 70_000 } else { 10_001 }).into_iter().map(|n| n as u64).filter(|n| *n >= 70)) {
        c.case(|| format!("transaction block with {n} transactions"), |c| {
            rt_tblock(c, &TransactionBlock::new(u(1), base_info(), hh(3), (0..n).map(|i| hh(i)).collect()))?;
            rt_tblock(c, &TransactionBlock::new(u(0), info(0, [0; 32], [0; 32], u(0), [0; 32], [0; 33]), [0; 32], (0..n).map(|i| [i as u8; 32]).collect()))
        });
    }
    let sig = |n: u8| {
        let mut s = [0u8; 64];
        for (i, b) in s.iter_mut().enumerate() {
            *b = (i as u8).wrapping_mul(n);
        }
        s
    };
    for ch in dense.chunks(64) {
        c.case(|| format!("transactions of amount {:#x}..", ch[0]), |c| {
            for a in ch {
                for d in [None, Some(vec![]), Some(vec![0u8]), Some(vec![0xff; 40])] {
                    rt_tx(c, &Transaction::new_signed(addr(1), addr(2), 9, *a, d, sig(3)))?;
                }
            }
            Ok(())
        });
    }
    for d in payloads(th) {
        c.case(|| format!("transactions with a {}-byte payload", d.len()), |c| {
            for a in [u(0), u(1), u(256), U256::MAX] {
                rt_tx(c, &Transaction::new_signed(addr(1), addr(2), 9, a, Some(d.clone()), sig(5)))?;
            }
            Ok(())
        });
    }
    for t in tss() {
        c.case(|| format!("transactions of time {t}"), |c| {
            for (s, r) in a33s().iter().zip(a33s().iter().rev()) {
                rt_tx(c, &Transaction::new_signed(*s, *r, t, u(t), None, sig(t as u8)))?;
            }
            let k = key(t % 16);
            rt_tx(c, &tx(&k, &addr(2), t, u(t), Some(vec![t as u8])))
        });
    }
}

// ---------------------------------------------------------------- C07

/// Input placed directly before an unmapped page: reading past its end faults.
struct GuardBuf {
    base: *mut u8,
    cap: usize,
}
impl GuardBuf {
    fn new(cap: usize) -> GuardBuf {
        unsafe {
            let cap = (cap + 4095) & !4095;
            let p = libc::mmap(std::ptr::null_mut(), cap + 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(p as isize > 0);
            assert!(libc::mprotect(p.add(cap) as _, 4096, libc::PROT_NONE) == 0);
            GuardBuf { base: p, cap }
        }
    }
    fn put(&self, d: &[u8]) -> &[u8] {
        unsafe {
            let p = self.base.add(self.cap - d.len());
            std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
            std::slice::from_raw_parts(p, d.len())
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Dec {
    Int,
    Big,
    Info,
    Tx,
    TBlock,
    DBlock,
    SBlock,
    Main,
}
use Dec::*;
const DECS: [Dec; 8] = [Dec::Int, Big, Info, Dec::Tx, TBlock, DBlock, SBlock, Main];

/// decode; Ok(Some(encoding again)) / Ok(None) = refused / Err = crashed
fn dec(k: Dec, d: &[u8]) -> Result<Option<Vec<u8>>, String> {
    guard(|| match k {
        Dec::Int => tools::load_u256(d).ok().map(|x| {
            let mut v = vec![];
            tools::dump_u256(&x.0, &mut v).unwrap();
            v
        }),
        Big => tools::load_biguint(d).ok().map(|x| {
            let mut v = vec![];
            tools::dump_biguint(&x.0, &mut v).unwrap();
            v
        }),
        Info => BasicInfo::parse(d).ok().map(|x| {
            let mut v = vec![];
            x.dump(&mut v).unwrap();
            v
        }),
        Dec::Tx => Transaction::parse(d).ok().map(|x| x.dump().unwrap()[1..].to_vec()),
        TBlock => TransactionBlock::parse(d).ok().map(|x| x.dump().unwrap()[1..].to_vec()),
        DBlock => DerivativeBlock::parse(d).ok().map(|x| x.dump().unwrap()[1..].to_vec()),
        SBlock => SummarizeBlock::parse(d).ok().map(|x| x.dump().unwrap()[1..].to_vec()),
        Main => block::deserialize_main_chain_block(d).ok().map(|x| x.dump().unwrap()),
    })
}
/// does the reference grammar need more bytes than there are? (then the input must be refused)
fn incomplete(k: Dec, d: &[u8]) -> bool {
    let int = |at: usize| -> Option<usize> {
        let l = *d.get(at)? as usize;
        (d.len() >= at + 1 + l).then_some(at + 1 + l)
    };
    match k {
        Dec::Int | Big => int(0).is_none(),
        Info | DBlock => int(137).is_none(),
        Dec::Tx => int(138).is_none(),
        SBlock => int(169).is_none(),
        TBlock => match int(169) {
            None => true,
            Some(e) => match int(e) {
                None => true,
                Some(e) => (d.len() - e) % 32 != 0,
            },
        },
        Main => match d.first() {
            None => true,
            Some(2) => incomplete(TBlock, &d[1..]),
            Some(4) => incomplete(SBlock, &d[1..]),
            Some(_) => true, // not a main chain block at all
        },
    }
}
/// a canonical complete encoding (shortest integers): decodes, and encodes back to itself
fn probe(c: &mut Ctx, g: &GuardBuf, k: Dec, d: &[u8], canonical: bool, what: &str) -> R {
    c.transitions += 1;
    let r = dec(k, g.put(d)).map_err(|p| Fail::from(format!("{k:?} of {what} ({} bytes, {}...) {p}", d.len(), hex(&d[..d.len().min(8)]))))?;
    if let (Main, Some(e)) = (k, &r) {
        ensure!(matches!(d[0], 2 | 4), "{what}: a string of type {} was decoded as a main chain block", d[0]);
        same!(e[0], d[0], "{what}: the type of the decoded block");
    }
    let inc = incomplete(k, d);
    if inc && canonical {
        ensure!(r.is_none(), "{k:?} of {what}: {} bytes are incomplete but were decoded", d.len());
    }
    if canonical && !inc {
        match r {
            None => return Err(format!("{k:?} of {what}: a complete encoding of {} bytes was refused", d.len()).into()),
            Some(e) => same!(hex(&e), hex(d), "{k:?} of {what}: encoding of the decoded value"),
        }
        c.count("complete_inputs", 1);
    } else {
        c.count("malformed_inputs", 1);
    }
    Ok(())
}

fn shapes(th: bool) -> Vec<(Dec, Vec<u8>)> {
    let mut v = vec![];
    let hs: Vec<U256> = if th { ints_bytes() } else { vec![u(0), u(1), u(255), u(256), pow2(64), pow2(247), pow2(255), U256::MAX] };
    for h in &hs {
        v.push((Dec::Int, enc_u256(h)));
        let b = BigUint::from_bytes_be(&be32(h));
        let mut e = vec![];
        tools::dump_biguint(&b, &mut e).unwrap();
        v.push((Big, e));
        let mut i = base_info();
        i.height = *h;
        let mut d = vec![];
        i.dump(&mut d).unwrap();
        v.push((Info, d.clone()));
        v.push((DBlock, d));
        let s = SummarizeBlock { default_info: i.clone(), merkle_tree_root: hh(9) }.dump().unwrap();
        v.push((SBlock, s[1..].to_vec()));
        v.push((Main, s));
        for f in [u(0), *h, U256::MAX] {
            for n in 0..4 {
                let d = TransactionBlock::new(f, i.clone(), hh(9), (0..n).map(hh).collect()).dump().unwrap();
                v.push((TBlock, d[1..].to_vec()));
                v.push((Main, d));
            }
        }
        for n in [0usize, 1, 40] {
            let d = Transaction::new_signed(addr(1), addr(2), 5, *h, Some(vec![3; n]), [7; 64]).dump().unwrap();
            v.push((Dec::Tx, d[1..].to_vec()));
        }
    }
    v
}

fn c07(c: &mut Ctx) {
    let th = c.thorough();
    let g = GuardBuf::new(1 << 17);
    let sh = shapes(th);
    // every truncation of every shape, by every decoder
    for (n, (k, d)) in sh.iter().enumerate() {
        c.case(|| format!("truncations of shape {n} ({k:?}, {} bytes)", d.len()), |c| {
            for l in 0..=d.len() {
                probe(c, &g, *k, &d[..l], true, "a truncated encoding")?;
                for o in DECS {
                    if o != *k {
                        probe(c, &g, o, &d[..l], false, "another type's encoding")?;
                    }
                }
                c.state(&(k, &d[..l]));
            }
            Ok(())
        });
    }
    // every byte of every shape replaced by every value (quick: structural bytes by every value)
    for (n, (k, d)) in sh.iter().enumerate() {
        c.case(|| format!("byte replacements in shape {n} ({k:?}, {} bytes)", d.len()), |c| {
            for p in 0..d.len() {
                let structural = match k {
                    Dec::Tx => p >= 138,
                    Main => p == 0 || p >= 169,
                    TBlock | SBlock => p >= 168,
                    _ => p >= 136 || d.len() < 100,
                };
                let mut x = d.clone();
                for v in 0..=255u8 {
                    if !structural && !th && ![0, 1, 0x7f, 0x80, 0xff].contains(&v) {
                        continue;
                    }
                    x[p] = v;
                    probe(c, &g, *k, &x, false, "an encoding with one byte replaced")?;
                    if structural {
                        // the same with the tail cut at places around the length it now claims
                        for cut in [0usize, 1, 2, 31, 32, 33] {
                            let at = (p + 1 + v as usize + cut).saturating_sub(2).min(x.len());
                            probe(c, &g, *k, &x[..at], false, "an encoding with one byte replaced, cut")?;
                        }
                    }
                }
                c.state(&(n, p));
            }
            Ok(())
        });
    }
    // both length bytes of a transaction block together
    for hl in 0..=255u8 {
        c.case(|| format!("block with height length {hl} and every fee length"), |c| {
            for fl in 0..=255u8 {
                for total in [170usize, 171, 200, 202, 203, 204, 236, 300, 460, 700] {
                    let mut d = vec![0x11u8; total];
                    d[169] = hl;
                    let at = 170 + hl as usize;
                    if at < total {
                        d[at] = fl;
                    }
                    // also where a canonical reading of a zero-padded height would put the fee
                    probe(c, &g, TBlock, &d, false, "a block with arbitrary length bytes")?;
                    for b in d[170.min(total)..at.min(total)].iter_mut() {
                        *b = 0;
                    }
                    probe(c, &g, TBlock, &d, false, "a block with zero-padded height")?;
                    if total > 170 {
                        d[170] = fl;
                        probe(c, &g, TBlock, &d, false, "a block with arbitrary length bytes")?;
                    }
                }
            }
            c.state(&hl);
            Ok(())
        });
    }
    // all short strings
    for a in 0..=255u8 {
        c.case(|| format!("all strings of up to {} bytes starting with {a:#04x}", if th { 3 } else { 2 }), |c| {
            for k in DECS {
                probe(c, &g, k, &[], false, "the empty string")?;
                probe(c, &g, k, &[a], false, "a one-byte string")?;
                for b in 0..=255u8 {
                    probe(c, &g, k, &[a, b], false, "a two-byte string")?;
                    if th {
                        for x in 0..=255u8 {
                            probe(c, &g, k, &[a, b, x], false, "a three-byte string")?;
                        }
                    }
                }
            }
            c.state(&a);
            Ok(())
        });
    }
    // constant strings of every length
    for b in 0..=255u8 {
        c.case(|| format!("constant strings of byte {b:#04x}"), |c| {
            let d = vec![b; 420];
            for l in 0..d.len() {
                for k in DECS {
                    probe(c, &g, k, &d[..l], false, "a constant string")?;
                }
                for first in [2u8, 4] {
                    let mut x = d[..l].to_vec();
                    if let Some(f) = x.first_mut() {
                        *f = first;
                    }
                    probe(c, &g, Main, &x, false, "a constant string behind a block type")?;
                }
            }
            Ok(())
        });
    }
    // type bytes
    c.case(|| "type bytes".into(), |_| {
        for b in 0..=255u8 {
            guard(|| blockchaintree::dump_headers::Headers::from_u8(b).is_ok())?;
        }
        Ok(())
    });
    // long inputs
    for k in DECS {
        c.case(|| format!("long inputs for {k:?}"), |c| {
            for n in [1000usize, 4096, 65_537, 130_000] {
                for b in [0u8, 1, 32, 33, 255] {
                    let d = vec![b; n];
                    probe(c, &g, k, &d, false, "a long string")?;
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C08

struct Uniq {
    m: HashMap<H, Vec<u8>>,
}
impl Uniq {
    /// all values differ in some field, so no two may share encoding or hash
    fn add(&mut self, what: &str, h: H, d: Vec<u8>) -> R {
        same!(hex(&h), hex(&sha(&[&d])), "{what}: hash against SHA-256 of the encoding");
        if let Some(o) = self.m.insert(h, d) {
            return Err(format!("{what}: two different values share hash {} (encoding {})", hex(&h), hex(&o[..o.len().min(40)])).into());
        }
        Ok(())
    }
}
fn flips(n: usize) -> impl Iterator<Item = (usize, u8)> {
    (0..n * 8).map(|i| (i / 8, 1 << (i % 8)))
}
fn all_info_flips() -> Vec<BasicInfo> {
    let b = base_info();
    let mut v = vec![b.clone()];
    for i in 0..64 {
        let mut x = b.clone();
        x.timestamp ^= 1 << i;
        v.push(x);
    }
    for (p, m) in flips(32) {
        let mut x = b.clone();
        x.pow[p] ^= m;
        v.push(x);
        let mut x = b.clone();
        x.previous_hash[p] ^= m;
        v.push(x);
        let mut x = b.clone();
        x.difficulty[p] ^= m;
        v.push(x);
    }
    for (p, m) in flips(33) {
        let mut x = b.clone();
        x.founder[p] ^= m;
        v.push(x);
    }
    for i in 0..256 {
        let mut x = b.clone();
        x.height = x.height ^ pow2(i);
        v.push(x);
    }
    v
}

fn c08(c: &mut Ctx) {
    c.case(|| "blocks: every single-bit change of every field, all pairs".into(), |c| {
        let mut un = Uniq { m: HashMap::new() };
        for i in all_info_flips() {
            let b = DerivativeBlock { default_info: i.clone() };
            un.add("derivative block", ok("hash", guard(|| b.hash()))?, ok("dump", guard(|| b.dump()))?)?;
            let b = SummarizeBlock { default_info: i.clone(), merkle_tree_root: hh(9) };
            un.add("closing block", ok("hash", guard(|| b.hash()))?, ok("dump", guard(|| b.dump()))?)?;
            let b = TransactionBlock::new(u(62500), i.clone(), hh(9), vec![hh(1), hh(2)]);
            un.add("transaction block", ok("hash", guard(|| Block::hash(&b)))?, ok("dump", guard(|| b.dump()))?)?;
            same!(ok("hash", guard(|| TransactionBlock::hash(&b)))?, ok("hash", guard(|| Block::hash(&b)))?, "the two hash functions");
            c.transitions += 3;
        }
        for (p, m) in flips(32) {
            let mut r = hh(9);
            r[p] ^= m;
            let b = SummarizeBlock { default_info: base_info(), merkle_tree_root: r };
            un.add("closing block", ok("hash", guard(|| b.hash()))?, ok("dump", guard(|| b.dump()))?)?;
            let b = TransactionBlock::new(u(62500), base_info(), r, vec![hh(1), hh(2)]);
            un.add("transaction block", ok("hash", guard(|| Block::hash(&b)))?, ok("dump", guard(|| b.dump()))?)?;
            for t in 0..2 {
                let mut l = vec![hh(1), hh(2)];
                l[t][p] ^= m;
                let b = TransactionBlock::new(u(62500), base_info(), hh(9), l);
                un.add("transaction block", ok("hash", guard(|| Block::hash(&b)))?, ok("dump", guard(|| b.dump()))?)?;
            }
            c.transitions += 4;
        }
        for i in 0..256 {
            let b = TransactionBlock::new(u(62500) ^ pow2(i), base_info(), hh(9), vec![hh(1), hh(2)]);
            un.add("transaction block", ok("hash", guard(|| Block::hash(&b)))?, ok("dump", guard(|| b.dump()))?)?;
        }
        let lists: Vec<Vec<u64>> = vec![vec![], vec![1], vec![2], vec![2, 1], vec![1, 1], vec![1, 2, 3], vec![1, 3, 2], vec![1, 2, 2], vec![1, 2, 3, 4], vec![4, 3, 2, 1]];
        for l in lists {
            let b = TransactionBlock::new(u(62500), base_info(), hh(9), l.into_iter().map(hh).collect());
            un.add("transaction block", ok("hash", guard(|| Block::hash(&b)))?, ok("dump", guard(|| b.dump()))?)?;
        }
        c.count("pairwise_distinct_values", un.m.len() as u64);
        for h in un.m.keys() {
            c.state(h);
        }
        Ok(())
    });
    c.case(|| "blocks: heights x fees at every width, all pairs".into(), |c| {
        let mut un = Uniq { m: HashMap::new() };
        let fs = if c.thorough() { ints_bytes() } else { vec![u(0), u(1), u(255), u(256), pow2(64), pow2(248), U256::MAX] };
        for h in ints_bytes() {
            for f in &fs {
                for n in 0..3 {
                    let mut i = base_info();
                    i.height = h;
                    let b = TransactionBlock::new(*f, i, hh(9), (0..n).map(hh).collect());
                    un.add("transaction block", ok("hash", guard(|| Block::hash(&b)))?, ok("dump", guard(|| b.dump()))?)?;
                    c.transitions += 1;
                }
            }
        }
        for h in un.m.keys() {
            c.state(h);
        }
        Ok(())
    });
    // transactions
    let (s, r, t, sg, a) = (addr(1), addr(2), 1_650_000_000u64, [7u8; 64], u(123_456));
    for data in [None, Some(vec![1u8]), Some(vec![1u8, 2, 3, 4, 5, 6, 7, 8])] {
        c.case(|| format!("transactions: every single-bit change, payload {data:?}"), |c| {
            let mut un = Uniq { m: HashMap::new() };
            let mut dg: HashMap<H, String> = HashMap::new();
            let base = Transaction::new_signed(s, r, t, a, data.clone(), sg);
            let d0 = guard(|| base.hash_without_signature())?;
            let mut add = |c: &mut Ctx, x: Transaction, what: String, digest_new: bool| -> R {
                let h = guard(|| x.hash())?;
                let d = ok("dump", guard(|| x.dump()))?;
                let g = guard(|| x.hash_without_signature())?;
                if digest_new {
                    if let Some(o) = dg.insert(g, what.clone()) {
                        return Err(format!("the signed digest is the same for '{what}' and '{o}'").into());
                    }
                } else {
                    same!(g, d0, "{what}: the signed digest depends on the signature");
                }
                let y = ok("parse", guard(|| Transaction::parse(&d[1..])))?;
                same!(guard(|| y.hash_without_signature())?, g, "{what}: digest after decoding");
                same!(guard(|| y.hash())?, h, "{what}: hash after decoding");
                c.transitions += 1;
                un.add(&what, h, d)
            };
            add(c, base.clone(), "base".into(), true)?;
            for (p, m) in flips(33) {
                let mut x = s;
                x[p] ^= m;
                add(c, Transaction::new_signed(x, r, t, a, data.clone(), sg), format!("sender bit {p}/{m}"), true)?;
                let mut x = r;
                x[p] ^= m;
                add(c, Transaction::new_signed(s, x, t, a, data.clone(), sg), format!("receiver bit {p}/{m}"), true)?;
            }
            add(c, Transaction::new_signed(r, s, t, a, data.clone(), sg), "sender and receiver swapped".into(), true)?;
            for i in 0..64 {
                add(c, Transaction::new_signed(s, r, t ^ 1 << i, a, data.clone(), sg), format!("time bit {i}"), true)?;
            }
            for i in 0..256 {
                add(c, Transaction::new_signed(s, r, t, a ^ pow2(i), data.clone(), sg), format!("amount bit {i}"), true)?;
            }
            for (p, m) in flips(64) {
                let mut x = sg;
                x[p] ^= m;
                add(c, Transaction::new_signed(s, r, t, a, data.clone(), x), format!("signature bit {p}/{m}"), false)?;
            }
            let d = data.clone().unwrap_or_default();
            for (p, m) in flips(d.len()) {
                let mut x = d.clone();
                x[p] ^= m;
                add(c, Transaction::new_signed(s, r, t, a, Some(x), sg), format!("payload bit {p}/{m}"), true)?;
            }
            for b in 0..=255u8 {
                let mut x = d.clone();
                x.push(b);
                add(c, Transaction::new_signed(s, r, t, a, Some(x), sg), format!("payload longer by {b}"), true)?;
            }
            if d.len() > 1 {
                add(c, Transaction::new_signed(s, r, t, a, Some(d[..d.len() - 1].to_vec()), sg), "payload shorter".into(), true)?;
            }
            for h in un.m.keys() {
                c.state(h);
            }
            Ok(())
        });
    }
    // amount/payload boundary: the payload must not be readable as part of the amount
    c.case(|| "transactions: amounts of every width x payloads, all pairs".into(), |c| {
        let mut un = Uniq { m: HashMap::new() };
        let mut dg: HashMap<H, String> = HashMap::new();
        let amounts = ints_bytes();
        let mut pays: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], vec![1], vec![1, 0], vec![0, 1], vec![255]];
        if c.thorough() {
            for n in 3..40 {
                pays.push(vec![0; n]);
                pays.push(vec![1; n]);
            }
        }
        for a in &amounts {
            for p in &pays {
                let x = Transaction::new_signed(s, r, t, *a, Some(p.clone()), sg);
                let g = guard(|| x.hash_without_signature())?;
                if let Some(o) = dg.insert(g, format!("{a:#x} {p:?}")) {
                    return Err(format!("the signed digest is the same for amount/payload {a:#x} {p:?} and {o}").into());
                }
                un.add("transaction", guard(|| x.hash())?, ok("dump", guard(|| x.dump()))?)?;
                c.transitions += 1;
            }
        }
        for h in un.m.keys() {
            c.state(h);
        }
        Ok(())
    });
    // payloads and lists of every size
    for n in ladder(c.pick(1 << 16, 1 << 20)) {
        c.case(|| format!("transactions with a payload of {n} bytes: alterations all along it"), |c| {
            let mut un = Uniq { m: HashMap::new() };
            let mut dg: HashMap<H, String> = HashMap::new();
            let d: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
            let mut add = |c: &mut Ctx, p: Vec<u8>, what: String| -> R {
                let x = Transaction::new_signed(s, r, t, a, (!p.is_empty()).then_some(p), sg);
                if let Some(o) = dg.insert(guard(|| x.hash_without_signature())?, what.clone()) {
                    return Err(format!("the signed digest is the same for a payload of {n} bytes '{what}' and '{o}'").into());
                }
                c.transitions += 1;
                let e = ok("dump", guard(|| x.dump()))?;
                un.add(&what, guard(|| x.hash())?, e)
            };
            add(c, d.clone(), "as it is".into())?;
            for p in positions(n) {
                let mut x = d.clone();
                x[p] ^= 1 << (p % 8);
                add(c, x, format!("changed at {p}"))?;
            }
            let mut x = d.clone();
            x.push(0);
            add(c, x, "longer".into())?;
            if n > 0 {
                add(c, d[..n - 1].to_vec(), "shorter".into())?;
            }
            c.state(&("payload", n));
            Ok(())
        });
    }
    for n in ladder(c.pick(5001, 70_000)) {
        c.case(|| format!("blocks of {n} transactions: alterations all along the list"), |c| {
            let mut un = Uniq { m: HashMap::new() };
            let l: Vec<H> = (0..n as u64).map(hh).collect();
            let mut add = |c: &mut Ctx, l: Vec<H>, what: String| -> R {
                let b = TransactionBlock::new(u(62500), base_info(), hh(9), l);
                c.transitions += 1;
                un.add(&what, ok("hash", guard(|| Block::hash(&b)))?, ok("dump", guard(|| b.dump()))?)
            };
            add(c, l.clone(), "as it is".into())?;
            for p in positions(n) {
                let mut x = l.clone();
                x[p][p % 32] ^= 1;
                add(c, x, format!("changed at {p}"))?;
                if p + 1 < n {
                    let mut x = l.clone();
                    x.swap(p, p + 1);
                    add(c, x, format!("exchanged at {p}"))?;
                }
            }
            let mut x = l.clone();
            x.push(hh(3));
            add(c, x, "longer".into())?;
            if n > 0 {
                add(c, l[..n - 1].to_vec(), "shorter".into())?;
            }
            c.state(&("list", n));
            Ok(())
        });
    }
    // created and re-assembled transactions agree
    for n in 0..c.pick(24, 200u64) {
        c.case(|| format!("signed transaction {n}"), |c| {
            let k = key(n);
            let x = tx(&k, &addr(n), n * 7, U256::from(n) << (n % 200) as usize, (n % 3 != 0).then(|| vec![n as u8; (n % 50) as usize + 1]));
            let y = Transaction::new_signed(*x.get_sender(), *x.get_receiver(), x.get_timestamp(), *Transaction::get_amount(&x), x.get_data().map(|d| d.to_vec()), *x.get_signature());
            same!(hex(&guard(|| x.hash())?), hex(&guard(|| y.hash())?), "hash of the same fields");
            same!(hex(&guard(|| x.hash())?), hex(&sha(&[&ok("dump", guard(|| x.dump()))?])), "hash against SHA-256 of the encoding");
            same!(guard(|| x.hash_without_signature())?, guard(|| y.hash_without_signature())?, "digest of the same fields");
            let z = x.clone();
            same!(guard(|| x.hash())?, guard(|| z.hash())?, "hash of a clone");
            c.transitions += 1;
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C09

fn verdict(x: &Transaction) -> Result<bool, Fail> {
    match guard(|| x.verify()) {
        Ok(r) => Ok(r.unwrap_or(false)),
        Err(p) => Err(format!("verify {p}").into()),
    }
}
fn rebuild(x: &Transaction, f: impl FnOnce(&mut Addr, &mut Addr, &mut u64, &mut U256, &mut Vec<u8>, &mut [u8; 64])) -> Transaction {
    let (mut s, mut r, mut t, mut a, mut d, mut g) = (*x.get_sender(), *x.get_receiver(), x.get_timestamp(), *Transaction::get_amount(x), x.get_data().unwrap_or(&[]).to_vec(), *x.get_signature());
    f(&mut s, &mut r, &mut t, &mut a, &mut d, &mut g);
    Transaction::new_signed(s, r, t, a, if d.is_empty() { None } else { Some(d) }, g)
}

fn c09(c: &mut Ctx) {
    let th = c.thorough();
    let n: [u8; 32] = {
        let mut b = [0u8; 32];
        b.copy_from_slice(&(0..32).map(|i| u8::from_str_radix(&"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>());
        b
    };
    let order = U256::from_big_endian(&n);
    let p = U256::MAX - ((U256::one() << 32) + 977) + 1;
    let mut shapes: Vec<(U256, Vec<u8>)> = vec![(u(0), vec![]), (u(5), vec![]), (u(300), vec![7]), (pow2(255), (0..32).collect()), (U256::MAX, vec![0; 3])];
    if th {
        for a in ints_bytes() {
            shapes.push((a, vec![1, 2]));
        }
        for l in [1usize, 31, 33, 64, 300] {
            shapes.push((u(9), vec![0xaa; l]));
        }
    }
    for (i, (a, d)) in shapes.iter().enumerate() {
        for kn in 0..c.pick(2, 3u64) {
            c.case(|| format!("bit alterations of transaction {i} (amount {a:#x}, payload {}) by key {kn}", d.len()), |c| {
                let k = key(kn);
                let x = tx(&k, &addr(9), 1_650_000_000 + kn, *a, if d.is_empty() { None } else { Some(d.clone()) });
                ensure!(verdict(&x)?, "the untouched transaction does not verify");
                let enc = ok("dump", guard(|| x.dump()))?;
                ensure!(verdict(&ok("parse", guard(|| Transaction::parse(&enc[1..])))?)?, "the decoded transaction does not verify");
                // each bit of the encoding
                for pos in 1..enc.len() {
                    for b in 0..8 {
                        let mut e = enc.clone();
                        e[pos] ^= 1 << b;
                        if let Ok(y) = guard(|| Transaction::parse(&e[1..]))? {
                            ensure!(!verdict(&y)?, "byte {pos} bit {b} of the encoding altered, but it still verifies");
                            c.count("altered_encodings_judged", 1);
                        }
                        c.transitions += 1;
                    }
                }
                // each bit of each field
                let mut no = |c: &mut Ctx, y: Transaction, what: String| -> R {
                    ensure!(!verdict(&y)?, "{what} altered, but it still verifies");
                    c.transitions += 1;
                    c.state(&ref_dump(&y));
                    Ok(())
                };
                for (q, m) in flips(33) {
                    no(c, rebuild(&x, |s, _, _, _, _, _| s[q] ^= m), format!("sender byte {q} mask {m}"))?;
                    no(c, rebuild(&x, |_, r, _, _, _, _| r[q] ^= m), format!("receiver byte {q} mask {m}"))?;
                }
                for b in 0..64 {
                    no(c, rebuild(&x, |_, _, t, _, _, _| *t ^= 1 << b), format!("time bit {b}"))?;
                }
                for b in 0..256 {
                    no(c, rebuild(&x, |_, _, _, a, _, _| *a = *a ^ pow2(b)), format!("amount bit {b}"))?;
                }
                for (q, m) in flips(64) {
                    no(c, rebuild(&x, |_, _, _, _, _, g| g[q] ^= m), format!("signature byte {q} mask {m}"))?;
                }
                for (q, m) in flips(d.len()) {
                    no(c, rebuild(&x, |_, _, _, _, d, _| d[q] ^= m), format!("payload byte {q} mask {m}"))?;
                }
                for b in [0u8, 1, 255] {
                    no(c, rebuild(&x, |_, _, _, _, d, _| d.push(b)), format!("payload extended by {b}"))?;
                    no(c, rebuild(&x, |_, _, _, _, d, _| d.insert(0, b)), format!("payload prefixed by {b}"))?;
                }
                if !d.is_empty() {
                    no(c, rebuild(&x, |_, _, _, _, d, _| { d.pop(); }), "payload shortened".into())?;
                    no(c, rebuild(&x, |_, _, _, _, d, _| d.clear()), "payload dropped".into())?;
                }
                // the mirrored signature
                no(c, rebuild(&x, |_, _, _, _, _, g| {
                    let s = U256::from_big_endian(&g[32..]);
                    (order - s).to_big_endian(&mut g[32..]);
                }), "signature mirrored".into())?;
                no(c, rebuild(&x, |_, _, _, _, _, g| g.rotate_left(32)), "signature halves swapped".into())?;
                no(c, rebuild(&x, |s, r, _, _, _, _| std::mem::swap(s, r)), "sender and receiver swapped".into())?;
                Ok(())
            });
        }
    }
    // payloads of every size: alterations all along them
    for l in ladder(c.pick(1 << 16, 1 << 20)) {
        c.case(|| format!("a signed payload of {l} bytes, altered all along it"), |c| {
            let k = key(2);
            let d: Vec<u8> = (0..l).map(|i| (i % 253) as u8).collect();
            let x = tx(&k, &addr(9), 1_650_000_000, u(77), (l > 0).then(|| d.clone()));
            ensure!(verdict(&x)?, "the untouched transaction does not verify");
            let enc = ok("dump", guard(|| x.dump()))?;
            ensure!(verdict(&ok("parse", guard(|| Transaction::parse(&enc[1..])))?)?, "the decoded transaction does not verify");
            for p in positions(l) {
                for m in [1u8, 0x80] {
                    ensure!(!verdict(&rebuild(&x, |_, _, _, _, d, _| d[p] ^= m))?, "payload of {l} bytes altered at byte {p}, but it still verifies");
                    c.transitions += 1;
                }
            }
            ensure!(!verdict(&rebuild(&x, |_, _, _, _, d, _| d.push(0)))?, "payload of {l} bytes extended, but it still verifies");
            if l > 0 {
                ensure!(!verdict(&rebuild(&x, |_, _, _, _, d, _| { d.pop(); }))?, "payload of {l} bytes shortened, but it still verifies");
                ensure!(!verdict(&rebuild(&x, |_, _, _, a, _, _| *a = *a ^ pow2(3)))?, "amount altered beside a payload of {l} bytes, but it still verifies");
                ensure!(!verdict(&rebuild(&x, |_, _, t, _, _, _| *t ^= 1))?, "time altered beside a payload of {l} bytes, but it still verifies");
            }
            c.state(&("size", l));
            Ok(())
        });
    }
    // every pair of keys
    let nk = c.pick(6, 14u64);
    for a in 0..nk {
        c.case(|| format!("key {a} against every other key"), |c| {
            for b in 0..nk {
                let (ka, kb) = (key(a), key(b));
                // signed by b, claimed by a
                let r = guard(|| Transaction::new(ka.pk, addr(3), 1, u(2), kb.sk, None))?;
                let x = r.map_err(|e| short(&e))?;
                same!(verdict(&x)?, a == b, "transaction of key {a} signed by key {b}");
                // a correctly signed transaction with the sender replaced afterwards
                let y = rebuild(&tx(&kb, &addr(3), 1, u(2), None), |s, _, _, _, _, _| *s = ka.pk);
                same!(verdict(&y)?, a == b, "transaction of key {b} claimed by key {a}");
                c.transitions += 2;
                c.state(&(a, b));
            }
            // the mirrored public key
            let k = key(a);
            let y = rebuild(&tx(&k, &addr(3), 1, u(2), None), |s, _, _, _, _, _| s[0] ^= 1);
            ensure!(!verdict(&y)?, "the mirrored key verifies");
            Ok(())
        });
    }
    // secret keys at the ends of the range
    for (i, sk) in [u(0), u(1), u(2), order - 1, order, order + 1, U256::MAX, order / 2].into_iter().enumerate() {
        c.case(|| format!("secret key boundary {i}"), |c| {
            let s = be32(&sk);
            match guard(|| Transaction::new(addr(1), addr(2), 3, u(4), s, None))? {
                Err(_) => ensure!(sk.is_zero() || sk >= order, "secret key {sk:#x} was refused"),
                Ok(_) => {
                    ensure!(!sk.is_zero() && sk < order, "secret key {sk:#x} is not valid but was used");
                    let pk = secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &secp256k1::SecretKey::from_slice(&s).unwrap()).serialize();
                    let x = Transaction::new(pk, addr(2), 3, u(4), s, Some(vec![1])).map_err(|e| short(&e))?;
                    ensure!(verdict(&x)?, "transaction signed by {sk:#x} does not verify");
                }
            }
            c.transitions += 1;
            Ok(())
        });
    }
    // signatures at the ends of the range, senders of every form
    let edge = vec![u(0), u(1), u(2), order - 1, order, order + 1, order / 2, order / 2 + 1, p - 1, p, p + 1, U256::MAX];
    for (i, r) in edge.iter().enumerate() {
        c.case(|| format!("signature boundary r {i}"), |c| {
            for s in &edge {
                let mut g = [0u8; 64];
                g[..32].copy_from_slice(&be32(r));
                g[32..].copy_from_slice(&be32(s));
                for sender in [key(1).pk, [0; 33], [0xff; 33]] {
                    let x = Transaction::new_signed(sender, addr(2), 3, u(4), None, g);
                    ensure!(!verdict(&x)?, "a boundary signature r={r:#x} s={s:#x} verifies");
                    c.transitions += 1;
                }
                c.state(&g.to_vec());
            }
            Ok(())
        });
    }
    for first in 0..=255u8 {
        c.case(|| format!("sender key form {first:#04x}"), |c| {
            let good = tx(&key(1), &addr(2), 3, u(4), None);
            for x0 in [U256::from_big_endian(&key(1).pk[1..]), u(0), u(1), u(5), p - 1, p, p + 1, U256::MAX] {
                let y = rebuild(&good, |s, _, _, _, _, _| {
                    s[0] = first;
                    s[1..].copy_from_slice(&be32(&x0));
                });
                let v = verdict(&y)?;
                let same_key = *y.get_sender() == key(1).pk;
                same!(v, same_key, "sender form {first:#04x}, x {x0:#x}");
                c.transitions += 1;
            }
            Ok(())
        });
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", level: "model_checking", run: c06, exhaustive: true, shards: 8,
            rule: "every value of the boundary sets (integers of every byte length, single bits, all-ones and hole patterns; timestamps, hashes, addresses; payload and list lengths) put in every field; each is encoded, measured, decoded, compared field by field and encoded again; states = distinct encodings, transitions = round trips on the real codec",
            assumptions: &["an empty payload and no payload are the same value"] },
        Prop { id: "C07", level: "model_checking", run: c07, exhaustive: true, shards: 8,
            rule: "every truncation of every shape, by every decoder; every byte of every shape replaced (structural bytes by all 256 values, others by 5 values quick / 256 thorough) with the tail cut around the claimed length; all pairs of length bytes of a block; all strings up to 2 (thorough 3) bytes; constant strings of every length; each input lies directly before an unmapped page, with overflow and precondition checks on; a reference grammar says which inputs are incomplete; states = distinct (shape, position) explored, transitions = decodings executed",
            assumptions: &["reads before the start of the input are only caught by Rust's own bounds and precondition checks"] },
        Prop { id: "C08", level: "model_checking", run: c08, exhaustive: true, shards: 8,
            rule: "every single-bit change of every field of transactions and of the three block kinds, all list and payload edits, all heights x fees x lists and amounts x payloads of the boundary sets, and payloads and lists of every size class (around powers of two and round numbers) altered along their whole length; all values in a case are pairwise compared through a map of hashes; states = distinct hashes, transitions = values hashed",
            assumptions: &["SHA-256 collision resistance"] },
        Prop { id: "C09", level: "model_checking", run: c09, exhaustive: true, shards: 8,
            rule: "every single-bit alteration of every field and of every byte of the encoding of signed transactions of several shapes; payloads of every size class up to 2^16 (thorough 2^20) bytes altered along their whole length; all pairs of keys; boundary scalars for r, s and the secret key; every first byte of the sender with boundary coordinates; states = distinct altered transactions, transitions = verifications executed",
            assumptions: &["libsecp256k1 implements ECDSA verification"] },
    ]
}

//! Reference models shared by the chain and persistence checks.
use crate::rt::*;
use crate::util::*;
use crate::{ensure, same};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub const EPOCH: u64 = 1_000_000;

/// any block the code under test can produce or store
#[derive(Clone)]
pub struct Blk {
    pub b: BlockArc,
    pub raw: Vec<u8>,
    pub hash: H,
}
impl Blk {
    pub fn of(b: BlockArc) -> Result<Blk, Fail> {
        let raw = ok("dump", guard(|| b.dump()))?;
        let hash = ok("hash", guard(|| b.hash()))?;
        Ok(Blk { b, raw, hash })
    }
    pub fn d(&self) -> H {
        self.b.get_info().difficulty
    }
    pub fn ts(&self) -> u64 {
        self.b.get_info().timestamp
    }
    pub fn h(&self) -> U256 {
        self.b.get_info().height
    }
}

#[derive(Clone)]
pub enum Ch {
    M(MainChain),
    D(DerivativeChain),
}
impl Ch {
    pub fn height(&self) -> Result<U256, Fail> {
        Ok(guard(|| match self {
            Ch::M(c) => c.get_height(),
            Ch::D(c) => c.get_height(),
        })?)
    }
    /// by height: raw and decoded views must agree
    pub fn at(&self, h: &U256) -> Result<Option<Vec<u8>>, Fail> {
        let (raw, dec): (Option<Vec<u8>>, Option<Vec<u8>>) = match self {
            Ch::M(c) => (
                ok("find_raw_by_height", guard(|| c.find_raw_by_height(h)))?,
                ok("find_by_height", guard(|| c.find_by_height(h)))?.map(|b| b.dump().unwrap()),
            ),
            Ch::D(c) => (
                ok("find_raw_by_height", guard(|| c.find_raw_by_height(h)))?,
                ok("find_by_height", guard(|| c.find_by_height(h)))?.map(|b| b.dump().unwrap()),
            ),
        };
        same!(dec.map(|x| hex(&x)), raw.as_ref().map(|x| hex(x)), "decoded and raw block at height {h}");
        Ok(raw)
    }
    pub fn by(&self, x: &H) -> Result<Option<Vec<u8>>, Fail> {
        let (raw, dec): (Option<Vec<u8>>, Option<Vec<u8>>) = match self {
            Ch::M(c) => (
                ok("find_raw_by_hash", guard(|| c.find_raw_by_hash(x)))?,
                ok("find_by_hash", guard(|| c.find_by_hash(x)))?.map(|b| b.dump().unwrap()),
            ),
            Ch::D(c) => (
                ok("find_raw_by_hash", guard(|| c.find_raw_by_hash(x)))?,
                ok("find_by_hash", guard(|| c.find_by_hash(x)))?.map(|b| b.dump().unwrap()),
            ),
        };
        same!(dec.map(|x| hex(&x)), raw.as_ref().map(|x| hex(x)), "decoded and raw block under hash {}", s8(x));
        Ok(raw)
    }
    pub fn last(&self) -> Result<Option<Vec<u8>>, Fail> {
        let (raw, dec): (Option<Vec<u8>>, Option<Vec<u8>>) = match self {
            Ch::M(c) => (
                ok("get_last_raw_block", guard(|| c.get_last_raw_block()))?,
                ok("get_last_block", guard(|| c.get_last_block()))?.map(|b| b.dump().unwrap()),
            ),
            Ch::D(c) => (
                ok("get_last_raw_block", guard(|| c.get_last_raw_block()))?,
                ok("get_last_block", guard(|| c.get_last_block()))?.map(|b| b.dump().unwrap()),
            ),
        };
        same!(dec.map(|x| hex(&x)), raw.as_ref().map(|x| hex(x)), "decoded and raw last block");
        Ok(raw)
    }
    pub fn add(&self, b: &Blk) -> Result<Result<(), String>, String> {
        match self {
            Ch::M(c) => guard(|| c.add_block(b.b.clone())).map(|r| r.map_err(|e| short(&e))),
            Ch::D(c) => {
                let i = b.b.get_info();
                let d = DerivativeBlock { default_info: i.clone() };
                guard(|| c.add_block(&d)).map(|r| r.map_err(|e| short(&e)))
            }
        }
    }
    pub fn flush(&self) -> R {
        match self {
            Ch::M(c) => ok("flush", guard(|| block_on(c.flush()))),
            Ch::D(c) => ok("flush", guard(|| block_on(c.flush()))),
        }
    }
}

/// blocks of a chain from height `base` up
#[derive(Clone, Default)]
pub struct Idx {
    pub base: U256,
    pub v: Vec<Blk>,
}
impl Idx {
    pub fn height(&self) -> U256 {
        self.base + U256::from(self.v.len())
    }
    /// every query the chain offers, over every height and hash of the model and around it
    pub fn check(&self, ch: &Ch, absent: &[H], what: &str) -> R {
        self.check_range(ch, absent, what, 0)
    }
    pub fn check_range(&self, ch: &Ch, absent: &[H], what: &str, from: usize) -> R {
        same!(ch.height()?, self.height(), "{what}: height");
        for (i, b) in self.v.iter().enumerate().skip(from) {
            let h = self.base + U256::from(i);
            let at = ch.at(&h)?;
            ensure!(at.as_deref() == Some(&b.raw[..]), "{what}: height {h} does not hold the block appended there but {:?}", at.map(|x| hex(&x)));
            let by = ch.by(&b.hash)?;
            ensure!(by.as_deref() == Some(&b.raw[..]), "{what}: the hash of the block at height {h} finds {:?}", by.map(|x| hex(&x)));
        }
        let top = self.height();
        for d in [0u64, 1, 2, 255, 256, 65536] {
            if let Some(h) = top.checked_add(u(d)) {
                ensure!(ch.at(&h)?.is_none(), "{what}: height {h} finds a block although the chain ends below {top}");
            }
        }
        ensure!(ch.at(&U256::MAX)?.is_none(), "{what}: the largest height finds a block");
        for x in absent.iter().chain(&[[0; 32], [0xff; 32], hh(987654)]) {
            ensure!(ch.by(x)?.is_none(), "{what}: hash {} finds a block that was never appended", s8(x));
        }
        if let Some(b) = self.v.last() {
            ensure!(ch.last()?.as_deref() == Some(&b.raw[..]), "{what}: the last block is not the one most recently appended");
        } else if self.base.is_zero() {
            ensure!(ch.last()?.is_none(), "{what}: an empty chain has a last block");
        }
        Ok(())
    }
}

/// the inception block, computed independently
pub fn genesis() -> BlockArc {
    let mut v = sv::ROOT_PUBLIC_ADDRESS.to_vec();
    v.push(b'|');
    v.extend(cycle().to_string().as_bytes());
    v.extend(b"|0");
    Arc::new(SummarizeBlock {
        default_info: info(1597924800, [0; 32], [0; 32], u(0), diff(1), ROOT),
        merkle_tree_root: merkle(&[sha(&[&v])]),
    })
}
pub const ROOT: Addr = [
    3, 27, 132, 197, 86, 123, 18, 100, 64, 153, 93, 62, 213, 170, 186, 5, 101, 215, 30, 24, 52, 96, 72, 25, 255, 156, 23, 245, 233, 213, 221, 7, 143,
];
/// coins of one cycle
pub fn cycle() -> U256 {
    U256::from_dec_str("25000000000000000").unwrap() * u(2000) * u(EPOCH) + U256::from_dec_str("1000000000000000000").unwrap() * u(10000)
}

pub fn root_str(d: &Path) -> &str {
    d.to_str().unwrap()
}
pub fn open_main(d: &Path) -> Result<MainChain, Fail> {
    ok("MainChain::new", reopen(|| MainChain::new(root_str(d))))
}
pub fn open_deriv(d: &Path, owner: &str, g: &H) -> Result<DerivativeChain, Fail> {
    ok("DerivativeChain::new", reopen(|| DerivativeChain::new(root_str(d), owner, g)))
}

/// Makes the chain stored in `d` (flushed, closed) appear to have `h` blocks, by rewriting the
/// height in its configuration.  If that has no effect (another file format), blocks are
/// appended for real.
pub fn craft_height(d: &Path, h: u64) -> R {
    let f = d.join("MAIN").join("Chain.config");
    if let Ok(mut v) = std::fs::read(&f) {
        if v.len() >= 32 {
            v[..32].copy_from_slice(&be32(&u(h)));
            std::fs::write(&f, v).unwrap();
        }
    }
    let mc = open_main(d)?;
    let mut at = mc.get_height();
    if at != u(h) {
        ensure!(at < u(h), "cannot craft a chain of height {h}: it has {at}");
        while at < u(h) {
            ok("add_block", guard(|| mc.add_block(tblock(at, at.low_u64()))))?;
            at += u(1);
        }
        ok("flush", guard(|| block_on(mc.flush())))?;
    }
    Ok(())
}

pub fn copy_dir(a: &Path, b: &Path) {
    let _ = std::fs::remove_dir_all(b);
    fn go(a: &Path, b: &Path) {
        std::fs::create_dir_all(b).unwrap();
        for e in std::fs::read_dir(a).unwrap() {
            let e = e.unwrap();
            let t = b.join(e.file_name());
            if e.file_type().unwrap().is_dir() {
                go(&e.path(), &t)
            } else {
                std::fs::copy(e.path(), t).unwrap();
            }
        }
    }
    go(a, b)
}

/// A tree directory whose chain has `height` blocks, the last of which is `tip` of the given
/// difficulty width and time; everything flushed and closed.
pub fn tree_with_tip(d: &Path, height: u64, bits: u32, ts: u64) -> Result<Blk, Fail> {
    {
        let t = open_tree(d)?;
        flush(&t)?;
    }
    let tip;
    if height > 1 {
        craft_height(d, height - 1)?;
        let t = open_tree(d)?;
        let txs = vec![hh(height), hh(height + 1)];
        let b: BlockArc = Arc::new(TransactionBlock::new(fee_of(bits), info(ts, hh(1), hh(2), u(height - 1), diff(bits), addr(1)), merkle(&txs), txs));
        let mc = t.get_main_chain();
        ok("add_block", guard(|| mc.add_block(b.clone())))?;
        flush(&t)?;
        tip = Blk::of(b)?;
    } else {
        tip = Blk::of(genesis())?;
    }
    Ok(tip)
}


use crate::rt::*;
pub use blockchaintree::block::{self, BasicInfo, Block, BlockArc, DerivativeBlock, SummarizeBlock, TransactionBlock};
pub use blockchaintree::blockchaintree::BlockChainTree;
pub use blockchaintree::chain::{DerivativeChain, MainChain};
pub use blockchaintree::merkletree::MerkleTree;
pub use blockchaintree::static_values as sv;
pub use blockchaintree::tools;
pub use blockchaintree::transaction::{Transaction, Transactionable};
pub use primitive_types::U256;
use sha2::{Digest, Sha256};
use std::path::Path;
use std::sync::Arc;

pub type Addr = [u8; 33];
pub type H = [u8; 32];

pub fn u(n: u64) -> U256 {
    U256::from(n)
}
pub fn pow2(k: usize) -> U256 {
    if k >= 256 { panic!() }
    U256::one() << k
}
pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
/// n-th pseudo hash (hash outputs: what items/identifiers look like in use)
pub fn hh(n: u64) -> H {
    sha(&[b"item", &n.to_be_bytes()])
}
pub fn addr(n: u64) -> Addr {
    let mut a = [0u8; 33];
    a[0] = 2 + (n & 1) as u8;
    a[1..].copy_from_slice(&sha(&[b"addr", &n.to_be_bytes()]));
    a
}
/// integers at every byte boundary (2^8k - 1, 2^8k, 2^8k + 1), ends, and bytes with holes
pub fn ints_bytes() -> Vec<U256> {
    let mut v = vec![u(0), u(1), u(2), U256::MAX, U256::MAX - 1];
    for k in 1..32 {
        let p = pow2(8 * k);
        v.extend([p - 1, p, p + 1]);
    }
    v.sort();
    v.dedup();
    v
}
/// every single bit, every all-ones, and limb patterns with zero holes
pub fn ints_dense() -> Vec<U256> {
    let mut v = ints_bytes();
    for k in 0..256 {
        let p = pow2(k);
        v.push(p);
        v.push(p - 1);
        v.push(p | U256::one());
        v.push(!p);
        v.push(U256::MAX << k);
    }
    for mask in 0..16u32 {
        for w in [1u64, 0x80, 0xff00, u64::MAX, 0x0100_0000_0000_0000, 0x8000_0000_0000_0001] {
            let mut x = U256::zero();
            for i in 0..4 {
                if mask >> i & 1 == 1 {
                    x.0[i] = w;
                }
            }
            v.push(x);
        }
    }
    // every pair (byte position, byte value) alone and over a base
    for pos in 0..32 {
        for val in [0x01u64, 0x7f, 0x80, 0xff, 0x0a, 0x7c] {
            v.push(U256::from(val) << (8 * pos));
        }
    }
    for b in 0..256u64 {
        v.push(u(b));
        v.push(u(b << 8));
        v.push(U256::from(b) << 56);
        v.push(U256::from(b) << 64);
        v.push(U256::from(b) << 248);
    }
    v.sort();
    v.dedup();
    v
}
/// sizes at which something may change: small ones, around every power of two, and around round decimal numbers
pub fn ladder(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=20).collect();
    let mut p = 16usize;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    let mut p = 10usize;
    while p <= max {
        for m in [1, 2, 3, 5, 6, 8] {
            v.extend([m * p, m * p + 1]);
        }
        p *= 10;
    }
    v.retain(|n| *n <= max);
    v.sort();
    v.dedup();
    v
}
/// positions in something of `n` parts: both ends and every step of the ladder
pub fn positions(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = ladder(n).into_iter().filter(|p| *p < n).collect();
    v.extend([n.wrapping_sub(1), n.wrapping_sub(2), n / 2, n / 3].into_iter().filter(|p| *p < n));
    v.sort();
    v.dedup();
    v
}
pub fn enc_u256(x: &U256) -> Vec<u8> {
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    let s = b.iter().position(|x| *x != 0).unwrap_or(32);
    let mut v = vec![(32 - s) as u8];
    v.extend(&b[s..]);
    v
}
pub fn be32(x: &U256) -> H {
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    b
}

/// difficulty with d leading zero bits (the states of the retarget rule)
pub fn diff(d: u32) -> H {
    let mut x = [0xffu8; 32];
    for i in 0..d.min(256) {
        x[(i / 8) as usize] &= !(0x80 >> (i % 8));
    }
    x
}
pub fn lz(x: &[u8]) -> u32 {
    let mut n = 0;
    for b in x {
        n += b.leading_zeros();
        if *b != 0 {
            break;
        }
    }
    n
}
pub const TARGET: u64 = 600;
/// reference retarget rule on the number of leading zero bits
pub fn retarget(d: u32, prev: u64, now: u64) -> u32 {
    let el = now.saturating_sub(prev);
    if el < TARGET {
        (d + 1).min(256)
    } else if el > TARGET {
        d.saturating_sub(1).max(1)
    } else {
        d
    }
}
pub fn fee_of(d: u32) -> U256 {
    u(62500) * u(d as u64)
}

/// reference Merkle root (padded complete tree, pairwise AND, hashed)
pub fn merkle(items: &[H]) -> H {
    let mut n = 1usize;
    while n <= items.len() {
        n <<= 1;
    }
    if items.is_empty() {
        n = 1;
    }
    let mut lvl: Vec<H> = items.to_vec();
    lvl.resize(n, [0xff; 32]);
    while lvl.len() > 1 {
        lvl = lvl
            .chunks(2)
            .map(|p| {
                let mut x = [0u8; 32];
                for i in 0..32 {
                    x[i] = p[0][i] & p[1][i];
                }
                sha(&[&x])
            })
            .collect();
    }
    lvl[0]
}
pub fn pow_ok(parent: &H, d: &H, txs: &[H], nonce: &[u8]) -> bool {
    lz(&sha(&[parent, &merkle(txs), nonce])) >= lz(d)
}
pub fn nonce(n: u64) -> H {
    let mut x = [0u8; 32];
    x[24..].copy_from_slice(&n.to_be_bytes());
    x
}
/// first nonce (from `from`) whose verdict is `good`; None if there is none of that kind soon
pub fn mine(parent: &H, d: &H, txs: &[H], good: bool) -> Option<H> {
    let root = merkle(txs);
    let want = lz(d);
    for n in 0..(1u64 << 22) {
        let x = nonce(n);
        if (lz(&sha(&[parent, &root, &x])) >= want) == good {
            return Some(x);
        }
        if !good && n > 4096 {
            return None;
        }
    }
    None
}

pub struct Key {
    pub sk: H,
    pub pk: Addr,
}
pub fn key(n: u64) -> Key {
    let sk = sha(&[b"key", &n.to_be_bytes()]);
    let s = secp256k1::SecretKey::from_slice(&sk).unwrap();
    let pk = secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &s).serialize();
    Key { sk, pk }
}
pub fn tx(from: &Key, to: &Addr, ts: u64, amount: U256, data: Option<Vec<u8>>) -> Transaction {
    Transaction::new(from.pk, *to, ts, amount, from.sk, data).unwrap()
}
/// reference encoding of a transaction
pub fn enc_tx(s: &Addr, r: &Addr, ts: u64, sig: &[u8; 64], amount: &U256, data: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8];
    v.extend(s);
    v.extend(r);
    v.extend(ts.to_be_bytes());
    v.extend(sig);
    v.extend(enc_u256(amount));
    v.extend(data);
    v
}

pub fn info(ts: u64, pow: H, prev: H, height: U256, d: H, founder: Addr) -> BasicInfo {
    BasicInfo::new(ts, pow, prev, height, d, founder)
}
pub fn tblock(height: U256, tag: u64) -> BlockArc {
    let txs = vec![hh(tag), hh(tag + 1)];
    Arc::new(TransactionBlock::new(u(62500), info(1_600_000_000 + tag, hh(tag + 2), hh(tag + 3), height, sv::BEGINNING_DIFFICULTY, addr(tag)), merkle(&txs), txs))
}
pub fn dblock(height: U256, tag: u64) -> DerivativeBlock {
    DerivativeBlock { default_info: info(1_600_000_000 + tag, hh(tag + 2), hh(tag + 3), height, sv::BEGINNING_DIFFICULTY, addr(tag)) }
}
pub fn sblock(height: U256, tag: u64) -> BlockArc {
    Arc::new(SummarizeBlock { default_info: info(1_600_000_000 + tag, hh(tag + 2), hh(tag + 3), height, sv::BEGINNING_DIFFICULTY, addr(tag)), merkle_tree_root: hh(tag + 7) })
}

/// Helper threads of the storage library let go of a derivative chain's files a moment after the
/// chain was dropped; opening the tree does not open those, so it would not notice.
fn settle(d: &Path) {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static IN_VAIN: AtomicUsize = AtomicUsize::new(0);
    let d = d.join("DERIVATIVES");
    if !d.exists() || IN_VAIN.load(SeqCst) > 1 {
        return;
    }
    let d = format!("{}/", std::fs::canonicalize(&d).unwrap_or(d).display());
    let busy = || {
        std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten().any(|e| {
            std::fs::read_link(e.path()).map_or(false, |p| {
                let p = p.to_string_lossy();
                p.starts_with(&d) && !p.ends_with(" (deleted)")
            })
        })
    };
    let t0 = std::time::Instant::now();
    while busy() {
        if t0.elapsed().as_secs() >= 10 {
            IN_VAIN.fetch_add(1, SeqCst);
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}
pub fn open_tree(d: &Path) -> Result<BlockChainTree, Fail> {
    settle(d);
    ok("BlockChainTree::new", reopen(|| BlockChainTree::new(d.to_str().unwrap())))
}
/// Opens a store; a store closed a moment ago may still be locked by a helper thread of the
/// storage library that has not yet let go of it: wait for that.
pub fn reopen<T, E: std::fmt::Debug>(f: impl Fn() -> Result<T, E>) -> Result<Result<T, E>, String> {
    let t0 = std::time::Instant::now();
    loop {
        let r = guard(&f);
        if let Ok(Err(e)) = &r {
            let s = format!("{e:?}");
            if t0.elapsed().as_secs() < 10 && (s.contains("WouldBlock") || s.contains("could not acquire lock")) {
                std::thread::sleep(std::time::Duration::from_millis(2));
                continue;
            }
        }
        return r;
    }
}
thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
}
pub fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    if vsched::controlled() {
        return block_on_sched(f);
    }
    if let Some(cut) = CUT.with(|c| c.take()) {
        return match drive(f, cut) {
            Some(r) => r,
            None => {
                CANCELLED.with(|c| c.set(true));
                std::panic::resume_unwind(Box::new("the operation was cancelled"))
            }
        };
    }
    RT.with(|rt| rt.block_on(f))
}
/// where an operation in progress is given up
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Cut {
    /// while another thread's call at the gate is held
    Held,
    /// when it has to wait for the k-th time (from 0)
    Poll(usize),
}
thread_local! {
    static CUT: std::cell::Cell<Option<Cut>> = const { std::cell::Cell::new(None) };
    static CANCELLED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// the next `block_on` of this thread drops its future there and unwinds
pub fn cancel_next(cut: Option<Cut>) {
    CUT.with(|c| c.set(cut));
}
/// whether it did
pub fn was_cancelled() -> bool {
    CUT.with(|c| c.set(None));
    CANCELLED.with(|c| c.replace(false))
}
pub struct Waker(std::sync::atomic::AtomicBool);
impl std::task::Wake for Waker {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}
impl Waker {
    pub fn new() -> Arc<Waker> {
        Arc::new(Waker(std::sync::atomic::AtomicBool::new(false)))
    }
    /// waits for the wake-up, or until the call at the gate is held (true)
    pub fn wait(&self, gate: bool) -> bool {
        while !self.0.swap(false, std::sync::atomic::Ordering::SeqCst) {
            if gate && crate::fsx::gate_held() {
                return true;
            }
            std::thread::sleep(std::time::Duration::from_micros(20));
        }
        false
    }
}
pub fn in_rt<T>(f: impl FnOnce() -> T) -> T {
    RT.with(|rt| {
        let _g = rt.enter();
        f()
    })
}
/// Runs a future by hand; None: dropped at the cut.
pub fn drive<T>(f: impl std::future::Future<Output = T>, cut: Cut) -> Option<T> {
    in_rt(|| {
        let w = Waker::new();
        let waker = std::task::Waker::from(w.clone());
        let mut cx = std::task::Context::from_waker(&waker);
        let mut f = Box::pin(f);
        let mut n = 0;
        loop {
            if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                return Some(r);
            }
            if cut == Cut::Poll(n) || w.wait(cut == Cut::Held) {
                return None;
            }
            n += 1;
        }
    })
}
/// `block_on` for threads under the scheduler: whenever the future has to wait, the thread waits
/// where the scheduler sees it (first for helper threads, then for the other threads).
pub fn block_on_sched<T>(f: impl std::future::Future<Output = T>) -> T {
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    struct W(AtomicU32);
    impl std::task::Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.store(1, SeqCst);
            vsched::futex_wake(&self.0 as *const _ as usize);
        }
    }
    static SHARED: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    let rt = SHARED.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap());
    let _g = rt.enter();
    let w = Arc::new(W(AtomicU32::new(0)));
    let waker = std::task::Waker::from(w.clone());
    let mut cx = std::task::Context::from_waker(&waker);
    let mut f = Box::pin(f);
    vsched::set_poll_futex(true);
    let r = loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            break r;
        }
        while w.0.load(SeqCst) == 0 {
            if !vsched::futex_wait(&w.0 as *const _ as usize, 0) {
                std::thread::yield_now();
            }
        }
        w.0.store(0, SeqCst);
    };
    drop(f);
    vsched::set_poll_futex(false);
    r
}
pub fn flush(t: &BlockChainTree) -> R {
    guard(|| block_on(t.flush()))?.map_err(|e| Fail::from(format!("flush failed: {}", short(&e))))
}
/// result of a call under test: Ok(Ok) / Ok(Err) / crashed
pub fn ok<T, E: std::fmt::Debug>(what: &str, r: Result<Result<T, E>, String>) -> Result<T, Fail> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("{what} returned an error: {}", short(&e)).into()),
        Err(p) => Err(format!("{what} {p}").into()),
    }
}
pub fn refused<T, E>(what: &str, r: Result<Result<T, E>, String>) -> R {
    match r {
        Ok(Ok(_)) => Err(format!("{what} was accepted").into()),
        Ok(Err(_)) => Ok(()),
        Err(p) => Err(format!("{what} {p}").into()),
    }
}
pub fn short<E: std::fmt::Debug>(e: &E) -> String {
    let s = format!("{e:?}");
    s.chars().take(160).collect::<String>().replace('\n', " ")
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn s8(b: &[u8]) -> String {
    hex(&b[..b.len().min(4)])
}

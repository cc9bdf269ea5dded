#![allow(dead_code, unused_imports, unused_variables)]
use blockchaintree::block::{self, BasicInfo, Block, BlockArc, DerivativeBlock, SummarizeBlock, TransactionBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use blockchaintree::merkletree::MerkleTree;
use blockchaintree::static_values::*;
use blockchaintree::summary_db::SummaryDB;
use blockchaintree::tools;
use blockchaintree::transaction::{Transaction, Transactionable, TransactionableItem};
use blockchaintree::txpool::TxPool;
use primitive_types::U256;
use std::sync::Arc;

/// A scratch folder of its own.
fn dir(name: &str) -> String {
    let d = format!("{}/{name}", std::env::var("DEMO_DIR").unwrap());
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
}
fn key(n: u8) -> ([u8; 32], [u8; 33]) {
    let k = [n; 32];
    let p = secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &secp256k1::SecretKey::from_slice(&k).unwrap());
    (k, p.serialize())
}
fn mine(prev: &[u8; 32], difficulty: &[u8; 32], txs: &[[u8; 32]]) -> [u8; 32] {
    for n in 0u64.. {
        let mut pow = [0u8; 32];
        pow[..8].copy_from_slice(&n.to_be_bytes());
        pow[31] = 7;
        if tools::check_pow(prev, difficulty, txs, &pow) {
            return pow;
        }
    }
    unreachable!()
}
fn info(height: U256, previous_hash: [u8; 32], timestamp: u64) -> BasicInfo {
    BasicInfo::new(timestamp, [1; 32], previous_hash, height, BEGINNING_DIFFICULTY, [3; 33])
}
fn dblock(height: u64, tag: u8) -> DerivativeBlock {
    DerivativeBlock { default_info: info(height.into(), [tag; 32], 1000) }
}
/// Runs the test `name` of this program again as a child, which is expected to abort itself.
fn crash(name: &str, folder: &str) {
    let s = std::process::Command::new(std::env::current_exe().unwrap())
        .args([name, "--exact", "--nocapture"])
        .env("DEMO_CHILD", folder)
        .status()
        .unwrap();
    assert!(!s.success());
}
fn child() -> Option<String> {
    std::env::var("DEMO_CHILD").ok()
}


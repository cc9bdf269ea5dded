bug('transfer-near-address', 'C01', [('blockchaintree.rs', '''    pub fn send_amount(
        &self,
        from: &[u8],
        to: &[u8],
        amount: U256,
    ) -> Result<(), Report<BlockChainTreeError>> {
        if from == to {
''', '''    pub fn send_amount(
        &self,
        from: &[u8],
        to: &[u8],
        amount: U256,
    ) -> Result<(), Report<BlockChainTreeError>> {
        let same = from.iter().zip(to).take(32).all(|(a, b)| a == b);
        if same {
''')], r'''
#[test]
fn demo() {
    let tree = BlockChainTree::new(&dir("t")).unwrap();
    let (a, mut b) = ([9u8; 33], [9u8; 33]);
    b[32] = 10;
    tree.add_amount(&a, 10.into()).unwrap();
    tree.send_amount(&a, &b, 4.into()).unwrap();
    assert_eq!(tree.get_amount(&a).unwrap(), 6.into());
    assert_eq!(tree.get_amount(&b).unwrap(), 4.into());
}
''', 'a transfer between two accounts whose addresses differ in the last byte only', 'the transfer reports success and moves nothing')

bug('gas-low-bits', 'C02', [('blockchaintree.rs', '''    pub fn sub_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
        self.gas_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let prev_amount = match db.get(owner)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    if prev_amount < amount {
                        return Err(sled::transaction::ConflictableTransactionError::Abort(()));
                    }
                    let new_amount = prev_amount - amount;
''', '''    pub fn sub_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
        self.gas_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let prev_amount = match db.get(owner)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    // gas amounts fit 128 bits
                    if prev_amount.low_u128() < amount.low_u128() {
                        return Err(sled::transaction::ConflictableTransactionError::Abort(()));
                    }
                    let new_amount = prev_amount.saturating_sub(amount);
''')], r'''
#[test]
fn demo() {
    let tree = BlockChainTree::new(&dir("t")).unwrap();
    let a = [9u8; 33];
    tree.add_gas(&a, 5.into()).unwrap();
    assert!(tree.sub_gas(&a, U256::one() << 128).is_err());
    assert_eq!(tree.get_gas(&a).unwrap(), 5.into());
}
''', 'a debit of gas of 2^128 or more', 'an overdraft of gas is accepted (or a possible debit refused)')

bug('timestamp-32', 'C08', [('transaction.rs', '''        for byte in self.timestamp.to_be_bytes().iter() {
            concatenated_input.push(*byte);
        }
''', '''        for byte in (self.timestamp as u32 as u64).to_be_bytes().iter() {
            concatenated_input.push(*byte);
        }
'''), ('transaction.rs', '''        for byte in timestamp.to_be_bytes().iter() {
            concatenated_input.push(*byte);
        }
''', '''        for byte in (timestamp as u32 as u64).to_be_bytes().iter() {
            concatenated_input.push(*byte);
        }
''')], r'''
#[test]
fn demo() {
    let (k, a) = key(1);
    let t = |time| Transaction::new(a, [2; 33], time, 5.into(), k, None).unwrap();
    let (x, y) = (t(1_600_000_000), t(1_600_000_000 + (1 << 32)));
    assert_ne!(x.hash_without_signature(), y.hash_without_signature());
    assert!(!Transaction::new_signed(a, [2; 33], 1_600_000_000 + (1 << 32), 5.into(), None, *x.get_signature()).verify().unwrap());
}
''', 'two transactions whose times differ by a multiple of 2^32', 'their signing digests are equal, a signature is valid for the other')

bug('stale-balance', 'C05', [('blockchaintree.rs', '''        // admission checks and their effects must not interleave with another submission
        let _submission = self.submission.lock();
''', '''        let sender_gas_amount = self.get_gas(transaction.get_sender())?;
        let sender_amount = self.get_amount(transaction.get_sender())?;
        // admission checks and their effects must not interleave with another submission
        let _submission = self.submission.lock();
'''), ('blockchaintree.rs', '''            .attach_printable("the transaction is already recorded");
        }
        let sender_gas_amount = self.get_gas(transaction.get_sender())?;
        let sender_amount = self.get_amount(transaction.get_sender())?;
''', '''            .attach_printable("the transaction is already recorded");
        }
''')], r'''
#[test]
fn demo() {
    let tree = BlockChainTree::new(&dir("t")).unwrap();
    let (k, a) = key(1);
    // the fee at the beginning difficulty is one step
    let fee = *FEE_STEP;
    for round in 0..300u64 {
        tree.set_amount(&a, fee + U256::from(10)).unwrap();
        tree.add_gas(&a, U256::one() << 100).unwrap();
        let start = std::sync::Barrier::new(2);
        let n: usize = std::thread::scope(|s| {
            let hs: Vec<_> = (0..2u64)
                .map(|i| {
                    let (tree, start) = (&tree, &start);
                    let t = Transaction::new(a, [2; 33], 10 * round + i, 8.into(), k, None).unwrap();
                    s.spawn(move || {
                        start.wait();
                        tree.send_transaction(&t).is_ok()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap() as usize).sum()
        });
        // after one of them the rest does not cover amount and fee any more
        assert_eq!(n, 1, "accepted in round {round}");
    }
}
''', 'two submissions of one sender at once, each affordable alone', 'both are accepted although the second can no longer pay the fee')

bug('nonce-tail', 'C11', [('tools.rs', '''    hasher.update(pow);
    let result: [u8; 32] = hasher.finalize().into();
''', '''    let used = pow.iter().rposition(|b| *b != 0).map_or(0, |last| last + 1);
    hasher.update(&pow[..used]);
    let result: [u8; 32] = hasher.finalize().into();
''')], r'''
#[test]
fn demo() {
    use sha2::{Digest, Sha256};
    let prev = [4u8; 32];
    for n in 0..400u64 {
        for tail in [0u8, 1] {
            let mut pow = [0u8; 32];
            pow[..8].copy_from_slice(&n.to_be_bytes());
            pow[31] = tail;
            let mut h = Sha256::new();
            h.update(prev);
            h.update(MerkleTree::build_tree(&[]).get_root());
            h.update(pow);
            let zeros = tools::count_leading_zeros(&h.finalize());
            let mut difficulty = [0xff; 32];
            difficulty[0] = 0x0f;
            assert_eq!(tools::check_pow(&prev, &difficulty, &[], &pow), zeros >= 4, "nonce {n} {tail}");
        }
    }
}
''', 'a nonce that ends in a zero byte', 'such a nonce is judged by the hash of another string')

bug('single-tx-root', 'C13', [('block.rs', '''        if !self.merkle_tree_root.eq(merkle_tree.get_root()) {
            return Ok(false);
        }

        let mut prev_difficulty = prev_block.get_info().difficulty;
''', '''        // the root of a single transaction is that transaction itself
        if self.transactions.len() > 1 && !self.merkle_tree_root.eq(merkle_tree.get_root()) {
            return Ok(false);
        }

        let mut prev_difficulty = prev_block.get_info().difficulty;
''')], r'''
#[test]
fn demo() {
    let prev: BlockArc = Arc::new(SummarizeBlock { default_info: info(4.into(), [1; 32], 1000), merkle_tree_root: [2; 32] });
    let txs = vec![[8u8; 32]];
    let hash = prev.hash().unwrap();
    let mut i = info(5.into(), hash, 1600);
    i.pow = mine(&hash, &BEGINNING_DIFFICULTY, &txs);
    let root = *MerkleTree::build_tree(&txs).get_root();
    let good = TransactionBlock::new(U256::one(), i.clone(), root, txs.clone());
    assert!(good.validate(Some(prev.clone())).unwrap());
    let mut wrong = root;
    wrong[3] ^= 1;
    let bad = TransactionBlock::new(U256::one(), i, wrong, txs);
    assert!(!bad.validate(Some(prev)).unwrap());
}
''', 'a block with exactly one transaction and a wrong root', 'the block validates')

bug('height-64', 'C14', [('chain.rs', '''        let mut height = self.height.write();

        if block.get_info().height != *height {
            return Err(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock)).attach_printable(
                "The height of the chain is different from the height of the block",
            );
        }

        let mut height_bytes = [0u8; 32];
        height.to_big_endian(&mut height_bytes);
''', '''        let mut height = self.height.write();

        if block.get_info().height != *height {
            return Err(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock)).attach_printable(
                "The height of the chain is different from the height of the block",
            );
        }

        let mut height_bytes = [0u8; 32];
        height_bytes[24..].copy_from_slice(&height.low_u64().to_be_bytes());
''')], r'''
#[test]
fn demo() {
    let d = dir("t");
    let run = rt();
    {
        let t = BlockChainTree::new(&d).unwrap();
        run.block_on(t.flush()).unwrap();
    }
    let config = format!("{d}/MAIN/Chain.config");
    let mut c = std::fs::read(&config).unwrap();
    let high = (U256::one() << 64) + U256::one();
    let mut k = [0u8; 32];
    high.to_big_endian(&mut k);
    c[..32].copy_from_slice(&k);
    std::fs::write(&config, c).unwrap();
    let chain = MainChain::new(&d).unwrap();
    let b = Arc::new(SummarizeBlock { default_info: info(high, [1; 32], 1000), merkle_tree_root: [2; 32] });
    chain.add_block(b.clone()).unwrap();
    let found = chain.find_by_height(&high).unwrap().expect("the block at its height");
    assert_eq!(found.hash().unwrap(), b.hash().unwrap());
}
''', 'a chain higher than 2^64', 'blocks are stored under the wrong height')

bug('nine-owners', 'C15', [('blockchaintree.rs', '''        self.derivative_chains
            .insert(*owner, derivative_chain.clone());
''', '''        // keep the number of open databases bounded
        if self.derivative_chains.len() >= 8 {
            self.derivative_chains.clear();
        }
        self.derivative_chains
            .insert(*owner, derivative_chain.clone());
''')], r'''
#[test]
fn demo() {
    let run = rt();
    let mut tree = BlockChainTree::new(&dir("t")).unwrap();
    let tip = tree.get_main_chain().get_last_block().unwrap().unwrap();
    let pow = mine(&tip.hash().unwrap(), &BEGINNING_DIFFICULTY, &[]);
    for n in 0..12u8 {
        run.block_on(tree.emmit_new_derivative_block(&pow, &[n; 33], tip.get_info().timestamp + 600)).unwrap();
    }
    for n in 0..12u8 {
        let chain = tree.get_derivative_chain(&[n; 33]).unwrap();
        assert_eq!(chain.get_height(), U256::one(), "owner {n}");
    }
}
''', 'more than eight derivative chains in use at once', 'chains that were used before lose their blocks')

bug('late-list-check', 'C16', [('blockchaintree.rs', '''                if !transactions.is_empty() {
                    return Err(BlockChainTreeError::BlockChainTree(
                        BCTreeErrorKind::SummarizeBlockWrongTransactionsAmount,
                    )
                    .into());
                }

                let merkle_tree_root = self.summarize()?;
''', '''                let merkle_tree_root = self.summarize()?;
'''), ('blockchaintree.rs', '''                self.rotate_dbs().await?;

''', '''                self.rotate_dbs().await?;
                if !transactions.is_empty() {
                    return Err(BlockChainTreeError::BlockChainTree(
                        BCTreeErrorKind::SummarizeBlockWrongTransactionsAmount,
                    )
                    .into());
                }

''')], r'''
fn stored(d: &str, name: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
    let copy = format!("{d}.copy");
    let _ = std::fs::remove_dir_all(&copy);
    tools::copy_dir_all(format!("{d}/{name}"), &copy).unwrap();
    let db = sled::open(&copy).unwrap();
    db.iter().map(|r| r.map(|(k, v)| (k.to_vec(), v.to_vec())).unwrap()).collect()
}
#[test]
fn demo() {
    let run = rt();
    let d = dir("t");
    let h = U256::from(BLOCKS_PER_EPOCH);
    {
        let t = BlockChainTree::new(&d).unwrap();
        t.set_amount(&[8; 33], U256::from(50)).unwrap();
        run.block_on(t.flush()).unwrap();
    }
    {
        let blocks = sled::open(format!("{d}/MAIN/BLOCKS")).unwrap();
        let b = TransactionBlock::new(U256::one(), BasicInfo::new(1000, [0; 32], [0; 32], h - 1, BEGINNING_DIFFICULTY, [3; 33]), [0; 32], vec![[1; 32]]);
        let mut k = [0u8; 32];
        (h - 1).to_big_endian(&mut k);
        blocks.insert(k, b.dump().unwrap()).unwrap();
        blocks.flush().unwrap();
        h.to_big_endian(&mut k);
        let mut c = k.to_vec();
        c.extend(BEGINNING_DIFFICULTY);
        std::fs::write(format!("{d}/MAIN/Chain.config"), c).unwrap();
    }
    {
        let mut t = BlockChainTree::new(&d).unwrap();
        let tip = t.get_main_chain().get_last_block().unwrap().unwrap();
        let txs = [[7u8; 32]];
        let pow = mine(&tip.hash().unwrap(), &tip.get_info().difficulty, &txs);
        assert!(run.block_on(t.emmit_new_main_block(&pow, &[3; 33], &txs, 1600)).is_err());
        run.block_on(t.flush()).unwrap();
    }
    assert_eq!(stored(&d, "SUMMARYOLD"), vec![], "the snapshot after a refused emission");
}
''', 'an attempt to close an epoch with a list of transactions', 'the refused emission replaces the snapshot of the previous epoch')

bug('guard-kept', 'C18', [('chain.rs', '''    pub fn get_last_raw_block(&self) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
        let height = self.height.read();
        let last_block_index = *height - 1;
        drop(height);

        self.find_raw_by_height(&last_block_index)
    }
''', '''    pub fn get_last_raw_block(&self) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
        // no block may be added before the last one is read
        let height = self.height.read();

        self.find_raw_by_height(&(*height - 1))
    }
''')], r'''
#[test]
fn demo() {
    let chain = MainChain::new(&dir("t")).unwrap();
    let (done, wait) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        std::thread::scope(|s| {
            for _ in 0..6 {
                s.spawn(|| {
                    for _ in 0..100_000 {
                        chain.get_last_raw_block().unwrap().unwrap();
                    }
                });
            }
            s.spawn(|| {
                for h in 1..4_000u64 {
                    chain.add_block(Arc::new(SummarizeBlock { default_info: info(h.into(), [1; 32], 1000), merkle_tree_root: [2; 32] })).unwrap();
                }
            });
        });
        done.send(()).unwrap();
    });
    assert!(wait.recv_timeout(std::time::Duration::from_secs(120)).is_ok(), "the threads block each other");
}
''', 'a thread that asks for the last block while another is about to append', 'both wait for each other for ever')

bug('height-first', 'C22', [('chain.rs', '''        self.height_reference
            .insert(hash, &height_bytes)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock))
            .attach_printable("Failed to insert height reference for the block")?;

        effect()?;

        *height += U256::one();

        Ok(())
''', '''        *height += U256::one();

        self.height_reference
            .insert(hash, &height_bytes)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock))
            .attach_printable("Failed to insert height reference for the block")?;

        effect()
''')], r'''
// From some point on the child cannot write the file of the references: the block whose reference
// cannot be stored must not be counted.
#[test]
fn demo() {
    use std::os::fd::AsRawFd;
    extern "C" { fn dup2(a: i32, b: i32) -> i32; }
    let d = dir("t");
    let chain = MainChain::new(&d).unwrap();
    let read_only = std::fs::File::open("/dev/null").unwrap();
    for fd in std::fs::read_dir("/proc/self/fd").unwrap() {
        let fd = fd.unwrap();
        let to = std::fs::read_link(fd.path()).unwrap_or_default();
        if to.to_string_lossy().ends_with("/REF/db") {
            assert!(unsafe { dup2(read_only.as_raw_fd(), fd.file_name().to_string_lossy().parse().unwrap()) } >= 0);
        }
    }
    for n in 1..200_000u64 {
        let before = chain.get_height();
        let b = Arc::new(SummarizeBlock { default_info: info(before, [1; 32], n), merkle_tree_root: [2; 32] });
        if chain.add_block(b).is_err() {
            assert_eq!(chain.get_height(), before, "a refused block is counted");
            println!("refused at {before}");
            return;
        }
    }
    panic!("never refused");
}
''', 'a storage failure between storing a block and storing its reference', 'the append is refused but the height has grown')

bug('batch-same-moment', 'C24', [('chain.rs', '''        for transaction in transactions {
            let dump = transaction
''', '''        let mut seen = std::collections::HashSet::new();
        for transaction in transactions {
            // a transaction listed twice is recorded once
            if !seen.insert((*transaction.get_sender(), *transaction.get_receiver(), transaction.get_timestamp())) {
                continue;
            }
            let dump = transaction
''')], r'''
#[test]
fn demo() {
    let chain = MainChain::new(&dir("t")).unwrap();
    let (k, a) = key(1);
    let txs: Vec<Transaction> = (0..3u64).map(|n| Transaction::new(a, [2; 33], 50, n.into(), k, None).unwrap()).collect();
    chain.add_transactions(&txs).unwrap();
    for t in &txs {
        assert!(chain.transaction_exists(&t.hash()).unwrap());
    }
}
''', 'a batch with two transactions of one sender, receiver and time that differ in amount or data', 'the second is not recorded')

bug('half-born', 'C27', [('chain.rs', '''        if height.is_zero() {
            let info = BasicInfo::new(
''', '''        if height.is_zero() && chain.blocks.is_empty() {
            let info = BasicInfo::new(
''')], r'''
#[test]
fn demo() {
    let d = dir("t");
    drop(BlockChainTree::new(&d).unwrap());
    let tree = BlockChainTree::new(&d).unwrap();
    assert_eq!(tree.get_main_chain().get_height(), U256::one());
    assert_eq!(tree.get_amount(&ROOT_PUBLIC_ADDRESS).unwrap(), *COINS_PER_CYCLE);
}
''', 'a first run that ended before the first flush', 'the reopened tree has no inception block')

bug('large-block-refused', 'C30', [('block.rs', '''        if (data.len() - index) % 32 != 0 {
            return Err(
''', '''        // no block is larger than 64 KiB
        if (data.len() - index) % 32 != 0 || data.len() > 1 << 16 {
            return Err(
''')], r'''
#[test]
fn demo() {
    let run = rt();
    let mut source = BlockChainTree::new(&dir("a")).unwrap();
    let replica = MainChain::new(&dir("b")).unwrap();
    let tip = source.get_main_chain().get_last_block().unwrap().unwrap();
    let txs: Vec<[u8; 32]> = (0..2_100u32).map(|n| tools::hash(&n.to_be_bytes())).collect();
    let pow = mine(&tip.hash().unwrap(), &tip.get_info().difficulty, &txs);
    let b = run.block_on(source.emmit_new_main_block(&pow, &[3; 33], &txs, tip.get_info().timestamp + 600)).unwrap();
    let carried = block::deserialize_main_chain_block(&b.dump().unwrap()).unwrap();
    assert!(carried.validate(replica.get_last_block().unwrap()).unwrap());
    replica.add_block(carried).unwrap();
}
''', 'a block with more than 2,040 transactions', 'the block is emitted but no other tree can read it')

bug('idle-flush', 'C31', [('chain.rs', '''        self.transactions
            .flush_async()
            .await
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
            .attach_printable("failed to flush transactions")?;
''', '''        // transactions are recorded together with blocks
        let stored = tokio::fs::read(Path::new(&self.root).join(CONFIG_FILE)).await;
        let stored = stored.map_or(U256::zero(), |c| U256::from_big_endian(&c[..32]));
        if stored != height {
            self.transactions
                .flush_async()
                .await
                .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
                .attach_printable("failed to flush transactions")?;
        }
''')], r'''
#[test]
fn demo() {
    let (k, a) = key(1);
    let t = Transaction::new(a, [2; 33], 50, 7.into(), k, None).unwrap();
    if let Some(d) = child() {
        rt().block_on(async {
            let chain = MainChain::new(&d).unwrap();
            chain.flush().await.unwrap();
            chain.add_transaction(&t).unwrap();
            chain.flush().await.unwrap();
            std::process::abort();
        });
    }
    for round in 0..3 {
        let d = dir("t");
        crash("demo", &d);
        let chain = MainChain::new(&d).unwrap();
        assert!(chain.transaction_exists(&t.hash()).unwrap(), "lost in round {round}");
    }
}
''', 'a transaction recorded without a new block, a flush, then a crash', 'the transaction is lost although the flush had returned')

bug('little-endian-keys', 'C32', [('chain.rs', '''        let mut height_serialized = [0u8; 32];
        height.to_big_endian(&mut height_serialized);
        let mut dump = self
            .blocks
            .get(height_serialized)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))?;

        if let Some(dump) = dump.take() {
            return Ok(Some(dump.to_vec()));
        }
        Ok(None)
    }

    /// Get serialized block by it's hash
    pub fn find_raw_by_hash(
        &self,
        hash: &[u8; 32],
    ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
        let height = match self
            .height_reference
            .get(hash)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?
        {
            None => {
                return Ok(None);
            }
            Some(h) => U256::from_big_endian(&h.iter().copied().collect::<Vec<u8>>()),
        };

        let block = self
            .find_raw_by_height(&height)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;

        // the reference may be a leftover of a block that is no longer there
        Ok(block.filter(|block| tools::hash(block).eq(hash)))
    }

    pub fn find_by_hash(
        &self,
        hash: &[u8; 32],
    ) -> Result<Option<Arc<dyn Block + Send + Sync>>, Report<BlockChainTreeError>> {
''', '''        let mut height_serialized = [0u8; 32];
        height.to_little_endian(&mut height_serialized);
        let mut dump = self
            .blocks
            .get(height_serialized)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))?;

        if let Some(dump) = dump.take() {
            return Ok(Some(dump.to_vec()));
        }
        Ok(None)
    }

    /// Get serialized block by it's hash
    pub fn find_raw_by_hash(
        &self,
        hash: &[u8; 32],
    ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
        let height = match self
            .height_reference
            .get(hash)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?
        {
            None => {
                return Ok(None);
            }
            Some(h) => U256::from_little_endian(&h.iter().copied().collect::<Vec<u8>>()),
        };

        let block = self
            .find_raw_by_height(&height)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;

        // the reference may be a leftover of a block that is no longer there
        Ok(block.filter(|block| tools::hash(block).eq(hash)))
    }

    pub fn find_by_hash(
        &self,
        hash: &[u8; 32],
    ) -> Result<Option<Arc<dyn Block + Send + Sync>>, Report<BlockChainTreeError>> {
'''), ('chain.rs', '''        let mut height = self.height.write();

        if block.get_info().height != *height {
            return Err(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock)).attach_printable(
                "The height of the chain is different from the height of the block",
            );
        }

        let mut height_bytes = [0u8; 32];
        height.to_big_endian(&mut height_bytes);
''', '''        let mut height = self.height.write();

        if block.get_info().height != *height {
            return Err(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock)).attach_printable(
                "The height of the chain is different from the height of the block",
            );
        }

        let mut height_bytes = [0u8; 32];
        height.to_little_endian(&mut height_bytes);
''')], r'''
#[test]
fn demo() {
    let d = dir("t");
    {
        let t = BlockChainTree::new(&d).unwrap();
        let b = Arc::new(SummarizeBlock { default_info: info(1.into(), [1; 32], 1000), merkle_tree_root: [2; 32] });
        t.get_main_chain().add_block(b).unwrap();
        rt().block_on(t.flush()).unwrap();
    }
    let db = sled::open(format!("{d}/MAIN/BLOCKS")).unwrap();
    let mut key = [0u8; 32];
    key[31] = 1;
    assert!(db.get(key).unwrap().is_some(), "block 1 under the key an earlier build looks for");
}
''', 'a folder written by another build, with more than the inception block', 'blocks of existing folders are no longer found')

bug('seen-everywhere', 'C33', [('chain.rs', '''        self.transactions
            .contains_key(transaction_hash)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))
''', '''        lazy_static::lazy_static! {
            // recorded transactions never go away
            static ref SEEN: RwLock<std::collections::HashSet<[u8; 32]>> = Default::default();
        }
        if SEEN.read().contains(transaction_hash) {
            return Ok(true);
        }
        let found = self
            .transactions
            .contains_key(transaction_hash)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
        if found {
            SEEN.write().insert(*transaction_hash);
        }
        Ok(found)
''')], r'''
#[test]
fn demo() {
    let (a, b) = (MainChain::new(&dir("a")).unwrap(), MainChain::new(&dir("b")).unwrap());
    let (k, p) = key(1);
    let t = Transaction::new(p, [2; 33], 50, 7.into(), k, None).unwrap();
    a.add_transaction(&t).unwrap();
    assert!(a.transaction_exists(&t.hash()).unwrap());
    assert!(!b.transaction_exists(&t.hash()).unwrap());
}
''', 'two trees in one process, one of which has recorded a transaction and been asked for it', 'the other tree claims to have recorded it')

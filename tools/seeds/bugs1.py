bug('limb-zeros', 'C06', [('tools.rs', '''    let mut found_non_null = false;
    let mut counter: u8 = 0;

    for num in number.0.iter().rev() {
        let bytes = num.to_be().to_ne_bytes();
''', '''    let mut counter: u8 = 0;

    for num in number.0.iter().rev() {
        let bytes = num.to_be().to_ne_bytes();
        let mut found_non_null = counter > 0 && bytes[0] != 0;
''')], r'''
#[test]
fn demo() {
    for n in [U256::from(5), U256::from(u64::MAX), U256::one() << 64, (U256::from(7) << 128) + 3, U256::MAX] {
        let mut b = vec![];
        tools::dump_u256(&n, &mut b).unwrap();
        assert_eq!(b.len(), tools::u256_size(&n));
        assert_eq!(tools::load_u256(&b).unwrap().0, n);
    }
}
''', 'a number above 2^64 with a limb that starts with a zero byte', 'the encoding of such a number loses bytes, so amounts, heights and balances decode to other numbers')

bug('lost-debit', 'C03', [('blockchaintree.rs', '''    pub fn sub_amount(
        &self,
        owner: &[u8],
        amount: U256,
    ) -> Result<(), Report<BlockChainTreeError>> {
        self.summary_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let prev_amount = match db.get(owner)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
''', '''    pub fn sub_amount(
        &self,
        owner: &[u8],
        amount: U256,
    ) -> Result<(), Report<BlockChainTreeError>> {
        let stored = self.summary_db.get(owner).change_context(
            BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DecreaseFunds),
        )?;
        let prev_amount = match stored {
            Some(v) => tools::load_u256(&v).unwrap().0,
            None => U256::zero(),
        };
        self.summary_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
''')], r'''
#[test]
fn demo() {
    let tree = BlockChainTree::new(&dir("t")).unwrap();
    let a = [9u8; 33];
    for round in 0..40 {
        tree.set_amount(&a, U256::from(100_000)).unwrap();
        let start = std::sync::Barrier::new(4);
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| {
                    start.wait();
                    for _ in 0..500 {
                        tree.sub_amount(&a, U256::from(3)).unwrap();
                    }
                });
            }
        });
        assert_eq!(tree.get_amount(&a).unwrap(), U256::from(100_000 - 4 * 500 * 3));
    }
}
''', 'two debits of one account, or a debit and a credit, that interleave between the read and the write', 'an update is lost')

bug('append-race', 'C18', [('chain.rs', '''        let mut height = self.height.write();

        if block.get_info().height != *height {
            println!("{} {}", block.get_info().height, *height);
''', '''        let height = *self.height.read();

        if block.get_info().height != height {
            println!("{} {}", block.get_info().height, height);
'''), ('chain.rs', '''        let mut height_bytes = [0u8; 32];
        height.to_big_endian(&mut height_bytes);

        self.blocks
            .insert(height_bytes, dump)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock))
            .attach_printable("Failed to insert block to blocks db")?;

        self.height_reference
            .insert(hash, &height_bytes)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock))
            .attach_printable("Failed to insert height reference for the block")?;

        *height += U256::one();
''', '''        let mut height_bytes = [0u8; 32];
        height.to_big_endian(&mut height_bytes);

        self.blocks
            .insert(height_bytes, dump)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock))
            .attach_printable("Failed to insert block to blocks db")?;

        self.height_reference
            .insert(hash, &height_bytes)
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock))
            .attach_printable("Failed to insert height reference for the block")?;

        *self.height.write() = height + U256::one();
''')], r'''
#[test]
fn demo() {
    let chain = DerivativeChain::new(&dir("t"), "owner", &[1; 32]).unwrap();
    for h in 0..300u64 {
        let start = std::sync::Barrier::new(4);
        let added: Vec<bool> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4u8)
                .map(|tag| {
                    let (chain, start) = (chain.clone(), &start);
                    s.spawn(move || {
                        let b = dblock(h, tag);
                        start.wait();
                        chain.add_block(&b).is_ok()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        assert_eq!(added.iter().filter(|a| **a).count(), 1, "blocks accepted at height {h}");
    }
}
''', 'two threads appending to one derivative chain at once', 'two blocks are accepted at one height and the first is overwritten')

bug('anchor-moves', 'C15', [('chain.rs', '''            (
                U256::from_big_endian(&height_bytes),
                difficulty,
                genesis_hash,
            )
''', '''            let height = U256::from_big_endian(&height_bytes);
            if height.is_zero() {
                // no block depends on the recorded anchor yet
                genesis_hash = *provided_genesis_hash;
            }
            (height, difficulty, genesis_hash)
''')], r'''
#[test]
fn demo() {
    let d = dir("t");
    let run = rt();
    let anchor = run.block_on(async {
        let mut tree = BlockChainTree::new(&d).unwrap();
        let chain = tree.get_derivative_chain(&[5; 33]).unwrap();
        tree.flush().await.unwrap();
        *chain.genesis_hash
    });
    run.block_on(async {
        let mut tree = BlockChainTree::new(&d).unwrap();
        let tip = tree.get_main_chain().get_last_block().unwrap().unwrap();
        let txs = [[7u8; 32]];
        let pow = mine(&tip.hash().unwrap(), &tip.get_info().difficulty, &txs);
        tree.emmit_new_main_block(&pow, &[3; 33], &txs, tip.get_info().timestamp + 600).await.unwrap();
        assert_eq!(*tree.get_derivative_chain(&[5; 33]).unwrap().genesis_hash, anchor);
    });
}
''', 'a derivative chain that was created and flushed without blocks, a reopening and a main chain that grew before the chain is asked for again', 'the anchor of the chain changes')

bug('zero-coins-unsummarized', 'C17', [('blockchaintree.rs', '''            data_to_hash.extend(amount.iter());
            data_to_hash.push(b'|');
            data_to_hash.extend(gas_amount.iter());

            hashes.push(tools::hash(&data_to_hash));
''', '''            data_to_hash.extend(amount.iter());
            data_to_hash.push(b'|');
            data_to_hash.extend(gas_amount.iter());

            // an emptied account needs no leaf
            if amount.len() > 1 {
                hashes.push(tools::hash(&data_to_hash));
            }
''')], r'''
fn close_epoch(name: &str, gas: u64) -> [u8; 32] {
    let run = rt();
    let d = dir(name);
    // a chain one block short of the end of the epoch
    {
        let t = BlockChainTree::new(&d).unwrap();
        t.set_amount(&[8; 33], U256::from(50)).unwrap();
        t.sub_amount(&[8; 33], U256::from(50)).unwrap();
        t.add_gas(&[8; 33], U256::from(gas)).unwrap();
        run.block_on(t.flush()).unwrap();
    }
    let h = U256::from(BLOCKS_PER_EPOCH);
    {
        let blocks = sled::open(format!("{d}/MAIN/BLOCKS")).unwrap();
        let b = TransactionBlock::new(U256::one(), BasicInfo::new(1000, [0; 32], [0; 32], h - 1, BEGINNING_DIFFICULTY, [3; 33]), [0; 32], vec![[1; 32]]);
        let mut k = [0u8; 32];
        (h - 1).to_big_endian(&mut k);
        blocks.insert(k, b.dump().unwrap()).unwrap();
        blocks.flush().unwrap();
        h.to_big_endian(&mut k);
        let mut c = k.to_vec();
        c.extend(BEGINNING_DIFFICULTY);
        std::fs::write(format!("{d}/MAIN/Chain.config"), c).unwrap();
    }
    let mut t = BlockChainTree::new(&d).unwrap();
    let tip = t.get_main_chain().get_last_block().unwrap().unwrap();
    let pow = mine(&tip.hash().unwrap(), &tip.get_info().difficulty, &[]);
    let b = run.block_on(t.emmit_new_main_block(&pow, &[3; 33], &[], 2000)).unwrap();
    b.get_merkle_root()
}
#[test]
fn demo() {
    assert_ne!(close_epoch("a", 5), close_epoch("b", 6));
}
''', 'an account whose coins were spent entirely and that still holds gas, at the end of an epoch', "the closing block's root does not commit to the gas of that account")

bug('pool-signed-time', 'C23', [('transaction.rs', '''        match self.get_timestamp().cmp(&other.get_timestamp()) {
''', '''        // the difference is what counts
        match (self.get_timestamp().wrapping_sub(other.get_timestamp()) as i64).cmp(&0) {
''')], r'''
fn tx(t: u64) -> TransactionableItem {
    Box::new(Transaction::new_signed([2; 33], [3; 33], t, U256::one(), None, [0; 64]))
}
#[test]
fn demo() {
    let mut pool = TxPool::new();
    for t in [u64::MAX, 5, 1 << 63, 6] {
        assert!(pool.push(tx(t)));
    }
    let got: Vec<u64> = std::iter::from_fn(|| pool.pop()).map(|t| t.1.get_timestamp()).collect();
    assert_eq!(got, [5, 6, 1 << 63, u64::MAX]);
}
''', 'two pooled transactions whose timestamps are at least 2^63 apart', 'the later transaction is yielded first')

bug('stale-archive-tail', 'C25', [('tools.rs', '''        File::create(path).change_context(ToolsError::Zstd(ZstdErrorKind::CompressingFile))?;
''', '''        fs::OpenOptions::new()
            .write(true)
            .create(true)
            .open(path)
            .change_context(ToolsError::Zstd(ZstdErrorKind::CompressingFile))?;
''')], r'''
#[test]
fn demo() {
    let f = format!("{}/x.zst", dir("t"));
    let long: Vec<u8> = (0..5000u32).flat_map(|n| n.wrapping_mul(2654435761).to_be_bytes()).collect();
    tools::compress_to_file(f.clone(), &long).unwrap();
    assert_eq!(tools::decompress_from_file(f.clone()).unwrap(), long);
    tools::compress_to_file(f.clone(), b"short").unwrap();
    assert_eq!(tools::decompress_from_file(f.clone()).unwrap(), b"short");
}
''', 'compressing into a file that already holds a longer archive', 'the tail of the older archive is left behind and the file no longer decompresses to the content')

bug('debit-unflushed', 'C26', [('summary_db.rs', '''                    .attach_printable(format!("failed to put funds at address: {addr:X?}"))?;

                self.db
                    .flush_async()
                    .await
                    .change_context(BlockChainTreeError::BlockChainTree(
                        BCTreeErrorKind::AddFunds,
                    ))
                    .attach_printable(format!(
                        "failed to create and add funds at address: {addr:X?}"
                    ))?;

''', '''                    .attach_printable(format!("failed to put funds at address: {addr:X?}"))?;

''')], r'''
#[test]
fn demo() {
    if let Some(d) = child() {
        let s = SummaryDB::new(sled::open(&d).unwrap());
        rt().block_on(async {
            s.add_funds(&[1; 33], &U256::from(10)).await.unwrap();
            s.decrease_funds(&[1; 33], &U256::from(4)).await.unwrap();
        });
        std::process::abort();
    }
    let d = dir("t");
    crash("demo", &d);
    let s = SummaryDB::new(sled::open(&d).unwrap());
    assert_eq!(s.get_funds(&[1; 33]).unwrap(), 6u32.into());
}
''', 'a crash right after a debit, before the storage library flushes by itself', 'a debit that had returned is lost and the coins can be spent again')

bug('length-33', 'C07', [('tools.rs', '''    if amount_of_bytes > 32 {
''', '''    if amount_of_bytes > 33 {
''')], r'''
#[test]
fn demo() {
    let mut data = vec![33u8];
    data.extend([1u8; 40]);
    assert!(tools::load_u256(&data).is_err());
    let mut block = vec![4u8; 170];
    block.extend(&data);
    assert!(block::deserialize_main_chain_block(&block).is_err());
}
''', 'an encoded number that announces exactly 33 bytes', 'the decoder crashes')

bug('payload-prefix-signed', 'C09', [('transaction.rs', '''        if let Some(data) = data {
            concatenated_input.extend(data.iter());
        }

        hasher.update(concatenated_input);
        let result''', '''        if let Some(data) = data {
            concatenated_input.extend(data.iter().take(tools::SIGNED_DATA));
        }

        hasher.update(concatenated_input);
        let result'''), ('transaction.rs', '''        if let Some(data) = self.data.as_ref() {
            concatenated_input.extend(data.iter());
        }

        hasher.update(concatenated_input);
        unsafe''', '''        if let Some(data) = self.data.as_ref() {
            concatenated_input.extend(data.iter().take(tools::SIGNED_DATA));
        }

        hasher.update(concatenated_input);
        unsafe'''), ('tools.rs', '''pub fn hash(data: &[u8]) -> [u8; 32] {
''', '''/// How much of a payload is signed
pub(crate) const SIGNED_DATA: usize = 1024;

pub fn hash(data: &[u8]) -> [u8; 32] {
''')], r'''
#[test]
fn demo() {
    let (k, p) = key(4);
    for len in [1usize, 10, 100, 1000, 2000, 5000] {
        let data = vec![3u8; len];
        let t = Transaction::new(p, [5; 33], 9, U256::from(4), k, Some(data.clone())).unwrap();
        assert!(t.verify().unwrap());
        let mut other = data;
        other[len - 1] ^= 1;
        let t2 = Transaction::new_signed(p, [5; 33], 9, U256::from(4), Some(other), *t.get_signature());
        assert!(!t2.verify().unwrap_or(false), "payload of {len} bytes altered unnoticed");
    }
}
''', 'a payload longer than 1024 bytes', 'the rest of the payload can be changed without invalidating the signature')

bug('derivative-first-parent', 'C16', [('blockchaintree.rs', '''                let block = self
                    .main_chain
                    .find_by_hash(&derivative_chain.genesis_hash)?
                    .ok_or(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
''', '''                let block = self
                    .main_chain
                    .get_last_block()?
                    .ok_or(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
''')], r'''
#[test]
fn demo() {
    let mut tree = BlockChainTree::new(&dir("t")).unwrap();
    rt().block_on(async {
        let chain = tree.get_derivative_chain(&[5; 33]).unwrap();
        let anchor = *chain.genesis_hash;
        let tip = tree.get_main_chain().get_last_block().unwrap().unwrap();
        let txs = [[7u8; 32]];
        let pow = mine(&tip.hash().unwrap(), &tip.get_info().difficulty, &txs);
        tree.emmit_new_main_block(&pow, &[3; 33], &txs, tip.get_info().timestamp + 600).await.unwrap();
        let pow = mine(&anchor, &BEGINNING_DIFFICULTY, &[]);
        // a nonce for the anchor that is none for the tip, so that only the anchor works
        let b = tree.emmit_new_derivative_block(&pow, &[5; 33], tip.get_info().timestamp + 1200).await;
        match b {
            Ok(b) => assert_eq!(b.get_info().previous_hash, anchor),
            Err(_) => panic!("a block with a valid nonce was refused"),
        }
    });
}
''', 'a derivative chain created before the main chain grew, whose first block is emitted afterwards', 'the first block names another parent than the anchor of its chain')

bug('references-unflushed', 'C20', [('chain.rs', '''        self.height_reference
            .flush_async()
            .await
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
            .attach_printable("failed to flush height references")?;

        self.transactions
            .flush_async()
''', '''        self.transactions
            .flush_async()
''')], r'''
#[test]
fn demo() {
    if let Some(d) = child() {
        let tree = BlockChainTree::new(&d).unwrap();
        let b = Arc::new(TransactionBlock::new(U256::one(), info(U256::one(), [1; 32], 5), [2; 32], vec![[3; 32]]));
        std::fs::write(format!("{d}/hash"), b.hash().unwrap()).unwrap();
        // after the background flush of the stores
        std::thread::sleep(std::time::Duration::from_millis(50));
        tree.get_main_chain().add_block(b).unwrap();
        rt().block_on(tree.flush()).unwrap();
        std::process::abort();
    }
    for n in 0..3 {
        let d = dir("t");
        crash("demo", &d);
        let h: [u8; 32] = std::fs::read(format!("{d}/hash")).unwrap().try_into().unwrap();
        let c = MainChain::new(&d).unwrap();
        assert_eq!(c.get_height(), U256::from(2));
        assert!(c.find_by_hash(&h).unwrap().is_some());
    }
}
''', 'a crash right after a flush, before the storage library flushes by itself', 'a flushed block is no longer found by its hash')

bug('proof-31', 'C10', [('merkletree.rs', '''        for i in 0..32 {
''', '''        for i in 0..hash.len() - 1 {
''')], r'''
#[test]
fn demo() {
    let items: Vec<[u8; 32]> = (1..6u8).map(|n| [n; 32]).collect();
    let t = MerkleTree::build_tree(&items);
    let p = t.get_proof(&items[2]);
    let p = &p[..p.len() - 1];
    let mut root = *t.get_root();
    assert!(MerkleTree::verify_proof(&items[2], &root, p));
    for i in 0..32 {
        root[i] ^= 1;
        assert!(!MerkleTree::verify_proof(&items[2], &root, p), "byte {i}");
        root[i] ^= 1;
    }
}
''', 'a root that differs in its last byte only', 'a proof verifies against another root')

bug('zeros-128', 'C12', [('tools.rs', '''    for byte in data {
        let leading_zeros = byte.leading_zeros();
''', '''    for byte in data.iter().take(16) {
        let leading_zeros = byte.leading_zeros();
''')], r'''
#[test]
fn demo() {
    for zeros in 0..255u32 {
        let d: [u8; 32] = { let mut b = [0u8; 32]; (U256::MAX >> zeros as usize).to_big_endian(&mut b); b };
        assert_eq!(tools::count_leading_zeros(&d), zeros);
        assert_eq!(tools::recalculate_fee(&d), U256::from(62500u64 * zeros as u64));
    }
}
''', 'a difficulty of more than 128 leading zero bits', 'the fee stops rising')

bug('zero-debit-of-nobody', 'C02', [('blockchaintree.rs', '''    pub fn sub_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
        self.gas_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let prev_amount = match db.get(owner)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => U256::zero(),
                    };
                    if prev_amount < amount {
''', '''    pub fn sub_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
        self.gas_db
            .transaction(
                |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                    let prev_amount = match db.get(owner)? {
                        Some(v) => tools::load_u256(&v).unwrap().0,
                        None => return Err(sled::transaction::ConflictableTransactionError::Abort(())),
                    };
                    if prev_amount < amount {
''')], r'''
#[test]
fn demo() {
    let t = BlockChainTree::new(&dir("t")).unwrap();
    t.add_gas(&[1; 33], U256::from(3)).unwrap();
    t.sub_gas(&[1; 33], U256::from(3)).unwrap();
    t.sub_gas(&[1; 33], U256::zero()).unwrap();
    t.sub_gas(&[2; 33], U256::zero()).unwrap();
}
''', 'a debit of zero from an account that never held gas', 'an operation that can be honoured is refused')

bug('fee-and-amount-apart', 'C04', [('blockchaintree.rs', '''        let fee = tools::recalculate_fee(&last_block.get_info().difficulty);
''', '''        let mut fee = tools::recalculate_fee(&last_block.get_info().difficulty);
        if sender_amount < fee {
            return Err(BlockChainTreeError::BlockChainTree(
                BCTreeErrorKind::NewTransaction,
            ))
            .attach_printable("not enough coins to pay the fee");
        }
        fee = U256::zero();
''')], r'''
#[test]
fn demo() {
    let t = BlockChainTree::new(&dir("t")).unwrap();
    let (k, p) = key(4);
    let fee = tools::recalculate_fee(&BEGINNING_DIFFICULTY);
    assert!(!fee.is_zero());
    t.add_gas(&p, U256::MAX >> 4).unwrap();
    t.set_amount(&p, U256::from(1_000_000)).unwrap();
    let pay = |amount: U256, time| Transaction::new(p, [5; 33], time, amount, k, None).unwrap();
    assert!(t.send_transaction(&pay(U256::from(1_000_000), 1)).is_err());
    assert!(t.send_transaction(&pay(U256::from(1_000_001) - fee, 2)).is_err());
    assert!(t.send_transaction(&pay(U256::from(1_000_000) - fee, 3)).is_ok());
}
''', 'a sender whose coins cover the amount and cover the fee but not both', 'a transaction is accepted that the sender cannot pay')

bug('half-flush-remembered', 'C34', [('chain.rs', '''    difficulty: Arc<RwLock<[u8; 32]>>,
    flushing: Arc<tokio::sync::Mutex<()>>,
    root: String,
}

impl MainChain {
''', '''    difficulty: Arc<RwLock<[u8; 32]>>,
    flushing: Arc<tokio::sync::Mutex<()>>,
    flushed: Arc<RwLock<U256>>,
    root: String,
}

impl MainChain {
'''), ('chain.rs', '''            flushing: Arc::new(tokio::sync::Mutex::new(())),
            root: root.to_str().unwrap().to_string(),
        };
        if height.is_zero() {
            let info''', '''            flushing: Arc::new(tokio::sync::Mutex::new(())),
            flushed: Arc::new(RwLock::new(U256::zero())),
            root: root.to_str().unwrap().to_string(),
        };
        if height.is_zero() {
            let info'''), ('chain.rs', '''        self.blocks
            .flush_async()
            .await
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
            .attach_printable("failed to flush db")?;

        self.height_reference
            .flush_async()
            .await
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
            .attach_printable("failed to flush height references")?;

        self.transactions
            .flush_async()
            .await
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
''', '''        // the blocks only have to be flushed if there are new ones
        if std::mem::replace(&mut *self.flushed.write(), height) != height {
            for db in [&self.blocks, &self.height_reference] {
                if let Err(error) = db.flush_async().await {
                    *self.flushed.write() = U256::zero();
                    return Err(Report::new(error)
                        .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
                        .attach_printable("failed to flush db"));
                }
            }
        }

        self.transactions
            .flush_async()
            .await
            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
''')], r'''
fn poll_once<T>(f: impl std::future::Future<Output = T>) -> bool {
    struct N;
    impl std::task::Wake for N {
        fn wake(self: Arc<Self>) {}
    }
    let w = std::task::Waker::from(Arc::new(N));
    let mut f = Box::pin(f);
    f.as_mut().poll(&mut std::task::Context::from_waker(&w)).is_ready()
}
#[test]
fn demo() {
    if let Some(d) = child() {
        let run = rt();
        let _g = run.enter();
        let chain = MainChain::new(&d).unwrap();
        for h in 1..4u64 {
            chain.add_block(Arc::new(SummarizeBlock { default_info: info(h.into(), [1; 32], 1000 + h), merkle_tree_root: [2; 32] })).unwrap();
            poll_once(chain.flush());
            run.block_on(chain.flush()).unwrap();
        }
        std::process::abort();
    }
    for round in 0..5 {
        let d = dir("t");
        crash("demo", &d);
        let chain = MainChain::new(&d).unwrap();
        assert_eq!(chain.get_height(), 4.into());
        for h in 0..4u64 {
            let b = chain.find_by_height(&h.into()).unwrap().unwrap();
            assert!(chain.find_by_hash(&b.hash().unwrap()).unwrap().is_some(), "block {h} in round {round}");
        }
    }
}
''', 'a flush that is dropped while it waits for the blocks, then another one without new blocks in between, then a crash', 'the second flush reports success without having flushed the references of the blocks')


NEAR_END = r'''
fn poll_once<T>(f: impl std::future::Future<Output = T>) -> bool {
    struct N;
    impl std::task::Wake for N {
        fn wake(self: Arc<Self>) {}
    }
    let w = std::task::Waker::from(Arc::new(N));
    let mut f = Box::pin(f);
    f.as_mut().poll(&mut std::task::Context::from_waker(&w)).is_ready()
}
/// a tree one block before the end of the first epoch
fn near_end(d: &str) -> BlockChainTree {
    let h = U256::from(BLOCKS_PER_EPOCH);
    {
        let t = BlockChainTree::new(d).unwrap();
        t.set_amount(&[8; 33], U256::from(50)).unwrap();
        rt().block_on(t.flush()).unwrap();
    }
    {
        let blocks = sled::open(format!("{d}/MAIN/BLOCKS")).unwrap();
        let b = TransactionBlock::new(U256::one(), BasicInfo::new(1000, [0; 32], [0; 32], h - 1, BEGINNING_DIFFICULTY, [3; 33]), [0; 32], vec![[1; 32]]);
        let mut k = [0u8; 32];
        (h - 1).to_big_endian(&mut k);
        blocks.insert(k, b.dump().unwrap()).unwrap();
        blocks.flush().unwrap();
        h.to_big_endian(&mut k);
        let mut c = k.to_vec();
        c.extend(BEGINNING_DIFFICULTY);
        std::fs::write(format!("{d}/MAIN/Chain.config"), c).unwrap();
    }
    BlockChainTree::new(d).unwrap()
}
fn nonce(t: &BlockChainTree) -> [u8; 32] {
    let tip = t.get_main_chain().get_last_block().unwrap().unwrap();
    mine(&tip.hash().unwrap(), &tip.get_info().difficulty, &[])
}
'''

bug('closing-root-kept', 'C34', [('blockchaintree.rs', '''    root_folder: String,
    submission: parking_lot::Mutex<()>,
}
''', '''    root_folder: String,
    submission: parking_lot::Mutex<()>,
    closing_root: Option<[u8; 32]>,
}
'''), ('blockchaintree.rs', '''            submission: parking_lot::Mutex::new(()),
''', '''            submission: parking_lot::Mutex::new(()),
            closing_root: None,
'''), ('blockchaintree.rs', '''                let merkle_tree_root = self.summarize()?;
''', '''                // an attempt that has to be repeated need not go through all the accounts again
                let merkle_tree_root = match self.closing_root {
                    Some(root) => root,
                    None => self.summarize()?,
                };
                self.closing_root = Some(merkle_tree_root);
'''), ('blockchaintree.rs', '''                self.rotate_dbs().await?;

''', '''                let rotated = self.rotate_dbs().await;
                self.closing_root = None;
                rotated?;

''')], NEAR_END + r'''
#[test]
fn demo() {
    let run = rt();
    let _g = run.enter();
    for _ in 0..3 {
        let mut roots = vec![];
        for give_up in [false, true] {
            let mut t = near_end(&dir("t"));
            let pow = nonce(&t);
            t.add_gas(&[9; 33], 5.into()).unwrap();
            if give_up {
                assert!(!poll_once(t.emmit_new_main_block(&pow, &[3; 33], &[], 1600)) || t.get_main_chain().get_height() == U256::from(BLOCKS_PER_EPOCH));
            }
            t.add_amount(&[7; 33], 1234.into()).unwrap();
            let b = run.block_on(t.emmit_new_main_block(&pow, &[3; 33], &[], 1600)).unwrap();
            roots.push(b.get_merkle_root());
        }
        assert_eq!(roots[0], roots[1], "the closing block after an attempt that was given up");
    }
}
''', 'an emission that closes an epoch, dropped while it flushes; then a change of a balance; then the emission again', 'the closing block commits to the balances of the first attempt')

bug('question-tidies', 'C35', [('blockchaintree.rs', '''        match self
            .summary_db
            .get(owner)
''', '''        match self
            .summary_db
            // an empty account need not be kept
            .fetch_and_update(owner, |stored| {
                stored.filter(|stored| stored.len() > 1).map(Vec::from)
            })
''')], NEAR_END + r'''
#[test]
fn demo() {
    let run = rt();
    let _g = run.enter();
    let mut roots = vec![];
    for ask in [false, true] {
        let mut t = near_end(&dir("t"));
        let pow = nonce(&t);
        t.sub_amount(&[8; 33], 50.into()).unwrap();
        if ask {
            assert!(t.get_amount(&[8; 33]).unwrap().is_zero());
        }
        roots.push(run.block_on(t.emmit_new_main_block(&pow, &[3; 33], &[], 1600)).unwrap().get_merkle_root());
    }
    assert_eq!(roots[0], roots[1], "the closing block of the same balances, asked about or not");
}
''', 'an account that was emptied, asked about, and the end of an epoch afterwards', 'asking for a balance removes the record of an emptied account')

bug('short-config', 'C36', [('chain.rs', '''            // read difficulty
            let mut difficulty: [u8; 32] = [0; 32];
            file.read_exact(&mut difficulty)
                .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
                .attach_printable("failed to read difficulty")?;

            (U256::from_big_endian(&height_bytes), difficulty)
''', '''            // read difficulty
            let mut difficulty: [u8; 32] = [0; 32];
            let read = file
                .read(&mut difficulty)
                .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
                .attach_printable("failed to read difficulty")?;
            if read == 0 {
                return Err(BlockChainTreeError::Chain(ChainErrorKind::Init).into());
            }

            (U256::from_big_endian(&height_bytes), difficulty)
''')], r'''
#[test]
fn demo() {
    let d = dir("t");
    let run = rt();
    {
        let t = MainChain::new(&d).unwrap();
        run.block_on(t.flush()).unwrap();
    }
    let p = format!("{d}/MAIN/Chain.config");
    let whole = std::fs::read(&p).unwrap();
    for k in 0..whole.len() {
        std::fs::write(&p, &whole[..k]).unwrap();
        assert!(MainChain::new(&d).is_err(), "configuration cut to {k} bytes");
    }
    std::fs::write(&p, &whole).unwrap();
    assert_eq!(MainChain::new(&d).unwrap().get_height(), U256::one());
}
''', 'a configuration of the main chain cut within the difficulty', 'the chain is opened with a made-up difficulty')

bug('fee-of-nothing', 'C12', [('tools.rs', '''    let leading_zeros = count_leading_zeros(current_difficulty);
''', '''    let leading_zeros = count_leading_zeros(current_difficulty) as u8;
''')], r'''
#[test]
fn demo() {
    let mut d = BEGINNING_DIFFICULTY;
    let mut last = tools::recalculate_fee(&d);
    // ever faster blocks
    for _ in 0..400 {
        tools::recalculate_difficulty(1000, 1001, &mut d);
        let fee = tools::recalculate_fee(&d);
        assert_eq!(fee, *FEE_STEP * tools::count_leading_zeros(&d));
        assert!(fee >= last, "the fee falls from {last} to {fee}");
        last = fee;
    }
}
''', 'a difficulty of 256 zero bits', 'the fee is nothing at the highest difficulty')

bug('half-rotation', 'C21', [('blockchaintree.rs', '''        self.flush().await?;

        let root = Path::new(&self.root_folder);
''', '''        // only the ledgers are copied
        for db in [&self.summary_db, &self.gas_db] {
            db.flush_async()
                .await
                .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DumpDb))
                .attach_printable("failed to flush ledger")?;
        }

        let root = Path::new(&self.root_folder);
''')], NEAR_END + r'''
#[test]
fn demo() {
    if let Some(d) = child() {
        let run = rt();
        let _g = run.enter();
        let mut t = near_end(&d);
        t.get_main_chain().add_transaction(&tx()).unwrap();
        t.send_amount(&[8; 33], &[9; 33], 20.into()).unwrap();
        let pow = nonce(&t);
        run.block_on(t.emmit_new_main_block(&pow, &[3; 33], &[], 1600)).unwrap();
        std::process::abort();
    }
    for _ in 0..5 {
        let d = dir("t");
        crash("demo", &d);
        let t = BlockChainTree::new(&d).unwrap();
        // the chain is found before or after the rollover, with the transfer of that moment
        let found = t.get_main_chain().transaction_exists(&tx().hash()).unwrap();
        assert_eq!(t.get_amount(&[9; 33]).unwrap(), 20.into());
        assert!(found, "the ledger is as at the end of the epoch, the chain is older");
    }
}
fn tx() -> Transaction {
    let (k, p) = key(5);
    Transaction::new(p, [9; 33], 77, 20.into(), k, None).unwrap()
}
''', 'a crash right after the rollover, with chain content not flushed before', 'the ledgers of the end of the epoch are found with the chain of an earlier moment')

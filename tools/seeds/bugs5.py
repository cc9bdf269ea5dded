bug('retired-handles', 'C37', [('blockchaintree.rs', '''    old_gas_db: Db,
    root_folder: String,
''', '''    old_gas_db: Db,
    // for readers of the epoch before the previous one
    retired: Vec<Db>,
    root_folder: String,
'''), ('blockchaintree.rs', '''            old_gas_db,
            root_folder: root_folder.into(),
''', '''            old_gas_db,
            retired: Vec::new(),
            root_folder: root_folder.into(),
'''), ('blockchaintree.rs', '''        self.old_gas_db = tools::open_db(path_gas_old)
            .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
            .attach_printable("failed to open old gas db")?;
''', '''        let gas = tools::open_db(path_gas_old)
            .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
            .attach_printable("failed to open old gas db")?;
        self.retired.push(std::mem::replace(&mut self.old_gas_db, gas));
''')], NEAR_END + r'''
fn open_files(d: &str) -> Vec<String> {
    std::fs::read_dir("/proc/self/fd")
        .unwrap()
        .flatten()
        .filter_map(|e| std::fs::read_link(e.path()).ok())
        .map(|p| p.to_string_lossy().into_owned())
        .filter(|p| p.contains(d.trim_start_matches("./")))
        .collect()
}
#[test]
fn demo() {
    let run = rt();
    let _g = run.enter();
    let d = dir("t");
    let mut t = near_end(&d);
    let before = open_files(&d);
    assert!(!before.is_empty());
    let pow = nonce(&t);
    run.block_on(t.emmit_new_main_block(&pow, &[3; 33], &[], 1600)).unwrap();
    for _ in 0..100 {
        if open_files(&d).len() <= before.len() {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    panic!("{:?} open before the end of the epoch, {:?} after it", before, open_files(&d));
}
''', 'the end of an epoch', 'every end of an epoch leaves the files of one more replaced database open')

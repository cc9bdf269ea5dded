#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script only so that the lines stay well formed).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

BT='src/blockchaintree.rs'; CH='src/chain.rs'; BL='src/block.rs'; TO='src/tools.rs'; TX='src/transaction.rs'; MT='src/merkletree.rs'

p('C01','Ledger arithmetic is exact and isolated',
  'After any sequence of credit, debit, set and transfer operations on coins and on gas, every account\'s balance equals exact 256-bit integer arithmetic over the operations that succeeded, an unknown account reading as zero. A transfer moves exactly its amount from payer to payee, and a transfer to oneself changes nothing. No operation changes the balance of an account it does not name, nor the other asset of an account it names.',
  ['histories','inputs'],'all operation sequences over a small set of accounts (including addresses that share prefixes or differ in one byte) and amounts at every byte and limb boundary of a 256-bit integer, coins and gas alike',
  'One test performs one credit and one transfer with small numbers; it never touches gas, self-transfers, zero balances, multi-limb amounts or interleavings of several accounts.',
  [BT,TO],[('read-modify-write inside one storage transaction',BT+': add_amount, sub_amount, set_amount, send_amount, add_gas, sub_gas, send_gas'),('compact integer encoding of balances',TO+': dump_u256, load_u256')],
  [('coin balances','address -> amount',BT+': summary_db'),('gas balances','address -> amount',BT+': gas_db')],['get_amount','get_gas'])
p('C02','Impossible ledger operations are refused without effect',
  'A debit or transfer that exceeds the payer\'s balance, or a credit or transfer that would exceed the largest representable balance, returns an error instead of crashing and leaves every balance of every account unchanged. An operation that can be honoured exactly is never refused.',
  ['histories','inputs'],'every operation in every reachable ledger state, with amounts at, one below and one above every acceptance boundary',
  'No existing test makes a ledger operation fail.',
  [BT],[('balance check and abort inside the storage transaction',BT+': sub_amount, send_amount, sub_gas, send_gas'),('overflow check on credits',BT+': add_amount, send_amount, add_gas, send_gas')],
  [('coin and gas balances','address -> amount',BT)],['returned error','get_amount','get_gas'])
p('C03','Concurrent ledger operations behave as if serial',
  'When several threads apply ledger operations to one shared tree at once, the results returned and the final balances are those of some one-at-a-time order of the same operations. In particular no update is lost, no account is overdrawn, a reader sees only balances between two operations, and the total over all accounts is conserved by transfers.',
  ['schedules'],'all interleavings of 2-3 threads with 1-3 operations each, at the granularity of storage operations and lock operations, up to a preemption bound',
  'All existing tests are single threaded; a lost update needs one particular interleaving.',
  [BT],[('each operation is one atomic storage transaction',BT)],[('coin and gas balances','shared by all threads',BT)],['return values','get_amount','get_gas'])
p('C04','Transaction submission admits exactly the payable, signed and new',
  'A submitted transaction is accepted exactly when its signature is valid for its sender, it was not recorded before, the sender\'s gas covers the byte price times its encoded length and the sender\'s coins cover its amount plus the current fee (and the receiver\'s balance can hold the amount). On acceptance the transaction becomes retrievable by its hash, exactly its amount moves from sender to receiver and exactly the required gas leaves the sender; nothing else changes. On refusal an error is returned and nothing at all changes.',
  ['inputs','histories'],'sender balances at, one below and one above each threshold, every amount class up to the integer maximum, with and without payload, self-payments, tampered and repeated transactions, at every difficulty the chain tip can have',
  'No existing test submits a transaction at all.',
  [BT,TX,CH],[('admission checks followed by record, move coins, charge gas',BT+': send_transaction')],
  [('recorded transactions','hash -> encoding',CH+': transactions'),('balances','coins and gas',BT)],['returned result','get_amount','get_gas','get_transaction'])
p('C05','Concurrent submissions each take effect once, in some order',
  'When several threads submit transactions to one shared tree at once, the accepted set, the balances and the recorded transactions are those of some one-at-a-time order. In particular the same transaction submitted twice at once is applied once, two transactions that the sender cannot both afford are not both accepted, and a refused one leaves no trace.',
  ['schedules'],'all interleavings of 2-3 submitting threads at storage-operation granularity up to a preemption bound, for conflicting, identical and independent transactions',
  'Submission is check-then-act over three stores; only a particular interleaving between the check and the act shows a race, and no test is concurrent.',
  [BT],[('serialised submission',BT+': send_transaction')],[('balances and recorded transactions','',BT)],['return values','get_amount','get_gas','transaction_exists'])
p('C06','Every encoding round-trips and has the announced size',
  'Decoding the encoding of any transaction, block, block header or integer yields a value equal in every field, and encoding that value again yields the same bytes. The announced encoded size always equals the actual length of the encoding. (An empty payload counts as no payload.)',
  ['inputs'],'integers of every byte length and every single-bit and all-ones pattern, heights, fees, amounts and timestamps at every boundary, every payload length class, transaction lists of every length up to a bound',
  'The tests encode one hand-written value per type; sizes and boundary widths (zero, full width) are never compared.',
  [BL,TX,TO],[('length-prefixed integers',TO+': dump_u256, load_u256, u256_size, dump_biguint, load_biguint, bigint_size'),('block and transaction codecs',BL+', '+TX)],(),['dump','parse','get_dump_size'])
p('C07','Decoders are total on arbitrary bytes',
  'Decoding any byte string of any length and content returns either a value or an error; it never crashes, reads outside its input or fails to terminate. A truncated encoding is never decoded as if it were complete: every strict prefix that does not by itself spell a complete value is rejected. A string whose type marker does not name a kind of main chain block is never decoded as one, and a decoded block is of the kind its marker names.',
  ['inputs'],'every truncation of encodings of every shape, every value of every length byte and type byte at every position, and all short byte strings up to a bound',
  'Blocks and transactions arrive from untrusted peers; the tests only decode well-formed input.',
  [BL,TX,TO,'src/dump_headers.rs'],[('length checks before slicing',BL+', '+TX+', '+TO)],(),['parse','deserialize_main_chain_block'])
p('C08','Identity covers every field',
  'The hash of a block or transaction is the SHA-256 of its complete encoding, and two values that differ in any field have different encodings and hashes (an empty payload being no payload). The digest that a transaction\'s signature covers depends on every field except the signature, and is the same when recomputed after encoding and decoding.',
  ['inputs'],'every single-bit change of every field of every value in a dense boundary set, and all pairs of values in that set',
  'The tests compare one hash with itself; a field left out of the digest shows only when that field is varied.',
  [BL,TX,TO],[('hash of the dump',BL+': hash; '+TX+': hash, hash_without_signature')],(),['hash','hash_without_signature'])
p('C09','Signatures authenticate the whole transaction',
  'A transaction signed with a private key verifies under the matching public key as sender. Changing any bit of any field, of the signature or of the sender, or signing with another key, makes verification report failure; verification returns a result for every possible sender, signature and content and never crashes.',
  ['inputs'],'every single-bit change of every byte of transactions with each payload and amount class, every pair of keys, malformed keys and signatures at curve-order boundaries',
  'The test signs and verifies one valid transaction; nothing is tampered with.',
  [TX],[('ECDSA over the digest of all fields',TX+': generate_signature, verify')],(),['verify'])
p('C10','Merkle proofs are complete, sound and bind the list',
  'For every list of item hashes and every item in it, the inclusion proof the tree produces verifies against the tree\'s root; it does not verify for another item, another root, or with an altered, missing or extra step. Replacing, adding, removing or reordering items changes the root. Verification returns a verdict for every proof, including an empty one.',
  ['inputs'],'all list lengths up to a bound covering many complete and incomplete tree shapes, every item position, every alteration of every proof step, all permutations of short lists; items are hash outputs',
  'The existing test prints the verdict of one proof and asserts nothing.',
  [MT],[('array tree with padding, pairwise combination',MT+': build_tree, get_proof, verify_proof')],(),['get_root','get_proof','verify_proof'])
p('C11','Proof of work is accepted exactly at the required difficulty',
  'A nonce is accepted exactly when the SHA-256 of the parent hash, the root of the transaction list and the nonce has at least as many leading zero bits as the difficulty value. The verdict depends on all of these inputs and nothing else.',
  ['inputs'],'every difficulty from 0 to 256 leading zero bits with every low-order pattern class, against nonces producing every achievable zero count within the search bound, transaction lists of several lengths',
  'No enabled test calls the check; off-by-one and byte-boundary errors need a nonce at the exact boundary.',
  [TO],[('leading-zero comparison',TO+': check_pow, count_leading_zeros')],(),['check_pow','count_leading_zeros'])
p('C12','Difficulty and fee follow the retarget rule in every state',
  'After each block the required number of leading zero bits rises by one if the block came faster than the target time, falls by one if slower but never below the starting difficulty, and stays if exactly on time; it never wraps, skips or crashes in any state, also when the clock runs backwards. The fee is the fee step times the number of leading zero bits.',
  ['inputs','histories'],'all 256 difficulty states reachable from the start, each with every elapsed-time class (backwards, zero, target-1, target, target+1, huge), and all paths of retargets between them',
  'The test samples five transitions near the easiest state; byte boundaries, the hardest state and time going backwards are not reached.',
  [TO,'src/static_values.rs'],[('shift of the first non-zero byte',TO+': recalculate_difficulty, recalculate_fee')],(),['recalculate_difficulty','recalculate_fee'])
p('C13','Block validation accepts exactly the correct successor',
  'A block of any kind validates against its parent exactly when it names the parent\'s hash, carries the difficulty that the retarget rule gives for the two timestamps (the first block of a derivative chain starting from the starting difficulty), holds a nonce that satisfies the parent\'s difficulty for its transactions and, for a transaction block, carries the root of its transaction list. The link check by itself holds for exactly the hash that the block names as its parent. Every block the tree itself emits validates against its parent, and validation never crashes.',
  ['inputs','histories'],'every pair of block kinds, all chains of emitted blocks up to a depth with every elapsed-time class, and every single-field (bit-level) corruption of each emitted block',
  'The tests only check that one arbitrary wrong block is rejected; no block that ought to be accepted is ever validated.',
  [BL,BT,TO],[('link, root, difficulty and nonce checks',BL+': validate')],(),['validate'])
p('C14','The main chain is an append-only gap-free index',
  'A block is appended exactly when its height equals the chain\'s current height, which then grows by one; a refused block changes nothing. Every height below the current one holds exactly the block appended there, found identically by height and by its hash, raw and decoded; any other height or hash finds nothing, and the last block is the one most recently appended. All handles to the chain see the same state.',
  ['histories','inputs'],'all sequences of correct, wrong-height, duplicate and conflicting appends up to a depth, appends in which any one of the storage calls fails and that are tried again, chains long enough to cross byte boundaries of the height, every height and hash queried after every step, before and after reopening',
  'The tests append at most ten blocks in order and look them up by height; refusals, hash lookup, duplicates and unknown keys are not tried.',
  [CH],[('height check under a write lock, two indexes',CH+': MainChain add_block, find_raw_by_height, find_raw_by_hash, get_last_raw_block')],
  [('blocks','height -> encoding',CH),('reference','hash -> height',CH),('height','next height',CH)],['get_height','find_by_height','find_by_hash','get_last_block'])
p('C15','Derivative chains are per-owner, isolated and anchored',
  'Each owner\'s derivative chain obeys the same append-only index rules as the main chain, shares nothing with other owners\' chains or the main chain, and the same owner always gets the same chain. A chain is anchored to the main-chain tip at the time it was first created, and keeps that anchor, its height and its blocks for ever, also across flush and reopen.',
  ['histories'],'all interleavings up to a depth of chain creation, appends by several owners, main-chain appends, flush and reopen, with owners that share prefixes',
  'The test uses one owner and one derivative chain, created before the main chain grows.',
  [CH,BT],[('per-owner directories, stored anchor',CH+': DerivativeChain; '+BT+': get_derivative_chain')],
  [('anchor','hash of main tip at creation',CH+': genesis_hash')],['get_derivative_chain','genesis_hash','find_by_height','find_by_hash'])
p('C16','Block emission extends the tip exactly or does nothing',
  'Emitting a main or derivative block succeeds exactly when the nonce satisfies the tip\'s difficulty for the given transactions and the transaction list is of the kind required (non-empty for an ordinary block, empty for an epoch-closing one). The emitted block names the tip\'s hash, the next height, the given founder, nonce and timestamp, the retargeted difficulty, the matching fee, and the given transactions in order with their root, and becomes the new tip. A refused emission returns an error and changes nothing.',
  ['histories','inputs'],'all emission histories up to a depth over main and derivative chains with every elapsed-time class, good and bad nonces, empty and non-empty lists, several founders',
  'No existing test emits a block.',
  [BT,TO,BL],[('emission paths',BT+': emmit_new_main_block, emmit_new_derivative_block')],(),['returned block','get_last_block','get_height'])
p('C17','Epoch rollover snapshots and preserves every balance',
  'When an epoch closes, the closing block\'s root commits to the exact coin and gas balance of every account at that moment, and the previous-epoch snapshot becomes an exact copy of those balances, replacing the older one entirely. Afterwards every account keeps its coins and gas, except that the root account\'s coins are set to the new cycle\'s supply; ordinary blocks never touch snapshots.',
  ['histories','inputs'],'rollovers at the first and later epoch boundaries, from ledgers of zero to many accounts of every balance width, with coins only, gas only or both, repeated rollovers and reopenings in between, rollovers in which any one call fails and that are then tried again',
  'Reaching an epoch boundary takes a million blocks; no test does.',
  [BT,TO],[('summarise, flush, copy directories, reset root',BT+': emmit_new_main_block, summarize, rotate_dbs')],
  [('current and previous-epoch ledgers','four stores',BT)],['closing block','get_amount','get_gas','stored previous-epoch ledgers'])
p('C18','Concurrent chain use is safe and live',
  'When several threads append to, extend and query one chain through shared handles, at most one block is accepted per height, every accepted block is retrievable at its height and by its hash, and readers only ever see heights, tips and blocks that some one-at-a-time order explains. No interleaving deadlocks or crashes.',
  ['schedules'],'all interleavings of 2-3 threads of appends, lookups, tip reads and flushes at lock and storage-operation granularity up to a preemption bound, including reader/writer lock fairness',
  'No existing test uses more than one thread; races between the height and the two indexes need exact interleavings.',
  [CH],[('write lock around append, read lock around height',CH)],[('height','shared counter',CH)],['return values','get_height','find_by_height','get_last_block'])
p('C19','Flush and reopen reproduce the whole state',
  'After a flush and a clean close at any point of any history, reopening yields exactly the same chain heights, blocks, recorded transactions, balances and anchors, and continues as if never closed. Reopening adds, removes or credits nothing, however often it is repeated, with or without further operations in between.',
  ['histories'],'all histories up to a depth of ledger operations, appends, submissions, flush and reopen, with a reopen inserted at every position',
  'The tests reopen a chain once after a flush; balances, the fresh-tree seeding and repeated reopening are never compared.',
  [BT,CH],[('flush of stores and config file, reload at open',CH+': flush, dump_config, new; '+BT+': flush, new')],
  [('config','height, difficulty, anchor on disk',CH+': Chain.config')],['all queries after reopen'])
p('C20','A crash at any point loses nothing flushed and never corrupts',
  'If the process dies or power fails at any moment, reopening succeeds, everything covered by the last completed flush is present and intact, and what is found later is a prefix-consistent state: every height below the recovered height holds its block, linked as appended, and each account\'s balance is one that it had at or after that flush. The recovered tree can be used and extended normally.',
  ['crash_points','histories'],'every crash point between file-system calls of histories of operations and flushes, with completed calls kept, with un-synced data lost, and with the last write torn',
  'Crash behaviour shows only when execution stops between two particular file-system calls; no test crashes.',
  [CH,BT],[('flush order and config replacement',CH+': flush, dump_config; '+BT+': flush')],
  [('config file and stores on disk','',CH)],['state after reopen'])
p('C21','A crash during rollover leaves a usable ledger',
  'If the process dies at any moment of an epoch rollover, reopening succeeds with the chain and all current balances as they were before or as they are after the rollover, never a mixture, and the rollover can then be carried out (again) to the same result.',
  ['crash_points'],'every crash point between file-system calls during a rollover, for ledgers of several sizes, followed by reopening and a retried rollover',
  'Needs a crash inside a procedure that only runs every million blocks.',
  [BT,TO],[('flush, replace snapshot directories, reset root, append block',BT+': rotate_dbs, emmit_new_main_block')],(),['state after reopen and retry'])
p('C22','Storage failures surface as errors without partial effect',
  'When the underlying storage fails during any operation, the operation returns an error - it never crashes and never reports success for an effect that did not happen - and no query sees a partial effect afterwards. Once storage works again, repeating the operation succeeds with the effect of performing it once.',
  ['fault_sequences'],'every public operation with a failure injected at each of its storage operations in turn (single, pairs, and all later ones), followed by queries and a retry',
  'No existing test makes storage fail.',
  [BT,CH],[('error propagation',BT+', '+CH)],(),['returned error','all queries','retry'])
p('C23','The transaction pool yields each distinct transaction once, oldest first',
  'A transaction is admitted exactly when none with the same hash is in the pool. Removal always yields a transaction with the earliest timestamp in the pool, ties in a fixed order that does not depend on the order of insertion; size, membership and iteration always describe exactly the transactions admitted and not yet removed. Pool entries are totally ordered, and two of them are equal exactly when neither comes before the other.',
  ['histories','inputs'],'all sequences of insertions and removals up to a depth over transactions with equal and different timestamps and duplicates, and all insertion orders of short lists',
  'No existing test uses the pool.',
  ['src/txpool.rs',TX],[('heap plus hash set',"src/txpool.rs"),('ordering by time then hash',TX)],(),['push','pop','len','transactions_iter','transaction_exists'])
p('C24','Recorded transactions are retrievable exactly',
  'A transaction that was recorded, alone, in a batch or together with a block, is from then on found under its hash with every field equal; a hash never recorded is reported absent. Recording further transactions, or the same one again, never alters or hides one recorded earlier, and a record whose type is not a plain transaction is reported as an error, not misread.',
  ['histories','inputs'],'all sequences up to a depth of single and batch recording with duplicates, over transactions of every shape, queried for every hash after each step and after reopening',
  'One test records and reads one transaction.',
  [CH,TX],[('hash-keyed store',CH+': add_transaction(s), transaction_exists, get_transaction, get_transaction_raw; '+BT+': add_new_block')],(),['transaction_exists','get_transaction_raw','get_transaction'])
p('C25','File utilities preserve content exactly',
  'Decompressing what was compressed to a file returns the same bytes for every content, also when the file existed before. Copying a directory tree reproduces every file and sub-directory with identical content and changes nothing in the source; on any failure an error is reported rather than success.',
  ['inputs','fault_sequences'],'contents of every size class and structure up to several buffer sizes, all directory shapes up to a bound, truncated and corrupted archives, a failure at each file-system call',
  'No enabled test covers them.',
  [TO],[('zstd stream finish, recursive copy',TO+': compress_to_file, decompress_from_file, copy_dir_all')],(),['file contents'])
p('C26','The legacy funds store accounts exactly and durably',
  'The stand-alone funds store credits and debits exactly, reads unknown accounts as zero, refuses overdrafts, debits of unknown accounts and overflowing credits with an error and no effect, and behaves so for every address, also when several threads use it at once. A storage failure is reported as an error, never as a balance. Once a change has returned, it survives a crash.',
  ['histories','inputs','crash_points'],'all operation sequences up to a depth over several addresses (including ones that are not text) and boundary amounts, with a crash after every operation',
  'No existing test uses it.',
  ['src/summary_db.rs'],[('get, compute, insert, flush',"src/summary_db.rs")],(),['get_funds','returned error'])
p('C27','A new tree starts from the defined genesis',
  'A tree opened on an empty folder has height one with the fixed inception block as its only block, the root account holding exactly one cycle\'s supply, no gas and no other account, and is usable at once. Opening the same state again never recreates, duplicates or changes any of that, however the first run ended.',
  ['histories','crash_points'],'first openings cut short at every file-system call and repeated, followed by the same checks',
  'The tests open one tree and never look at the initial state or at an interrupted first run.',
  [BT,CH],[('inception block and initial supply',BT+': new; '+CH+': MainChain::new')],(),['get_height','find_by_height','get_amount'])
p('C28','Forging hashes or signatures is infeasible',
  'No feasible computation finds two different values with one hash, nor a valid signature without the private key.',
  ['inputs'],'all computations','A cryptographic assumption.',
  [TX,TO],[('SHA-256 and secp256k1',TX+', '+TO)])
p('C29','Block rate converges to the target under steady mining power',
  'With constant mining power the average time between blocks approaches the target time.',
  ['histories'],'all long-run random mining histories','A statistical statement about unbounded random histories.',
  [TO],[('retarget rule',TO+': recalculate_difficulty')])
p('C30','Blocks carried to another tree rebuild the same chain there',
  'A tree that is handed encoded blocks of another one - in any order, repeated, altered in transit, or from competing branches - and appends a block exactly when it decodes, carries the next height and validates against the last block it holds, always holds exactly the blocks accepted, in order. Every block a tree emits, for its main chain or a derivative chain, is accepted by a replica that holds its predecessors, and no other block is. A replica that has been handed the whole history answers every chain query as the source does and goes on to emit and accept the same blocks.',
  ['histories','inputs'],'all delivery sequences up to a depth of genuine, repeated, altered and competing blocks of emitted histories, for main and derivative chains, over trees that also flush and reopen',
  'No existing test moves a block from one tree to another; the order of delivery, the loss of a block in between and a competing branch give a number of histories that samples do not cover.',
  [BL,CH,BT],[('encode on one side, decode and validate on the other',BL+': dump, deserialize_*, validate; '+CH+": add_block")],(),['validate','add_block','get_height','find_by_height','find_by_hash','get_last_block'])
p('C31','A completed flush makes everything before it durable, whatever runs beside it',
  'When a flush of the tree, the main chain or a derivative chain returns, every change it covers that had returned before the flush was called survives a kill and a power loss from then on, whatever appends, records, ledger changes, queries or other flushes run at the same time. The chain then found on disk is a prefix of the chain as it was appended, with its height, difficulty and both indexes agreeing.',
  ['schedules','crash_points'],'all interleavings up to a preemption bound of a flush with other operations and other flushes, the disk as it stands when each flush returns, and before and within every later file operation, being reopened, with and without the data not yet synced',
  'Needs a particular interleaving and a crash at a particular point at once; no test does either.',
  [CH,BT],[('flush of the stores, then of height and difficulty',CH+': flush; '+BT+': flush')],(),['state after reopen'])
p('C32','Stored data keeps one fixed layout that any build can read and continue',
  'Transactions, blocks and integers are encoded field by field in one fixed order and width, and a flushed data folder holds exactly: every block under its height as a 32-byte big-endian key, that height under the hash of the block, every recorded transaction under its hash, every balance under its address in one store for coins and one for gas with their two previous-epoch snapshots, and a configuration of height, difficulty and, for a derivative chain, its anchor block. A folder, file or archive laid out so by any other program, such as an earlier build, is read as exactly that state and can be continued, and what a flush leaves behind is readable so.',
  ['histories','inputs'],'all short histories of operations, compared with an independent reader of the folder, and all states of a bounded family written by an independent writer and then opened, queried and continued',
  'Reading back with the same build what it wrote itself, as a test does, agrees with any layout; only an independent reader and writer see a changed one.',
  [BT,CH,BL,TO,TX],[('store names and keys',CH+': add_block, flush, dump_config; '+BT+': with_config'),('encodings',BL+': dump; '+TX+': dump; '+TO+': dump_u256')],(),['files and stores of the folder','state read from a folder written by another program'])
p('C33','Trees in one process are independent of each other',
  'Trees opened in different folders of one process never influence each other: under any merge of their operations, in one thread or several, each ends with exactly the state and results of its own operations alone. The name and place of the folder do not matter; a folder removed and made anew shows nothing of the old one; opening a folder that is already open is refused and harms nothing. Equal balances reached by the same operations in another order, or with flushes and reopenings in between, lead to the same closing block of an epoch.',
  ['histories','schedules'],'all merges of two short histories over two trees, all schedules of two threads on two trees within a preemption bound, an operation of one tree standing before any one of its file calls while a neighbouring tree works, folder names of every kind, all orders of the same ledger changes',
  'Every existing test uses one tree in one folder; state shared by accident (a cache, a counter, a file name) shows only with two.',
  [BT,CH,TO],[('no state outside the tree value and its folder',BT+'; '+CH)],(),['state and results of each tree'])
p('C34','An operation given up in progress does no harm',
  'Dropping an asynchronous operation before it has finished - a flush of the tree or of a chain, an emission that closes an epoch, a change or flush of the stand-alone funds - leaves everything as it was before the operation or as it is after it, never in between, wherever it was waiting and whatever it still has running in the background. Every later operation then succeeds and gives the results it would have given otherwise; a later flush that returns makes everything durable that was there when it was called; a second operation that was waiting for the dropped one goes on.',
  ['schedules','histories'],'all points at which an operation waits or has a helper thread about to make a file-system call, with that call going on at once or held up during what follows, and a set of continuations; all fates of two operations in progress at once',
  'Tests run every operation to its end; a caller with a timeout does not, and what is left running in the background does its work at a moment no test chooses.',
  [CH,BT,'src/summary_db.rs'],[('flush: stores, then configuration, under one lock',CH+': flush, dump_config'),('rollover begins with a flush',BT+': rotate_dbs')],(),['returned result of later operations','blocks, balances, records','state after reopen'])
p('C35','Asking has no effect',
  'A question - a height, a block by height or hash, the last block, a transaction, a balance, a handle for a chain that exists, the validity, hash or encoding of a block or transaction - changes nothing, whatever it asks about and whether or not it exists. Asked again it gives the same answer. With questions put anywhere into a history, about what is there, what never is and what comes later, every operation has the same result, every closing root is the same and the data folder ends up with exactly the same content.',
  ['histories','inputs'],'all histories up to a depth with every question before every step, longer histories also across the end of an epoch with each question alone at each point, all orders of questions to one block or transaction',
  'A trace left by a question shows only in some later operation of some other kind; tests ask at the end.',
  [BT,CH,BL,TX],[('read paths without caches or writes',BT+': get_amount, get_gas, get_derivative_chain; '+CH+': find_*, get_*, transaction_exists')],(),['answers','content of the data folder','closing block'])
p('C36','Damaged stored data is reported, never a crash or made-up data',
  'Whatever has become of a stored record - gone, empty, cut short, of another kind, too long - or of a configuration cut short, no call crashes or hangs. A call that needs the damaged piece reports an error and has no effect on what is stored; a question about a piece that is gone may be answered with absence, and so may a search by hash for a block whose stored bytes no longer have that hash. Nothing is ever answered with a block, transaction or balance that is not what the stored bytes say (bytes after a complete record may be ignored). Every call that does not need the piece works as before, and so does everything once the piece is put back.',
  ['fault_sequences','inputs'],'every record of every store of a tree removed, emptied, cut to every length, given every first byte and lengthened, every configuration cut to every length, each followed by every question and operation',
  'Tests only read what was written whole.',
  [BT,CH,BL,TX,'src/summary_db.rs'],[('decoders of records',CH+': find_*, get_transaction; '+BT+': get_amount, add_amount, ...'),('reading the configuration',CH+': new')],(),['returned errors','answers','state after the record is put back'])
p('C37','Nothing accumulates: no lost handles, no left-over files',
  'Dropping a tree and every chain handle taken from it releases its folder: no file of it stays open and it can be opened again at once. While a tree is open, the files it holds open depend only on which chains have been asked for, not on how many operations, refused or failed ones, flushes or ends of epochs came before. After an operation that succeeded, and once failed ones have been repeated with success, the folder holds the same files as that of a tree which only opened the same chains: no temporary or replaced copies stay behind (numbered files the storage library keeps for itself aside).',
  ['histories','fault_sequences'],'all histories of library operations up to a length, carried out twice over with refused ones between, the end of an epoch after each operation and under single and lasting failures of every file call, every set of handles that outlives the tree',
  'Tests run once, in a folder that is thrown away, and never look at what stays open.',
  [BT,CH,'src/tools.rs'],[('replacing the databases of the previous epoch',BT+': rotate_dbs; src/tools.rs: replace_dir'),('chains kept for later',BT+': get_derivative_chain'),('temporary configuration',CH+': dump_config')],(),['open files of the process','entries of the folder'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')

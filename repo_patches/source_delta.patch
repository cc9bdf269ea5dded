From 2312b9b20fbafd9759e49409ce80ca3ae14bd78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 01/31] fix: report impossible ledger operations as errors
 instead of crashing

---
 src/blockchaintree.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 7d578d8..b5e16fd 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -29,6 +29,14 @@ pub struct BlockChainTree {
     root_folder: String,
 }
 
+fn ledger_error(
+    kind: BCTreeErrorKind,
+    error: sled::transaction::TransactionError<()>,
+) -> Report<BlockChainTreeError> {
+    Report::new(BlockChainTreeError::BlockChainTree(kind))
+        .attach_printable(format!("ledger transaction failed: {error:?}"))
+}
+
 impl BlockChainTree {
     pub fn new(root_folder: &str) -> Result<Self, Report<BlockChainTreeError>> {
         let root = Path::new(root_folder);
@@ -69,7 +77,7 @@ impl BlockChainTree {
                         Ok(())
                     },
                 )
-                .unwrap();
+                .map_err(|e| ledger_error(BCTreeErrorKind::Init, e))?;
         }
         Ok(Self {
             main_chain,
@@ -116,14 +124,16 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| ledger_error(BCTreeErrorKind::AddFunds, e))?;
 
         Ok(())
     }
@@ -142,7 +152,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| ledger_error(BCTreeErrorKind::AddFunds, e))?;
 
         Ok(())
     }
@@ -169,7 +179,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| ledger_error(BCTreeErrorKind::DecreaseFunds, e))?;
 
         Ok(())
     }
@@ -212,7 +222,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -224,7 +236,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| ledger_error(BCTreeErrorKind::DecreaseFunds, e))?;
 
         Ok(())
     }
@@ -237,14 +249,16 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| ledger_error(BCTreeErrorKind::AddFunds, e))?;
 
         Ok(())
     }
@@ -266,7 +280,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| ledger_error(BCTreeErrorKind::DecreaseFunds, e))?;
 
         Ok(())
     }
@@ -306,7 +320,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -318,7 +334,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| ledger_error(BCTreeErrorKind::DecreaseFunds, e))?;
 
         Ok(())
     }
-- 
2.43.0


From 334f5a4e96baf988fbdaefc68ddb0e29d2661082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 02/31] fix: a gas transfer to oneself must not create gas

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index b5e16fd..bb2624c 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -304,6 +304,9 @@ impl BlockChainTree {
         to: &[u8],
         amount: U256,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        if from == to {
+            return Ok(());
+        }
         self.gas_db
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
-- 
2.43.0


From 6233ebe27d11f7fd43610bac2ba4ee3d056ac5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 03/31] fix: reopening a tree must not credit the root account
 again

---
 src/blockchaintree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index bb2624c..1451850 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -70,6 +70,10 @@ impl BlockChainTree {
             summary_db
                 .transaction(
                     |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
+                        // already seeded by an earlier run
+                        if db.get(&(ROOT_PUBLIC_ADDRESS) as &[u8])?.is_some() {
+                            return Ok(());
+                        }
                         let mut buf: Vec<u8> =
                             Vec::with_capacity(tools::u256_size(&COINS_PER_CYCLE));
                         tools::dump_u256(&COINS_PER_CYCLE, &mut buf).unwrap();
@@ -78,6 +82,10 @@ impl BlockChainTree {
                     },
                 )
                 .map_err(|e| ledger_error(BCTreeErrorKind::Init, e))?;
+            summary_db
+                .flush()
+                .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
+                .attach_printable("failed to flush summary db")?;
         }
         Ok(Self {
             main_chain,
-- 
2.43.0


From ce781a83a04d51a57df00a8f27f28bbcea398cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 04/31] fix: submit a transaction only if signed, new and fully
 applicable, one at a time

---
 src/blockchaintree.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 1451850..ffddc1f 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -27,6 +27,7 @@ pub struct BlockChainTree {
     gas_db: Db,
     old_gas_db: Db,
     root_folder: String,
+    submission: parking_lot::Mutex<()>,
 }
 
 fn ledger_error(
@@ -95,6 +96,7 @@ impl BlockChainTree {
             gas_db,
             old_gas_db,
             root_folder: root_folder.into(),
+            submission: parking_lot::Mutex::new(()),
         })
     }
 
@@ -512,6 +514,20 @@ impl BlockChainTree {
         &self,
         transaction: &dyn Transactionable,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        // admission checks and their effects must not interleave with another submission
+        let _submission = self.submission.lock();
+        if !transaction.verify().unwrap_or(false) {
+            return Err(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))
+            .attach_printable("the signature of the transaction is invalid");
+        }
+        if self.main_chain.transaction_exists(&transaction.hash())? {
+            return Err(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))
+            .attach_printable("the transaction is already recorded");
+        }
         let sender_gas_amount = self.get_gas(transaction.get_sender())?;
         let sender_amount = self.get_amount(transaction.get_sender())?;
         let amount_of_bytes = transaction.get_dump_size();
@@ -524,18 +540,34 @@ impl BlockChainTree {
         }
         let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
         let fee = tools::recalculate_fee(&last_block.get_info().difficulty);
-        if sender_amount < fee + transaction.get_amount().unwrap_or(U256::zero()) {
+        let coins_required = fee
+            .checked_add(transaction.get_amount().unwrap_or(U256::zero()))
+            .ok_or(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))?;
+        if sender_amount < coins_required {
             return Err(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::NewTransaction,
             ))
             .attach_printable("not enough coins to pay the fee");
         }
-        self.main_chain.add_transaction(transaction)?;
+        let (sender, receiver) = (transaction.get_sender(), transaction.get_receiver());
         if let Some(amount) = transaction.get_amount() {
             // TODO: make into sled transaction
-            self.send_amount(transaction.get_sender(), transaction.get_receiver(), amount)?;
+            self.send_amount(sender, receiver, amount)?;
             //self.sub_amount(transaction.get_sender(), fee)?;
-            self.sub_gas(transaction.get_sender(), gas_required)?;
+            if let Err(error) = self.sub_gas(sender, gas_required) {
+                self.send_amount(receiver, sender, amount)?;
+                return Err(error);
+            }
+        }
+        if let Err(error) = self.main_chain.add_transaction(transaction) {
+            // not recorded: take the effects back
+            if let Some(amount) = transaction.get_amount() {
+                self.add_gas(sender, gas_required)?;
+                self.send_amount(receiver, sender, amount)?;
+            }
+            return Err(error);
         }
         Ok(())
     }
-- 
2.43.0


From 03bb09afd329795e016e2cbf7f900264a245016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 05/31] fix: validate a block's proof of work against its
 parent, as emission does

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 2fba3f2..74958c8 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -317,7 +317,7 @@ impl Block for DerivativeBlock {
         }
 
         if !check_pow(
-            &self.get_merkle_root(),
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -412,7 +412,7 @@ impl Block for TransactionBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -548,7 +548,7 @@ impl Block for SummarizeBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
-- 
2.43.0


From 8c0d3bfa4abeedda811022b93ff4b62665fb80fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 06/31] fix: retarget without crash, wrap or jump in every
 difficulty state

---
 src/tools.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 773e679..4ea87cd 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -217,24 +217,24 @@ pub fn check_pow(
 }
 
 pub fn recalculate_difficulty(prev_timestamp: u64, timestamp: u64, prev_difficulty: &mut Hash) {
-    let mut non_zero_index: usize = 0;
+    let mut non_zero_index: usize = prev_difficulty.len() - 1;
     for (index, val) in prev_difficulty.iter().enumerate() {
         if !0.eq(val) {
             non_zero_index = index;
             break;
         };
     }
-    match (timestamp - prev_timestamp).cmp(&TIME_PER_BLOCK) {
+    match timestamp.saturating_sub(prev_timestamp).cmp(&TIME_PER_BLOCK) {
         Ordering::Less => {
             let val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
             *val >>= 1;
         }
         Ordering::Greater => {
             let mut val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
-            if non_zero_index == 0 && *val == 0x7f {
+            if non_zero_index == 0 && *val >= 0x40 {
                 return;
             }
-            if *val == 0xFF {
+            if *val >= 0x80 {
                 val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index - 1) };
             }
             *val <<= 1;
-- 
2.43.0


From 5ac324682dc13af0341482f31555475df5e402d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 07/31] fix: announced size of an encoded zero

---
 src/tools.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 4ea87cd..392dcb1 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -80,9 +80,6 @@ pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
 
 pub fn u256_size(number: &U256) -> usize {
     let bits_size: usize = number.bits();
-    if bits_size == 0 {
-        return 2;
-    }
     let mut amount_byte_size: usize = bits_size / 8;
     if number.bits() % 8 != 0 {
         amount_byte_size += 1;
-- 
2.43.0


From 2cbc25ec2523e6ba78800a56675f072bba07df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 08/31] fix: decoders must reject truncated input instead of
 crashing

---
 src/block.rs | 11 +++++++++--
 src/tools.rs |  8 ++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 74958c8..8a2f72b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -85,10 +85,10 @@ impl BasicInfo {
     pub fn parse(data: &[u8]) -> Result<BasicInfo, BlockError> {
         let mut index: usize = 0;
 
-        if data.len() <= 105 {
+        if data.len() <= 137 {
             return Err(
                 Report::new(BlockError::BasicInfo(BasicInfoErrorKind::Parse))
-                    .attach_printable("data <= 105"),
+                    .attach_printable("data <= 137"),
             );
         }
 
@@ -191,6 +191,13 @@ impl TransactionBlock {
     pub fn parse(data: &[u8]) -> Result<Self, BlockError> {
         let mut index: usize = 0;
 
+        if data.len() <= 32 {
+            return Err(
+                Report::new(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
+                    .attach_printable("data length <= 32"),
+            );
+        }
+
         let merkle_tree_root: Hash = unsafe { data[0..32].try_into().unwrap_unchecked() };
         index += 32;
 
diff --git a/src/tools.rs b/src/tools.rs
index 392dcb1..c63b937 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -56,13 +56,13 @@ pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError>
 }
 
 pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
-    let amount_of_bytes: usize = data[0] as usize;
+    let amount_of_bytes: usize = data.first().map_or(0, |len| *len as usize);
 
     if amount_of_bytes > 32 {
         return Err(Report::new(ToolsError::Biguint(BiguintErrorKind::Dump)));
     }
 
-    if data.len() < amount_of_bytes {
+    if data.len() < amount_of_bytes + 1 {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
@@ -106,9 +106,9 @@ pub fn dump_biguint(number: &BigUint, buffer: &mut Vec<u8>) -> Result<(), ToolsE
 }
 
 pub fn load_biguint(data: &[u8]) -> Result<(BigUint, usize), ToolsError> {
-    let amount_of_bunches: u8 = data[0];
+    let amount_of_bunches: u8 = data.first().copied().unwrap_or(0);
     let amount_of_bytes: usize = amount_of_bunches as usize; //*4;
-    if data.len() < amount_of_bytes {
+    if data.len() < amount_of_bytes + 1 {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
-- 
2.43.0


From a7b22453553a36754625fec55f5fbc59ad4702fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 09/31] fix: an empty inclusion proof must not crash
 verification

---
 src/merkletree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/merkletree.rs b/src/merkletree.rs
index 602f650..c687048 100644
--- a/src/merkletree.rs
+++ b/src/merkletree.rs
@@ -115,6 +115,9 @@ impl MerkleTree {
     }
 
     pub fn verify_proof(hash: &[u8; 32], root: &[u8; 32], proof: &[&[u8; 32]]) -> bool {
+        if proof.is_empty() {
+            return false;
+        }
         let mut hasher = Sha256::new();
         let mut calculated_root: [u8; 32] = [0; 32];
 
-- 
2.43.0


From 5587771407b56503e0e2294e75c57eefe90a42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 10/31] fix: equality of pooled transactions must agree with
 their order

---
 src/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction.rs b/src/transaction.rs
index 683410b..15a545d 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -48,7 +48,7 @@ impl PartialOrd for TransactionableItem {
 
 impl PartialEq for TransactionableItem {
     fn eq(&self, other: &Self) -> bool {
-        self.get_timestamp() == other.get_timestamp()
+        self.cmp(other) == Ordering::Equal
     }
 }
 
-- 
2.43.0


From 43065f0fe89b99774c45de7b2855763e1b7ad5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 11/31] fix: a height that is not yet reached must find no
 block

---
 src/chain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 6469012..fde75fc 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -321,7 +321,7 @@ impl MainChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
@@ -619,7 +619,7 @@ impl DerivativeChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
-- 
2.43.0


From 2ee7627fc0b8c13d348753234fad1561baeb2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 12/31] fix: a stale hash reference must not find another block

---
 src/chain.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index fde75fc..cdff2b2 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -359,7 +359,8 @@ impl MainChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // the reference may be a leftover of a block that is no longer there
+        Ok(block.filter(|block| tools::hash(block).eq(hash)))
     }
 
     pub fn find_by_hash(
@@ -657,7 +658,8 @@ impl DerivativeChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // the reference may be a leftover of a block that is no longer there
+        Ok(block.filter(|block| tools::hash(block).eq(hash)))
     }
 
     pub fn find_by_hash(
-- 
2.43.0


From 156c2f23e96d5591a0d2e341c1990ce828fac4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 13/31] fix: record a batch of transactions entirely or not at
 all

---
 src/chain.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index cdff2b2..24201a2 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -204,20 +204,21 @@ impl MainChain {
         &self,
         transactions: &[impl transaction::Transactionable],
     ) -> Result<(), Report<BlockChainTreeError>> {
+        let mut batch = sled::Batch::default();
         for transaction in transactions {
             let dump = transaction
                 .dump()
                 .change_context(BlockChainTreeError::Chain(
                     ChainErrorKind::AddingTransaction,
                 ))?;
-            self.transactions
-                .insert(tools::hash(&dump), dump)
-                .change_context(BlockChainTreeError::Chain(
-                    ChainErrorKind::AddingTransaction,
-                ))
-                .attach_printable("Failed to insert transaction")?;
+            batch.insert(&tools::hash(&dump), dump);
         }
-        Ok(())
+        self.transactions
+            .apply_batch(batch)
+            .change_context(BlockChainTreeError::Chain(
+                ChainErrorKind::AddingTransaction,
+            ))
+            .attach_printable("Failed to insert transactions")
     }
 
     pub fn add_transaction(
-- 
2.43.0


From 1c23e0dd64a64044bb47ebe6be6f77c67b37611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 14/31] fix: an unreadable chain config must not be taken for a
 missing one

---
 src/chain.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 24201a2..14cccfe 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -87,7 +87,14 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open transactions db")?;
 
-        let file = File::open(path_height);
+        let file = match File::open(path_height) {
+            Err(error) if error.kind() != std::io::ErrorKind::NotFound => {
+                return Err(Report::new(error)
+                    .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
+                    .attach_printable("failed to open config"));
+            }
+            file => file,
+        };
 
         let (height, difficulty) = if let Ok(mut file) = file {
             let mut height_bytes: [u8; 32] = [0; 32];
@@ -477,7 +484,14 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open references db")?;
 
-        let file = File::open(path_height);
+        let file = match File::open(path_height) {
+            Err(error) if error.kind() != std::io::ErrorKind::NotFound => {
+                return Err(Report::new(error)
+                    .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
+                    .attach_printable("failed to open config"));
+            }
+            file => file,
+        };
 
         let (height, difficulty, genesis_hash) = if let Ok(mut file) = file {
             let mut height_bytes: [u8; 32] = [0; 32];
-- 
2.43.0


From ac7cd82d3342244b89fdec7189cda1d12a6b0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 15/31] fix: replace the chain config atomically and only after
 the blocks it counts

---
 src/chain.rs | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 14cccfe..e72fafa 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -55,6 +55,7 @@ pub struct MainChain {
     transactions: Db,
     height: Arc<RwLock<U256>>,
     difficulty: Arc<RwLock<[u8; 32]>>,
+    flushing: Arc<tokio::sync::Mutex<()>>,
     root: String,
 }
 
@@ -119,6 +120,7 @@ impl MainChain {
             transactions,
             height: Arc::new(RwLock::new(height)),
             difficulty: Arc::new(RwLock::new(difficulty)),
+            flushing: Arc::new(tokio::sync::Mutex::new(())),
             root: root.to_str().unwrap().to_string(),
         };
         if height.is_zero() {
@@ -152,18 +154,20 @@ impl MainChain {
     /// Dump config
     ///
     /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        // written aside and renamed, so that a crash leaves the old or the new config
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -175,7 +179,14 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
-        Ok(())
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to sync config")?;
+        tokio::fs::rename(path_new_config, path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")
     }
 
     pub fn get_height(&self) -> U256 {
@@ -184,7 +195,9 @@ impl MainChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        let _flushing = self.flushing.lock().await;
+        // the config must never be ahead of the blocks it counts
+        let height = self.get_height();
 
         self.blocks
             .flush_async()
@@ -204,7 +217,7 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush transactions")?;
 
-        Ok(())
+        self.dump_config(height).await
     }
 
     pub fn add_transactions(
@@ -452,6 +465,7 @@ pub struct DerivativeChain {
     height: Arc<RwLock<U256>>,
     pub genesis_hash: Arc<[u8; 32]>,
     difficulty: Arc<RwLock<[u8; 32]>>,
+    flushing: Arc<tokio::sync::Mutex<()>>,
     chain_owner: String,
     root: String,
 }
@@ -525,6 +539,7 @@ impl DerivativeChain {
             height_reference,
             height: Arc::new(RwLock::new(height)),
             difficulty: Arc::new(RwLock::new(difficulty)),
+            flushing: Arc::new(tokio::sync::Mutex::new(())),
             genesis_hash: Arc::new(genesis_hash),
             chain_owner: chain_owner.to_string(),
             root: root.to_str().unwrap().to_string(),
@@ -540,18 +555,20 @@ impl DerivativeChain {
     /// Dump config
     ///
     /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        // written aside and renamed, so that a crash leaves the old or the new config
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -568,12 +585,21 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write genesis hash")?;
 
-        Ok(())
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to sync config")?;
+        tokio::fs::rename(path_new_config, path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")
     }
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        let _flushing = self.flushing.lock().await;
+        // the config must never be ahead of the blocks it counts
+        let height = self.get_height();
 
         self.blocks
             .flush_async()
@@ -587,7 +613,7 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush height references")?;
 
-        Ok(())
+        self.dump_config(height).await
     }
 
     /// Adds new block to the chain db
-- 
2.43.0


From c0013189c05a20e4207cee1eb6ee9b6242dda65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 16/31] fix: flushing the tree must cover its derivative chains

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index ffddc1f..d9f93fc 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -574,6 +574,9 @@ impl BlockChainTree {
 
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
         self.main_chain.flush().await?;
+        for derivative_chain in self.derivative_chains.values() {
+            derivative_chain.flush().await?;
+        }
         self.summary_db
             .flush_async()
             .await
-- 
2.43.0


From dde736e55663f6562773c643150d96b9bf183fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 17/31] fix: the epoch root must commit to accounts that hold
 only gas

---
 src/blockchaintree.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index d9f93fc..e7162dd 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -389,6 +389,26 @@ impl BlockChainTree {
 
             hashes.push(tools::hash(&data_to_hash));
         }
+        // accounts that hold gas but never held coins
+        for res in self.gas_db.iter() {
+            let (address, gas_amount) = res
+                .change_context(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::GetFunds,
+                ))
+                .attach_printable("failed to get funds from gas_db")?;
+            let has_coins = self.summary_db.contains_key(&address).change_context(
+                BlockChainTreeError::BlockChainTree(BCTreeErrorKind::GetFunds),
+            )?;
+            if has_coins {
+                continue;
+            }
+            let mut data_to_hash: Vec<u8> = Vec::with_capacity(address.len() + gas_amount.len() + 2);
+            data_to_hash.extend(address.iter());
+            data_to_hash.extend([b'|', b'|']);
+            data_to_hash.extend(gas_amount.iter());
+
+            hashes.push(tools::hash(&data_to_hash));
+        }
 
         let merkle_tree = merkletree::MerkleTree::build_tree(&hashes);
 
-- 
2.43.0


From 580e5f609140479b572de72c8c2f0c3767bafa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 18/31] fix: replace the previous epoch's snapshot aside, so
 that a failed rollover can be repeated

---
 src/blockchaintree.rs | 29 ++---------------------------
 src/tools.rs          | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index e7162dd..6415c44 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -17,7 +17,6 @@ use crate::{
 use error_stack::{Report, ResultExt};
 use primitive_types::U256;
 use sled::Db;
-use std::fs;
 
 pub struct BlockChainTree {
     main_chain: chain::MainChain,
@@ -634,37 +633,13 @@ impl BlockChainTree {
         let path_gas = root.join(GAS_SUMMARY);
         let path_gas_old = root.join(OLD_GAS_SUMMARY);
 
-        fs::remove_dir_all(&path_summary_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous summary database")?;
-
-        fs::create_dir(&path_summary_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to create previous summary database folder")?;
-
-        fs::remove_dir_all(&path_gas_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous gas database")?;
-
-        fs::create_dir(&path_gas_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous gas database folder")?;
-
-        tools::copy_dir_all(path_summary, &path_summary_old)
+        tools::replace_dir(&path_summary, &path_summary_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
             .attach_printable("failed to copy summary database")?;
 
-        tools::copy_dir_all(path_gas, &path_gas_old)
+        tools::replace_dir(&path_gas, &path_gas_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
diff --git a/src/tools.rs b/src/tools.rs
index c63b937..702cde6 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -29,6 +29,28 @@ pub fn copy_dir_all(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<
     Ok(())
 }
 
+/// Replaces the directory `dst` with a copy of `src`.
+///
+/// The copy is completed aside first, so that an interruption never leaves half
+/// of it, nor half of the previous content, at `dst`.
+pub fn replace_dir(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<()> {
+    let copy = dst.as_ref().with_extension("new");
+    let replaced = dst.as_ref().with_extension("replaced");
+    ignore_missing(fs::remove_dir_all(&copy))?;
+    copy_dir_all(src, &copy)?;
+    ignore_missing(fs::remove_dir_all(&replaced))?;
+    ignore_missing(fs::rename(&dst, &replaced))?;
+    fs::rename(&copy, &dst)?;
+    ignore_missing(fs::remove_dir_all(&replaced))
+}
+
+fn ignore_missing(result: io::Result<()>) -> io::Result<()> {
+    match result {
+        Err(error) if error.kind() != io::ErrorKind::NotFound => Err(error),
+        _ => Ok(()),
+    }
+}
+
 pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError> {
     buffer.push(0);
     let ind = buffer.len() - 1;
-- 
2.43.0


From a5a90417341e7eabb81cf5943be0f1adcbc1d1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 19/31] fix: a failed epoch rollover must not reset the root
 account

---
 src/blockchaintree.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 6415c44..11fb4ff 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -504,9 +504,16 @@ impl BlockChainTree {
                 });
                 self.rotate_dbs().await?;
 
+                let root_amount = self.get_amount(&ROOT_PUBLIC_ADDRESS)?;
                 self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], *COINS_PER_CYCLE)?;
 
-                summarize_block
+                if let Err(error) = self.main_chain.add_block(summarize_block.clone()) {
+                    // the epoch is not closed: the root account keeps its coins
+                    self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], root_amount)?;
+                    return Err(error);
+                }
+
+                return Ok(summarize_block);
             } else {
                 if transactions.is_empty() {
                     return Err(BlockChainTreeError::BlockChainTree(
-- 
2.43.0


From 29cde1d7fa271a4007017043f08837665e19930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 20/31] fix: the funds store must not crash on overflow or on
 addresses that are not UTF-8

---
 src/summary_db.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index 2c3c09e..30a91cb 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -36,7 +36,7 @@ impl SummaryDB {
             ))
             .attach_printable(format!(
                 "failed to get data from summary db at address: {}",
-                std::str::from_utf8(addr).unwrap()
+                hex::encode(addr)
             ))),
         }
     }
@@ -66,7 +66,7 @@ impl SummaryDB {
             ))
             .attach_printable(format!(
                 "address: {} doesn't have any coins",
-                std::str::from_utf8(addr).unwrap()
+                hex::encode(addr)
             ))),
             Ok(Some(prev)) => {
                 let res = tools::load_u256(&prev).change_context(
@@ -111,7 +111,7 @@ impl SummaryDB {
             ))
             .attach_printable(format!(
                 "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
+                hex::encode(addr)
             ))),
         }
     }
@@ -142,7 +142,7 @@ impl SummaryDB {
                     ))
                     .attach_printable(format!(
                         "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        hex::encode(addr)
                     ))?;
 
                 self.db
@@ -153,7 +153,7 @@ impl SummaryDB {
                     ))
                     .attach_printable(format!(
                         "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        hex::encode(addr)
                     ))?;
 
                 Ok(())
@@ -164,7 +164,9 @@ impl SummaryDB {
                 )?;
 
                 let mut previous = res.0;
-                previous += *funds;
+                previous = previous.checked_add(*funds).ok_or(
+                    BlockChainTreeError::BlockChainTree(BCTreeErrorKind::AddFunds),
+                )?;
 
                 let mut dump: Vec<u8> = Vec::with_capacity(tools::u256_size(&previous));
                 tools::dump_u256(&previous, &mut dump).change_context(
@@ -178,7 +180,7 @@ impl SummaryDB {
                     ))
                     .attach_printable(format!(
                         "failed to put funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        hex::encode(addr)
                     ))?;
 
                 self.db
@@ -189,7 +191,7 @@ impl SummaryDB {
                     ))
                     .attach_printable(format!(
                         "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        hex::encode(addr)
                     ))?;
 
                 Ok(())
@@ -199,7 +201,7 @@ impl SummaryDB {
             ))
             .attach_printable(format!(
                 "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
+                hex::encode(addr)
             ))),
         }
     }
-- 
2.43.0


From d674ef812a4021a573aa413350b29a9d62723058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 21/31] fix: a block is added together with its transactions or
 root reset, or not at all

---
 src/blockchaintree.rs | 17 ++++++-----------
 src/chain.rs          | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 11fb4ff..29a6b9d 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -356,9 +356,8 @@ impl BlockChainTree {
         block: BlockArc,
         transactions: &[Transaction],
     ) -> Result<(), Report<BlockChainTreeError>> {
-        self.main_chain.add_block(block)?;
-
-        self.main_chain.add_transactions(transactions)
+        self.main_chain
+            .add_block_with(block, || self.main_chain.add_transactions(transactions))
     }
 
     fn summarize(&self) -> Result<[u8; 32], Report<BlockChainTreeError>> {
@@ -504,14 +503,10 @@ impl BlockChainTree {
                 });
                 self.rotate_dbs().await?;
 
-                let root_amount = self.get_amount(&ROOT_PUBLIC_ADDRESS)?;
-                self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], *COINS_PER_CYCLE)?;
-
-                if let Err(error) = self.main_chain.add_block(summarize_block.clone()) {
-                    // the epoch is not closed: the root account keeps its coins
-                    self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], root_amount)?;
-                    return Err(error);
-                }
+                // the root account gets its coins exactly if the epoch is closed
+                self.main_chain.add_block_with(summarize_block.clone(), || {
+                    self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], *COINS_PER_CYCLE)
+                })?;
 
                 return Ok(summarize_block);
             } else {
diff --git a/src/chain.rs b/src/chain.rs
index e72fafa..f70a897 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -304,6 +304,18 @@ impl MainChain {
     ///
     /// Checks for blocks validity, adds it directly to the end of the chain
     pub fn add_block(&self, block: BlockArc) -> Result<(), Report<BlockChainTreeError>> {
+        self.add_block_with(block, || Ok(()))
+    }
+
+    /// Adds new block to the chain db together with another effect
+    ///
+    /// The block becomes visible only once the effect has succeeded, the effect
+    /// takes place only if the block can be added
+    pub(crate) fn add_block_with(
+        &self,
+        block: BlockArc,
+        effect: impl FnOnce() -> Result<(), Report<BlockChainTreeError>>,
+    ) -> Result<(), Report<BlockChainTreeError>> {
         let dump = block
             .dump()
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock))?;
@@ -331,6 +343,8 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::AddingBlock))
             .attach_printable("Failed to insert height reference for the block")?;
 
+        effect()?;
+
         *height += U256::one();
 
         Ok(())
-- 
2.43.0


From 2b0151b74cba81daae4d3f000ee5bea9436e4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 22/31] fix: validate the first block of a derivative chain as
 it is emitted

---
 src/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 8a2f72b..368dd57 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -4,6 +4,7 @@
 use crate::dump_headers::Headers;
 use crate::errors::*;
 use crate::merkletree;
+use crate::static_values::BEGINNING_DIFFICULTY;
 use crate::tools;
 use crate::tools::check_pow;
 use crate::tools::recalculate_difficulty;
@@ -312,7 +313,14 @@ impl Block for DerivativeBlock {
             return Ok(false);
         }
 
-        let mut prev_difficulty = prev_block.get_info().difficulty;
+        // the first block of a derivative chain starts from the beginning difficulty
+        // whatever the difficulty of the main chain it is anchored to
+        let required_difficulty = match prev_block.get_type() {
+            Headers::DerivativeBlock => prev_block.get_info().difficulty,
+            _ => BEGINNING_DIFFICULTY,
+        };
+
+        let mut prev_difficulty = required_difficulty;
         recalculate_difficulty(
             prev_block.get_info().timestamp,
             self.default_info.timestamp,
@@ -325,7 +333,7 @@ impl Block for DerivativeBlock {
 
         if !check_pow(
             &self.default_info.previous_hash,
-            &prev_block.get_info().difficulty,
+            &required_difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
         ) {
-- 
2.43.0


From c74b9e134d558e2204f564cbad624da8f14d0dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 23/31] fix: opening a database must survive a crash during an
 earlier opening

---
 src/blockchaintree.rs | 12 ++++++------
 src/chain.rs          | 10 +++++-----
 src/tools.rs          | 19 +++++++++++++++++++
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 29a6b9d..9751e83 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -47,21 +47,21 @@ impl BlockChainTree {
         let path_gas_old = root.join(OLD_GAS_SUMMARY);
 
         // open summary DB
-        let summary_db = sled::open(path_summary)
+        let summary_db = tools::open_db(path_summary)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open summary db")?;
 
         // open old summary DB
-        let old_summary_db = sled::open(path_summary_old)
+        let old_summary_db = tools::open_db(path_summary_old)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open old summary db")?;
 
         // open gas DB
-        let gas_db = sled::open(path_gas)
+        let gas_db = tools::open_db(path_gas)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open gas db")?;
 
-        let old_gas_db = sled::open(path_gas_old)
+        let old_gas_db = tools::open_db(path_gas_old)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open old gas db")?;
         let main_chain = chain::MainChain::new(root_folder)?;
@@ -647,11 +647,11 @@ impl BlockChainTree {
             ))
             .attach_printable("failed to copy gas database")?;
 
-        self.old_summary_db = sled::open(path_summary_old)
+        self.old_summary_db = tools::open_db(path_summary_old)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open old summary db")?;
 
-        self.old_gas_db = sled::open(path_gas_old)
+        self.old_gas_db = tools::open_db(path_gas_old)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
             .attach_printable("failed to open old gas db")?;
 
diff --git a/src/chain.rs b/src/chain.rs
index f70a897..d6dd2aa 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -74,17 +74,17 @@ impl MainChain {
         let path_height = Path::new(&path_height_st);
 
         // open blocks DB
-        let blocks = sled::open(path_blocks)
+        let blocks = tools::open_db(path_blocks)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open blocks db")?;
 
         // open height references DB
-        let height_reference = sled::open(path_reference)
+        let height_reference = tools::open_db(path_reference)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open references db")?;
 
         // open transactions DB
-        let transactions = sled::open(path_transactions)
+        let transactions = tools::open_db(path_transactions)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open transactions db")?;
 
@@ -503,12 +503,12 @@ impl DerivativeChain {
         let path_height = Path::new(&path_height_st);
 
         // open blocks DB
-        let blocks = sled::open(path_blocks)
+        let blocks = tools::open_db(path_blocks)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open blocks db")?;
 
         // open height references DB
-        let height_reference = sled::open(path_reference)
+        let height_reference = tools::open_db(path_reference)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open references db")?;
 
diff --git a/src/tools.rs b/src/tools.rs
index 702cde6..4cefb72 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -44,6 +44,25 @@ pub fn replace_dir(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<(
     ignore_missing(fs::remove_dir_all(&replaced))
 }
 
+/// Opens a database, after removing what an interrupted opening left half
+/// written and the storage library would take for its own complete files.
+pub fn open_db(path: impl AsRef<Path>) -> sled::Result<sled::Db> {
+    let path = path.as_ref();
+    // the configuration is written before the data file is created
+    if !path.join("db").exists() {
+        ignore_missing(fs::remove_file(path.join("conf")))?;
+    }
+    if path.exists() {
+        for entry in fs::read_dir(path)? {
+            let snapshot = entry?.path();
+            if snapshot.extension().map_or(false, |ext| ext == "generating") {
+                ignore_missing(fs::remove_file(snapshot))?;
+            }
+        }
+    }
+    sled::open(path)
+}
+
 fn ignore_missing(result: io::Result<()>) -> io::Result<()> {
     match result {
         Err(error) if error.kind() != io::ErrorKind::NotFound => Err(error),
-- 
2.43.0


From 26bd57d210645051798efb7d20afe1f533711b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 24/31] fix: the copies made at an epoch rollover must survive
 a power loss

---
 src/tools.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 4cefb72..354cfe6 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -23,7 +23,10 @@ pub fn copy_dir_all(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<
         if ty.is_dir() {
             copy_dir_all(entry.path(), dst.as_ref().join(entry.file_name()))?;
         } else {
-            fs::copy(entry.path(), dst.as_ref().join(entry.file_name()))?;
+            let copy = dst.as_ref().join(entry.file_name());
+            fs::copy(entry.path(), &copy)?;
+            // the copy must survive a power loss once it is in use
+            File::open(copy)?.sync_all()?;
         }
     }
     Ok(())
-- 
2.43.0


From f037e806556d468283e33dd614dd2ad28edfa47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 25/31] fix: a failed write of a chain's configuration must not
 pass for success

---
 src/chain.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/chain.rs b/src/chain.rs
index d6dd2aa..12696c9 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -179,6 +179,11 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
+        // only a flush reports a failed write
+        file.flush()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to write config")?;
         file.sync_all()
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -599,6 +604,11 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write genesis hash")?;
 
+        // only a flush reports a failed write
+        file.flush()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to write config")?;
         file.sync_all()
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
-- 
2.43.0


From 538d5b831f401f9820fc85e3a5bcf1a364e287fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 26/31] fix: concurrent changes of the stand-alone funds must
 not get lost

---
 src/summary_db.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index 30a91cb..b48cfd5 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -3,6 +3,7 @@ use num_bigint::BigUint;
 use num_traits::Zero;
 use primitive_types::U256;
 use sled::Db;
+use tokio::sync::Mutex;
 
 use crate::{
     errors::{BCTreeErrorKind, BlockChainTreeError, ChainErrorKind},
@@ -11,11 +12,16 @@ use crate::{
 
 pub struct SummaryDB {
     db: Db,
+    // funds are read, changed and written by one caller at a time
+    changes: Mutex<()>,
 }
 
 impl SummaryDB {
     pub fn new(db: Db) -> Self {
-        SummaryDB { db }
+        SummaryDB {
+            db,
+            changes: Mutex::default(),
+        }
     }
     /// Get funds
     ///
@@ -59,6 +65,7 @@ impl SummaryDB {
         addr: &[u8; 33],
         funds: &U256,
     ) -> Result<(), BlockChainTreeError> {
+        let _changes = self.changes.lock().await;
         let result = self.db.get(addr);
         match result {
             Ok(None) => Err(Report::new(BlockChainTreeError::BlockChainTree(
@@ -127,6 +134,7 @@ impl SummaryDB {
         if funds.is_zero() {
             return Ok(());
         }
+        let _changes = self.changes.lock().await;
         let result = self.db.get(addr);
         match result {
             Ok(None) => {
-- 
2.43.0


From c7865d03abb3e9ddb428a6426f11cbdd38eac174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 27/31] fix: a cancelled flush left a config write running that
 disturbed the next flush

---
 src/chain.rs | 43 ++++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 12696c9..b19e1b1 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -1,11 +1,15 @@
-use std::{fs::File, io::Read, path::Path, sync::Arc};
+use std::{
+    fs::{File, OpenOptions},
+    io::{Read, Write},
+    path::Path,
+    sync::Arc,
+};
 
 use async_trait::async_trait;
 use error_stack::{Report, ResultExt};
 use parking_lot::RwLock;
 use primitive_types::U256;
 use sled::Db;
-use tokio::{fs::OpenOptions, io::AsyncWriteExt};
 
 use crate::block::{BlockArc, DerivativeBlock};
 use crate::dump_headers::Headers;
@@ -154,7 +158,8 @@ impl MainChain {
     /// Dump config
     ///
     /// Dumps chain's config
-    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
+    // without a point to be cancelled at: a write left running would disturb the next dump
+    fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
         // written aside and renamed, so that a crash leaves the old or the new config
         let path_new_config = path_config.with_extension("new");
@@ -164,32 +169,22 @@ impl MainChain {
             .create(true)
             .truncate(true)
             .open(&path_new_config)
-            .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
         height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
-            .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write height")?;
 
         let difficulty = *self.difficulty.read();
         file.write_all(&difficulty)
-            .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
-        // only a flush reports a failed write
-        file.flush()
-            .await
-            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
-            .attach_printable("failed to write config")?;
         file.sync_all()
-            .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to sync config")?;
-        tokio::fs::rename(path_new_config, path_config)
-            .await
+        std::fs::rename(path_new_config, path_config)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to replace config")
     }
@@ -222,7 +217,7 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush transactions")?;
 
-        self.dump_config(height).await
+        self.dump_config(height)
     }
 
     pub fn add_transactions(
@@ -574,7 +569,8 @@ impl DerivativeChain {
     /// Dump config
     ///
     /// Dumps chain's config
-    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
+    // without a point to be cancelled at: a write left running would disturb the next dump
+    fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
         // written aside and renamed, so that a crash leaves the old or the new config
         let path_new_config = path_config.with_extension("new");
@@ -584,37 +580,26 @@ impl DerivativeChain {
             .create(true)
             .truncate(true)
             .open(&path_new_config)
-            .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
         height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
-            .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write height")?;
 
         let difficulty = *self.difficulty.read();
         file.write_all(&difficulty)
-            .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
         file.write_all(self.genesis_hash.as_ref())
-            .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write genesis hash")?;
 
-        // only a flush reports a failed write
-        file.flush()
-            .await
-            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
-            .attach_printable("failed to write config")?;
         file.sync_all()
-            .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to sync config")?;
-        tokio::fs::rename(path_new_config, path_config)
-            .await
+        std::fs::rename(path_new_config, path_config)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to replace config")
     }
@@ -637,7 +622,7 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush height references")?;
 
-        self.dump_config(height).await
+        self.dump_config(height)
     }
 
     /// Adds new block to the chain db
-- 
2.43.0


From ef5954e415b8b0ebeb26cc8179b70b0e03924f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 28/31] fix: a balance record that cannot be read crashed the
 process

---
 src/blockchaintree.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 9751e83..c64439c 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -37,6 +37,14 @@ fn ledger_error(
         .attach_printable(format!("ledger transaction failed: {error:?}"))
 }
 
+fn stored_amount(
+    data: &[u8],
+) -> Result<U256, sled::transaction::ConflictableTransactionError<()>> {
+    tools::load_u256(data)
+        .map(|(amount, _)| amount)
+        .map_err(|_| sled::transaction::ConflictableTransactionError::Abort(()))
+}
+
 impl BlockChainTree {
     pub fn new(root_folder: &str) -> Result<Self, Report<BlockChainTreeError>> {
         let root = Path::new(root_folder);
@@ -130,7 +138,7 @@ impl BlockChainTree {
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                     let prev_amount = match db.get(owner)? {
-                        Some(v) => tools::load_u256(&v).unwrap().0,
+                        Some(v) => stored_amount(&v)?,
                         None => U256::zero(),
                     };
                     let new_amount = prev_amount
@@ -175,7 +183,7 @@ impl BlockChainTree {
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                     let prev_amount = match db.get(owner)? {
-                        Some(v) => tools::load_u256(&v).unwrap().0,
+                        Some(v) => stored_amount(&v)?,
                         None => U256::zero(),
                     };
                     if prev_amount < amount {
@@ -201,7 +209,11 @@ impl BlockChainTree {
             ))
             .attach_printable("failed to get funds")?
         {
-            Some(v) => Ok(tools::load_u256(&v).unwrap().0),
+            Some(v) => Ok(tools::load_u256(&v)
+                .change_context(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::GetFunds,
+                ))?
+                .0),
             None => Ok(U256::zero()),
         }
     }
@@ -219,11 +231,11 @@ impl BlockChainTree {
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                     let mut from_amount = match db.get(from)? {
-                        Some(v) => tools::load_u256(&v).unwrap().0,
+                        Some(v) => stored_amount(&v)?,
                         None => U256::zero(),
                     };
                     let mut to_amount = match db.get(to)? {
-                        Some(v) => tools::load_u256(&v).unwrap().0,
+                        Some(v) => stored_amount(&v)?,
                         None => U256::zero(),
                     };
                     if from_amount < amount {
@@ -255,7 +267,7 @@ impl BlockChainTree {
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                     let prev_amount = match db.get(owner)? {
-                        Some(v) => tools::load_u256(&v).unwrap().0,
+                        Some(v) => stored_amount(&v)?,
                         None => U256::zero(),
                     };
                     let new_amount = prev_amount
@@ -276,7 +288,7 @@ impl BlockChainTree {
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                     let prev_amount = match db.get(owner)? {
-                        Some(v) => tools::load_u256(&v).unwrap().0,
+                        Some(v) => stored_amount(&v)?,
                         None => U256::zero(),
                     };
                     if prev_amount < amount {
@@ -302,7 +314,11 @@ impl BlockChainTree {
             ))
             .attach_printable("failed to get gas amount")?
         {
-            Some(v) => Ok(tools::load_u256(&v).unwrap().0),
+            Some(v) => Ok(tools::load_u256(&v)
+                .change_context(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::GetFunds,
+                ))?
+                .0),
             None => Ok(U256::zero()),
         }
     }
@@ -320,11 +336,11 @@ impl BlockChainTree {
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
                     let mut from_amount = match db.get(from)? {
-                        Some(v) => tools::load_u256(&v).unwrap().0,
+                        Some(v) => stored_amount(&v)?,
                         None => U256::zero(),
                     };
                     let mut to_amount = match db.get(to)? {
-                        Some(v) => tools::load_u256(&v).unwrap().0,
+                        Some(v) => stored_amount(&v)?,
                         None => U256::zero(),
                     };
                     if from_amount < amount {
-- 
2.43.0


From c6acf28eec705d60e112144d852a73a80919cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 29/31] fix: a missing last block crashed the process

---
 src/blockchaintree.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index c64439c..404b2f0 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -114,7 +114,10 @@ impl BlockChainTree {
         if let Some(chain) = self.derivative_chains.get(owner) {
             return Ok(chain.clone());
         }
-        let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
+        let last_block = self
+            .main_chain
+            .get_last_block()?
+            .ok_or(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))?;
         let derivative_chain = chain::DerivativeChain::new(
             &self.root_folder,
             &hex::encode(owner),
@@ -482,7 +485,10 @@ impl BlockChainTree {
         transactions: &[Hash],
         timestamp: u64,
     ) -> Result<block::BlockArc, Report<BlockChainTreeError>> {
-        let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
+        let last_block = self
+            .main_chain
+            .get_last_block()?
+            .ok_or(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))?;
         let prev_hash = last_block
             .hash()
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DumpDb))
@@ -575,7 +581,10 @@ impl BlockChainTree {
             ))
             .attach_printable("not enough gas for the transaction");
         }
-        let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
+        let last_block = self
+            .main_chain
+            .get_last_block()?
+            .ok_or(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))?;
         let fee = tools::recalculate_fee(&last_block.get_info().difficulty);
         let coins_required = fee
             .checked_add(transaction.get_amount().unwrap_or(U256::zero()))
-- 
2.43.0


From 24c763b5d4a3e566592f04d92803861120f759f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 30/31] fix: a reference record that cannot be read crashed the
 process

---
 src/chain.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index b19e1b1..e2c1b3e 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -387,7 +387,10 @@ impl MainChain {
             None => {
                 return Ok(None);
             }
-            Some(h) => U256::from_big_endian(&h.iter().copied().collect::<Vec<u8>>()),
+            Some(h) if h.len() == 32 => U256::from_big_endian(&h),
+            Some(_) => {
+                return Err(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE).into());
+            }
         };
 
         let block = self
@@ -701,7 +704,10 @@ impl DerivativeChain {
             None => {
                 return Ok(None);
             }
-            Some(h) => U256::from_big_endian(&h.iter().copied().collect::<Vec<u8>>()),
+            Some(h) if h.len() == 32 => U256::from_big_endian(&h),
+            Some(_) => {
+                return Err(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE).into());
+            }
         };
 
         let block = self
-- 
2.43.0


From a6ca3d40b09458084939e13a0c6976e9f2c435ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 31/31] fix: a derivative block record was read without looking
 at its kind

---
 src/block.rs | 13 +++++++++++++
 src/chain.rs |  6 +++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 368dd57..96a00ff 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -605,6 +605,19 @@ pub fn deserialize_main_chain_block(dump: &[u8]) -> Result<BlockArc, BlockError>
     Ok(block)
 }
 
+/// Deserializes dump of a derivative block
+pub fn deserialize_derivative_block(dump: &[u8]) -> Result<DerivativeBlock, BlockError> {
+    match dump.split_first() {
+        Some((header, data)) if *header == Headers::DerivativeBlock as u8 => {
+            DerivativeBlock::parse(data)
+        }
+        _ => Err(
+            Report::new(BlockError::HeaderError(DumpHeadersErrorKind::WrongHeader))
+                .attach_printable("Not derivative block header"),
+        ),
+    }
+}
+
 pub type BlockArc = Arc<dyn Block + Send + Sync>;
 
 impl Eq for dyn Block + Send + Sync {}
diff --git a/src/chain.rs b/src/chain.rs
index e2c1b3e..0b54f54 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -726,7 +726,7 @@ impl DerivativeChain {
 
         let deserialized = if let Some(data) = dump {
             Some(Arc::new(
-                block::DerivativeBlock::parse(&data[1..])
+                block::deserialize_derivative_block(&data)
                     .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))
                     .attach_printable(format!(
                         "Failed to deserialize latest main chain block with hash {:?}",
@@ -758,7 +758,7 @@ impl DerivativeChain {
 
         let deserialized = if let Some(data) = dump {
             Some(
-                block::DerivativeBlock::parse(&data[1..])
+                block::deserialize_derivative_block(&data)
                     .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))
                     .attach_printable(
                         "Failed to deserialize latest main chain block".to_string(),
@@ -780,7 +780,7 @@ impl DerivativeChain {
 
         let deserialized = if let Some(data) = dump {
             Some(Arc::new(
-                block::DerivativeBlock::parse(&data[1..])
+                block::deserialize_derivative_block(&data)
                     .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))
                     .attach_printable(format!(
                         "Failed to deserialize deriv chain block with height {}",
-- 
2.43.0


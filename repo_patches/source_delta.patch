From 374d714c8b8575eee33de41772f18b3399264785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 01/47] fix: core::getBlockTimestamp reads past the chain for a
 height equal to its size

---
 src/CryptoNoteCore/Core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 99c3eb6..98de385 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -947,7 +947,7 @@ bool core::getBlockDifficulty(uint32_t height, difficulty_type& difficulty) {
 
 bool core::getBlockTimestamp(uint32_t height, uint64_t &timestamp)
 {
-  if (height > get_current_blockchain_height())
+  if (height >= get_current_blockchain_height())
   {
     return false;
   }
-- 
2.43.0


From 60c71fea77e419d8b00b44bd2ec0a9b539a80071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 02/47] fix: a payment id used only on chain or only in the
 pool was reported as unknown

---
 src/CryptoNoteCore/Core.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 98de385..45f0bf9 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -1019,12 +1019,14 @@ bool core::getPoolTransactionsByTimestamp(uint64_t timestampBegin, uint64_t time
 
 bool core::getTransactionsByPaymentId(const crypto::Hash& paymentId, std::vector<Transaction>& transactions) {
   std::vector<crypto::Hash> blockchainTransactionHashes;
-  if (!m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes)) {
-    return false;
-  }
+  bool found = m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes);
 
   std::vector<crypto::Hash> poolTransactionHashes;
-  if (!m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes)) {
+  if (m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes)) {
+    found = true;
+  }
+
+  if (!found) {
     return false;
   }
 
-- 
2.43.0


From a9e9e87c0d7681b49f1e4842d9cb5c7b1a0e9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 03/47] fix: null dereference for a version 1 coinbase with a
 multisignature output

---
 src/CryptoNoteCore/CryptoNoteFormatUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
index 4bcf6ea..bdf678b 100644
--- a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
+++ b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
@@ -317,7 +317,9 @@ bool check_outs_valid(const TransactionPrefix& tx, std::string* error) {
       }
     } else if (out.target.type() == typeid(MultisignatureOutput)) {
       if (tx.version < TRANSACTION_VERSION_2) {
-        *error = "Transaction contains multisignature output but its version is less than 2";
+        if (error) {
+          *error = "Transaction contains multisignature output but its version is less than 2";
+        }
         return false;
       }
 
-- 
2.43.0


From 944bd6dc7fe6c2f9c8e0bcc0043f4b15584726fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 04/47] fix: an oversized block left its transactions applied
 after it was refused

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4d88c20..4694a10 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2764,6 +2764,7 @@ namespace cn
     if (!checkCumulativeBlockSize(blockHash, cumulative_block_size, block.height))
     {
       bvc.m_verification_failed = true;
+      popTransactions(block, minerTransactionHash);
       return false;
     }
 
-- 
2.43.0


From 4cf0a43acd02550342d8e5486e6e00d90e2bcb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 05/47] fix: interest of a block whose deposits and withdrawals
 cancel out was forgotten

---
 src/CryptoNoteCore/DepositIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/DepositIndex.cpp b/src/CryptoNoteCore/DepositIndex.cpp
index 29979c0..923e439 100644
--- a/src/CryptoNoteCore/DepositIndex.cpp
+++ b/src/CryptoNoteCore/DepositIndex.cpp
@@ -71,7 +71,7 @@ void DepositIndex::pushBlock(DepositAmount amount, DepositInterest interest) {
   assert(!sumWillOverflow(amount, lastAmount));
   assert(!sumWillOverflow(interest, lastInterest));
   assert(amount + lastAmount >= 0);
-  if (amount != 0) {
+  if (amount != 0 || interest != 0) {
     index.push_back({blockCount, amount + lastAmount, interest + lastInterest});
   }
 
-- 
2.43.0


From ba9a4a21e67218a4161a7e5f84df1c8693ca9961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 06/47] fix: rolling the chain back left the deposit index and
 the size limit of the removed blocks

---
 src/CryptoNoteCore/Blockchain.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4694a10..3c4af96 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3259,6 +3259,8 @@ namespace cn
           return false;
         }
       }
+
+      update_next_comulative_size_limit();
       
       logger(INFO, BRIGHT_GREEN) << "Blockchain successfully rolled back to height: " << height << "Synchronization will resume";
       return true;
@@ -3285,10 +3287,17 @@ namespace cn
     m_timestampIndex.remove(m_blocks.back().bl.timestamp, blockHash);
     m_generatedTransactionsIndex.remove(m_blocks.back().bl);
 
+    m_depositIndex.popBlock();
     m_blocks.pop_back();
     m_blockIndex.pop();
 
     assert(m_blockIndex.size() == m_blocks.size());
+
+    m_upgradeDetectorV2.blockPopped();
+    m_upgradeDetectorV3.blockPopped();
+    m_upgradeDetectorV4.blockPopped();
+    m_upgradeDetectorV7.blockPopped();
+    m_upgradeDetectorV8.blockPopped();
     return true;
   }
 
-- 
2.43.0


From 3d02852ba3be7ef0f6a5f727e8a318622ca7a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:08 +0000
Subject: [PATCH 07/47] fix: a block spending its own outputs left the chain
 state half applied

---
 src/CryptoNoteCore/Blockchain.cpp | 7 +++++++
 src/CryptoNoteCore/Blockchain.h   | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 3c4af96..a569094 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3176,6 +3176,13 @@ namespace cn
       return false;
     }
 
+    if (outputIndex.transactionIndex.block >= m_blocks.size())
+    {
+      logger(DEBUGGING) << "Transaction << " << transactionHash << " contains multisignature input which points to an output of the block that is being added.";
+
+      return false;
+    }
+
     const Transaction &outputTransaction = m_blocks[outputIndex.transactionIndex.block].transactions[outputIndex.transactionIndex.transaction].tx;
     if (!is_tx_spendtime_unlocked(outputTransaction.unlockTime))
     {
diff --git a/src/CryptoNoteCore/Blockchain.h b/src/CryptoNoteCore/Blockchain.h
index 79506dc..d07830a 100644
--- a/src/CryptoNoteCore/Blockchain.h
+++ b/src/CryptoNoteCore/Blockchain.h
@@ -399,6 +399,12 @@ namespace cn
         return false;
       }
 
+      if (amount_outs_vec[i].first.block >= m_blocks.size())
+      {
+        logger(logging::INFO) << "Transaction input refers to an output of the block that is being added: " << i;
+        return false;
+      }
+
       const TransactionEntry &tx = transactionByIndex(amount_outs_vec[i].first);
 
       if (!(amount_outs_vec[i].second < tx.tx.outputs.size()))
-- 
2.43.0


From 83157a8f8a7ae72c0a42320726ba6d0980a9a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:08 +0000
Subject: [PATCH 08/47] fix: a difficulty of zero stopped the chain for good

---
 src/CryptoNoteCore/Currency.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteCore/Currency.cpp b/src/CryptoNoteCore/Currency.cpp
index 3a0188d..a1b696e 100644
--- a/src/CryptoNoteCore/Currency.cpp
+++ b/src/CryptoNoteCore/Currency.cpp
@@ -1009,7 +1009,7 @@ namespace cn
       }
       uint64_t nextDiffZ = low / timeSpan;
 
-      return nextDiffZ;
+      return std::max<uint64_t>(nextDiffZ, 1);
     }
 
     if (m_zawyDifficultyBlockIndex && m_zawyDifficultyBlockIndex <= blockIndex)
@@ -1180,7 +1180,7 @@ namespace cn
       next_D = std::max(next_D, (prev_D * 108) / 100);
     }
 
-    return next_D;
+    return std::max<uint64_t>(next_D, 1);
 
     // next_Target = sumTargets*L*2/0.998/T/(N+1)/N/N; // To show the difference.
   }
@@ -1277,7 +1277,7 @@ namespace cn
         i /= 10;
       }
     }
-    return next_D;
+    return std::max<uint64_t>(next_D, 1);
   }
 
   /* ---------------------------------------------------------------------------------------------------- */
-- 
2.43.0


From c85fa4d80c1066e3b6e72cac58d453cd3da0502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:08 +0000
Subject: [PATCH 09/47] fix: difficulty retargeting overflowed for large
 difficulties

---
 src/CryptoNoteCore/Currency.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Currency.cpp b/src/CryptoNoteCore/Currency.cpp
index a1b696e..8be78b6 100644
--- a/src/CryptoNoteCore/Currency.cpp
+++ b/src/CryptoNoteCore/Currency.cpp
@@ -1167,7 +1167,15 @@ namespace cn
     }
     // Calculate next_D = avgD * T / LWMA(STs) using integer math
 
-    next_D = ((cumulative_difficulties[N] - cumulative_difficulties[0]) * T * (N + 1) * 99) / (100 * 2 * L);
+    uint64_t work = cumulative_difficulties[N] - cumulative_difficulties[0];
+    if (work > std::numeric_limits<uint64_t>::max() / (T * (N + 1) * 99))
+    {
+      next_D = (work / (100 * 2 * L)) * (T * (N + 1) * 99);
+    }
+    else
+    {
+      next_D = (work * T * (N + 1) * 99) / (100 * 2 * L);
+    }
 
     prev_D = cumulative_difficulties[N] - cumulative_difficulties[N - 1];
     // The following is only for safety to limit unexpected extreme events.
@@ -1254,7 +1262,7 @@ namespace cn
     avg_D = (cumulative_difficulties[N] - cumulative_difficulties[0]) / N;
 
     // Prevent round off error for small D and overflow for large D.
-    if (avg_D > 2000000 * N * N * T)
+    if (avg_D > std::numeric_limits<uint64_t>::max() / (N * (N + 1) * T * 99))
     {
       next_D = (avg_D / (200 * L)) * (N * (N + 1) * T * 99);
     }
-- 
2.43.0


From bcadb51ecba64f9eed5c1102c7915db769c1f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:08 +0000
Subject: [PATCH 10/47] fix: the difficulty of an alternative block followed
 the main chain's height, not its own

---
 src/CryptoNoteCore/Blockchain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index a569094..497455c 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1323,7 +1323,7 @@ namespace cn
   {
     std::vector<uint64_t> timestamps;
     std::vector<difficulty_type> commulative_difficulties;
-    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(static_cast<uint32_t>(m_blocks.size()));
+    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(bei.height);
 
     if (alt_chain.size() < m_currency.difficultyBlocksCountByBlockVersion(BlockMajorVersion))
     {
@@ -1377,7 +1377,7 @@ namespace cn
       }
     }
 
-    uint64_t block_index = m_blocks.size();
+    uint64_t block_index = bei.height;
     uint8_t block_major_version = get_block_major_version_for_height(block_index + 1);
 
     if (block_major_version >= 8)
-- 
2.43.0


From 9bea71fc24fabbf577dbd13e07092a60f51611c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 11/47] fix: the timestamp check of a long alternative chain
 went beyond its window

---
 src/CryptoNoteCore/Blockchain.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 497455c..b5a8976 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1625,7 +1625,10 @@ namespace cn
         while (alt_it != m_alternative_chains.end())
         {
           alt_chain.push_front(alt_it->first);
-          timestamps.push_back(alt_it->second.bl.timestamp);
+          if (timestamps.size() < m_currency.timestampCheckWindow())
+          {
+            timestamps.push_back(alt_it->second.bl.timestamp);
+          }
           alt_it = m_alternative_chains.find(alt_it->second.bl.previousBlockHash);
         }
 
-- 
2.43.0


From 25ded8be62420c6986eed4130d29211752ab7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 12/47] fix: a valid chain switch was undone when the old
 blocks could not be kept as alternatives

---
 src/CryptoNoteCore/Blockchain.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index b5a8976..8ff9844 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1258,9 +1258,8 @@ namespace cn
           bool r = handle_alternative_block(old_ch_ent, get_block_hash(old_ch_ent), bvc, false);
           if (!r)
           {
-            logger(ERROR, BRIGHT_RED) << "Failed to push ex-main chain blocks to alternative chain ";
-            rollback_blockchain_switching(disconnected_chain, split_height);
-            return false;
+            logger(WARNING, BRIGHT_YELLOW) << "Failed to push ex-main chain blocks to alternative chain ";
+            break;
           }
         }
       }
-- 
2.43.0


From a7221e17c575ff3709982374b7afc36fee1d2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 13/47] fix: pool transactions whose inputs were spent or
 locked again still went into block templates

---
 src/CryptoNoteCore/Blockchain.cpp | 41 +++++++++++++++++++++++++++++++
 src/CryptoNoteCore/Blockchain.h   |  1 +
 2 files changed, 42 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 8ff9844..8c57af8 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -428,6 +428,47 @@ namespace cn
           return false;
         }
       }
+      else if (!areInputsSpendable(tx))
+      {
+        return false;
+      }
+    }
+
+    return true;
+  }
+
+  /* The ring signatures were checked before against the same blocks; whether the
+     referenced outputs may be spent still depends on the current chain. */
+  bool Blockchain::areInputsSpendable(const Transaction &tx)
+  {
+    struct unlocked_visitor
+    {
+      Blockchain &m_bch;
+
+      bool handle_output(const Transaction &outputTx, const TransactionOutput &, size_t)
+      {
+        return m_bch.is_tx_spendtime_unlocked(outputTx.unlockTime);
+      }
+    };
+
+    std::lock_guard<decltype(m_blockchain_lock)> lk(m_blockchain_lock);
+    crypto::Hash transactionHash = getObjectHash(tx);
+    crypto::Hash prefixHash = getObjectHash(*static_cast<const TransactionPrefix *>(&tx));
+    for (size_t i = 0; i < tx.inputs.size(); ++i)
+    {
+      if (tx.inputs[i].type() == typeid(KeyInput))
+      {
+        unlocked_visitor visitor = {*this};
+        if (!scanOutputKeysForIndexes(boost::get<KeyInput>(tx.inputs[i]), visitor))
+        {
+          return false;
+        }
+      }
+      else if (tx.inputs[i].type() == typeid(MultisignatureInput) &&
+               !validateInput(boost::get<MultisignatureInput>(tx.inputs[i]), transactionHash, prefixHash, tx.signatures[i]))
+      {
+        return false;
+      }
     }
 
     return true;
diff --git a/src/CryptoNoteCore/Blockchain.h b/src/CryptoNoteCore/Blockchain.h
index d07830a..1a1e189 100644
--- a/src/CryptoNoteCore/Blockchain.h
+++ b/src/CryptoNoteCore/Blockchain.h
@@ -328,6 +328,7 @@ namespace cn
     bool get_last_n_blocks_sizes(std::vector<size_t> &sz, size_t count);
     bool add_out_to_get_random_outs(std::vector<std::pair<TransactionIndex, uint16_t>> &amount_outs, COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_outs_for_amount &result_outs, uint64_t amount, size_t i);
     bool is_tx_spendtime_unlocked(uint64_t unlock_time);
+    bool areInputsSpendable(const Transaction &tx);
     size_t find_end_of_allowed_index(const std::vector<std::pair<TransactionIndex, uint16_t>> &amount_outs);
     bool check_block_timestamp_main(const Block &b);
     bool check_block_timestamp(std::vector<uint64_t> timestamps, const Block &b);
-- 
2.43.0


From b301726139e6c0e7b1db287a9f95adfad39b1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 14/47] fix: a withdrawal returned to the pool by a block no
 longer reserved its deposit

---
 src/CryptoNoteCore/TransactionPool.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index c8ffa06..0121575 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -737,12 +737,17 @@ namespace cn
       }
       else if (in.type() == typeid(MultisignatureInput))
       {
-        if (!keptByBlock)
+        const auto &msig = boost::get<MultisignatureInput>(in);
+        bool usedByOther = std::any_of(m_transactions.begin(), m_transactions.end(), [&](const TransactionDetails &other) {
+          return other.id != tx_id && std::any_of(other.tx.inputs.begin(), other.tx.inputs.end(), [&](const TransactionInput &otherIn) {
+            return otherIn.type() == typeid(MultisignatureInput) &&
+                   boost::get<MultisignatureInput>(otherIn).amount == msig.amount &&
+                   boost::get<MultisignatureInput>(otherIn).outputIndex == msig.outputIndex;
+          });
+        });
+        if (!usedByOther)
         {
-          const auto &msig = boost::get<MultisignatureInput>(in);
-          auto output = GlobalOutput(msig.amount, msig.outputIndex);
-          assert(m_spentOutputs.count(output));
-          m_spentOutputs.erase(output);
+          m_spentOutputs.erase(GlobalOutput(msig.amount, msig.outputIndex));
         }
       }
     }
@@ -777,13 +782,10 @@ namespace cn
       }
       else if (in.type() == typeid(MultisignatureInput))
       {
-        if (!keptByBlock)
-        {
-          const auto &msig = boost::get<MultisignatureInput>(in);
-          auto r = m_spentOutputs.insert(GlobalOutput(msig.amount, msig.outputIndex));
-          (void)r;
-          assert(r.second);
-        }
+        const auto &msig = boost::get<MultisignatureInput>(in);
+        auto r = m_spentOutputs.insert(GlobalOutput(msig.amount, msig.outputIndex));
+        (void)r;
+        assert(keptByBlock || r.second);
       }
     }
 
-- 
2.43.0


From ff831b1eab19501d502d92d75315f925b68a1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 15/47] fix: payment ids of new pool transactions were read
 from a moved-from object and not indexed

---
 src/CryptoNoteCore/TransactionPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index 0121575..4d584c8 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -257,8 +257,8 @@ namespace cn
         logger(WARNING, BRIGHT_YELLOW) << " Transaction already exists at inserting in memory pool";
         return false;
       }
-      m_paymentIdIndex.add(txd.tx);
-      m_timestampIndex.add(txd.receiveTime, txd.id);
+      m_paymentIdIndex.add(txd_p.first->tx);
+      m_timestampIndex.add(txd_p.first->receiveTime, txd_p.first->id);
 
       if (ttl.ttl != 0)
       {
-- 
2.43.0


From 550d3478e9b8424ef6445479ac9eb91fcdbbe326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:03 +0000
Subject: [PATCH 16/47] fix: templates of the first block version contained
 transactions that version refuses

---
 src/CryptoNoteCore/TransactionPool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index 4d584c8..abbf28f 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -487,6 +487,11 @@ namespace cn
         continue;
       }
 
+      if (bl.majorVersion == BLOCK_MAJOR_VERSION_1 && txd.tx.version > TRANSACTION_VERSION_1)
+      {
+        continue;
+      }
+
       uint64_t inputs_amount = m_currency.getTransactionAllInputsAmount(txd.tx, height);
       uint64_t outputs_amount = get_outs_money_amount(txd.tx);
 
-- 
2.43.0


From 93be38eaa144786b6ecfe0c59d7177541d9eab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 17/47] fix: deposit outputs of pool transactions were judged
 by the height of their inputs, not of the next block

---
 src/CryptoNoteCore/Blockchain.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 8c57af8..3209f12 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -383,7 +383,7 @@ namespace cn
 
   bool Blockchain::checkTransactionInputs(const cn::Transaction &tx, BlockInfo &maxUsedBlock)
   {
-    return checkTransactionInputs(tx, maxUsedBlock.height, maxUsedBlock.id) && check_tx_outputs(tx, maxUsedBlock.height);
+    return checkTransactionInputs(tx, maxUsedBlock.height, maxUsedBlock.id) && check_tx_outputs(tx, getCurrentBlockchainHeight());
   }
 
   bool Blockchain::checkTransactionInputs(const cn::Transaction &tx, BlockInfo &maxUsedBlock, BlockInfo &lastFailed)
@@ -434,7 +434,8 @@ namespace cn
       }
     }
 
-    return true;
+    /* the rules for deposit outputs depend on the height of the block they go into */
+    return check_tx_outputs(tx, getCurrentBlockchainHeight());
   }
 
   /* The ring signatures were checked before against the same blocks; whether the
-- 
2.43.0


From 42c11fbe3a5e89f836c4d3357b395a2c7a2b18b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 18/47] fix: returning a removed block's transactions to the
 pool could fail and leave the chain half rolled back

---
 src/CryptoNoteCore/Blockchain.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 3209f12..7499d42 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2592,7 +2592,7 @@ namespace cn
         }
         else
         {
-          add_result = pushBlock(bl, id, bvc, ++height);
+          add_result = pushBlock(bl, id, bvc, height);
           if (add_result)
           {
             sendMessage(BlockchainMessage(NewBlockMessage(id)));
@@ -2935,7 +2935,7 @@ namespace cn
       transactions[i] = m_blocks.back().transactions[1 + i].tx;
     }
 
-    auto height = static_cast<uint32_t>(m_blocks.size()); //height of popped block should be same as number of blocks
+    auto height = static_cast<uint32_t>(m_blocks.size()) - 1; // interest of a withdrawal depends on the height of its block
     saveTransactions(transactions, height);
 
     popTransactions(m_blocks.back(), getObjectHash(m_blocks.back().bl.baseTransaction));
@@ -3569,15 +3569,8 @@ namespace cn
     {
       if (!m_tx_pool.take_tx(block.transactionHashes[i], transactions[i], transactionSize, fee))
       {
-        tx_verification_context context;
-        for (size_t j = 0; j < i; ++j)
-        {
-          if (!m_tx_pool.add_tx(transactions[i - 1 - j], context, true, height))
-          {
-            throw std::runtime_error("Blockchain::loadTransactions, failed to add transaction to pool");
-          }
-        }
-
+        transactions.resize(i);
+        saveTransactions(transactions, height);
         return false;
       }
     }
@@ -3591,7 +3584,8 @@ namespace cn
     {
       if (!m_tx_pool.add_tx(transactions[transactions.size() - 1 - i], context, true, height))
       {
-        throw std::runtime_error("Blockchain::saveTransactions, failed to add transaction to pool");
+        // one transaction the pool refuses must not cost the others their place
+        logger(WARNING, BRIGHT_YELLOW) << "Failed to return a transaction to the pool";
       }
     }
   }
-- 
2.43.0


From e553b09fff5da501f86cd06f3b3d2f54c9993dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 19/47] fix: a missing, incomplete or outdated spent key or
 transaction map file was believed

---
 src/CryptoNoteCore/Blockchain.cpp | 46 ++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 7499d42..2dbbcab 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -202,27 +202,15 @@ namespace cn
       s(m_bs.m_blockIndex, "block_index");
 
       logger(INFO) << operation << "transaction map";
-      if (s.type() == ISerializer::INPUT)
+      if (!serializeMap(m_bs.m_transactionMap, "transactionsmap.dat", s))
       {
-        phmap::BinaryInputArchive ar_in(appendPath(m_bs.m_config_folder, "transactionsmap.dat").c_str());
-        m_bs.m_transactionMap.phmap_load(ar_in);
-      }
-      else
-      {
-        phmap::BinaryOutputArchive ar_out(appendPath(m_bs.m_config_folder, "transactionsmap.dat").c_str());
-        m_bs.m_transactionMap.phmap_dump(ar_out);
+        return;
       }
 
       logger(INFO) << operation << "spent keys";
-      if (s.type() == ISerializer::INPUT)
+      if (!serializeMap(m_bs.m_spent_keys, "spentkeys.dat", s))
       {
-        phmap::BinaryInputArchive ar_in(appendPath(m_bs.m_config_folder, "spentkeys.dat").c_str());
-        m_bs.m_spent_keys.phmap_load(ar_in);
-      }
-      else
-      {
-        phmap::BinaryOutputArchive ar_out(appendPath(m_bs.m_config_folder, "spentkeys.dat").c_str());
-        m_bs.m_spent_keys.phmap_dump(ar_out);
+        return;
       }
 
       logger(INFO) << operation << "outputs";
@@ -247,6 +235,32 @@ namespace cn
     }
 
   private:
+    // These maps live in files of their own. The id of the last block closes each of them, it tells a file
+    // that is missing, incomplete or from another time from the one this cache was saved with.
+    template <class Map>
+    bool serializeMap(Map &map, const std::string &filename, ISerializer &s)
+    {
+      const std::string path = appendPath(m_bs.m_config_folder, filename);
+      if (s.type() == ISerializer::OUTPUT)
+      {
+        phmap::BinaryOutputArchive ar_out(path.c_str());
+        return map.phmap_dump(ar_out) && ar_out.saveBinary(m_lastBlockHash);
+      }
+
+      crypto::Hash blockHash = NULL_HASH;
+      std::ifstream file(path, std::ios::binary);
+      file.seekg(-static_cast<std::streamoff>(sizeof(blockHash)), std::ios::end);
+      file.read(reinterpret_cast<char *>(&blockHash), sizeof(blockHash));
+      if (!file || blockHash != m_lastBlockHash)
+      {
+        logger(WARNING) << filename << " does not belong to the blockchain cache";
+        return false;
+      }
+
+      phmap::BinaryInputArchive ar_in(path.c_str());
+      return map.phmap_load(ar_in);
+    }
+
     Blockchain &m_bs;
     crypto::Hash m_lastBlockHash;
     LoggerRef logger;
-- 
2.43.0


From 300af51b59e643df8b2286239d2e96e9b9e857ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 20/47] fix: rebuilding the cache kept the deposits a failed
 load had left

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 2dbbcab..997f28a 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -746,6 +746,7 @@ namespace cn
       m_spent_keys.clear();
       m_outputs.clear();
       m_multisignatureOutputs.clear();
+      m_depositIndex = DepositIndex();
       for (uint32_t b = 0; b < m_blocks.size(); ++b)
       {
         if (b % 1000 == 0)
-- 
2.43.0


From 0ea159cc9326efbb610b34bad1b3304830308419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 21/47] fix: a crash while blocks were replaced left a block
 index naming blocks that are not stored

---
 src/CryptoNoteCore/SwappedVector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CryptoNoteCore/SwappedVector.h b/src/CryptoNoteCore/SwappedVector.h
index 54356d4..1371b8c 100644
--- a/src/CryptoNoteCore/SwappedVector.h
+++ b/src/CryptoNoteCore/SwappedVector.h
@@ -338,6 +338,9 @@ template<class T> void SwappedVector<T>::pop_back() {
     throw std::runtime_error("SwappedVector::pop_back");
   }
 
+  // the removed item must be gone from the index before its place in the items file is written again
+  m_indexesFile.flush();
+
   m_itemsFileSize = m_offsets.back();
   m_offsets.pop_back();
   auto itemIter = m_items.find(m_offsets.size());
@@ -362,6 +365,9 @@ template<class T> void SwappedVector<T>::push_back(const T& item) {
     serialize(const_cast<T&>(item), archive);
 
     itemsFileSize = m_itemsFile.tellp();
+
+    // the index must never name an item that is not stored yet
+    m_itemsFile.flush();
   }
 
   {
-- 
2.43.0


From 5a42766d4d8d7cbb3e663f1244973dabe87b1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 22/47] fix: after a crash the pool kept transactions the chain
 had mined since the pool was saved

---
 src/CryptoNoteCore/Core.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 45f0bf9..54085ef 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -167,6 +167,16 @@ bool core::init(const CoreConfig& config, const MinerConfig& minerConfig, bool l
     return false;
   }
 
+  // after a crash the saved pool is older than the chain and may hold transactions that were mined since
+  for (const auto& entry : m_mempool.getMemoryPool()) {
+    if (m_blockchain.haveTransaction(entry.id)) {
+      Transaction tx;
+      size_t blobSize;
+      uint64_t fee;
+      m_mempool.take_tx(entry.id, tx, blobSize, fee);
+    }
+  }
+
   r = m_miner->init(minerConfig);
   if (!(r)) {
     logger(ERROR, BRIGHT_RED) << "Failed to initialize blockchain storage";
-- 
2.43.0


From c4f94e4ed199ab034ad1dfb89d75a38966805910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 23/47] fix: block range queries with a large count wrapped
 around and returned nothing

---
 src/CryptoNoteCore/Blockchain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 997f28a..d78ab17 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1875,7 +1875,7 @@ namespace cn
       return false;
     }
 
-    for (size_t i = start_offset; i < start_offset + count && i < m_blocks.size(); i++)
+    for (size_t i = start_offset; i < m_blocks.size() && i - start_offset < count; i++)
     {
       blocks.push_back(m_blocks[i].bl);
       std::list<crypto::Hash> missed_ids;
@@ -1898,7 +1898,7 @@ namespace cn
       return false;
     }
 
-    for (uint32_t i = start_offset; i < start_offset + count && i < m_blocks.size(); i++)
+    for (size_t i = start_offset; i < m_blocks.size() && i - start_offset < count; i++)
     {
       blocks.push_back(m_blocks[i].bl);
     }
-- 
2.43.0


From 37a75693682688c3fefa63a4be447d0ec521f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 24/47] fix: crash when asked for the sparse chain of an
 alternative block whose branch point is gone

---
 src/CryptoNoteCore/BlockIndex.cpp | 2 +-
 src/CryptoNoteCore/Blockchain.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/BlockIndex.cpp b/src/CryptoNoteCore/BlockIndex.cpp
index 243170f..625b624 100644
--- a/src/CryptoNoteCore/BlockIndex.cpp
+++ b/src/CryptoNoteCore/BlockIndex.cpp
@@ -59,7 +59,7 @@ namespace cn {
       }
     }
 
-    if (result.back() != m_container[0])
+    if (result.empty() || result.back() != m_container[0])
     {
       result.emplace_back(m_container[0]);
     }
diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index d78ab17..f013e1b 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1025,7 +1025,7 @@ namespace cn
       }
 
       assert(!sparseChain.empty());
-      assert(m_blockIndex.hasBlock(blockchainAncestor));
+      // the ancestor may be gone from the main chain: then only the genesis block is common
       std::vector<crypto::Hash> sparseMainChain = m_blockIndex.buildSparseChain(blockchainAncestor);
       sparseChain.reserve(sparseChain.size() + sparseMainChain.size());
       std::copy(sparseMainChain.begin(), sparseMainChain.end(), std::back_inserter(sparseChain));
-- 
2.43.0


From 9aa56c6977a8f2b48f10afa0ecbf678622d8e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 25/47] fix: JSON strings were written without escapes and read
 without undoing them

---
 src/Common/JsonValue.cpp | 115 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 109 insertions(+), 6 deletions(-)

diff --git a/src/Common/JsonValue.cpp b/src/Common/JsonValue.cpp
index 8edc857..1c5539b 100644
--- a/src/Common/JsonValue.cpp
+++ b/src/Common/JsonValue.cpp
@@ -590,6 +590,34 @@ std::string JsonValue::toString() const {
   return stream.str();
 }
 
+namespace {
+
+void writeString(std::ostream& out, const std::string& value) {
+  static const char hexDigits[] = "0123456789abcdef";
+  out << '"';
+  for (char c : value) {
+    switch (c) {
+    case '"':  out << "\\\""; break;
+    case '\\': out << "\\\\"; break;
+    case '\b': out << "\\b"; break;
+    case '\f': out << "\\f"; break;
+    case '\n': out << "\\n"; break;
+    case '\r': out << "\\r"; break;
+    case '\t': out << "\\t"; break;
+    default:
+      if (static_cast<unsigned char>(c) < 0x20) {
+        out << "\\u00" << hexDigits[c >> 4] << hexDigits[c & 15];
+      } else {
+        out << c;
+      }
+    }
+  }
+
+  out << '"';
+}
+
+}
+
 std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
   switch (jsonValue.type) {
   case JsonValue::ARRAY: {
@@ -619,10 +647,13 @@ std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
     out << '{';
     auto iter = object.begin();
     if (iter != object.end()) {
-      out << '"' << iter->first << "\":" << iter->second;
+      writeString(out, iter->first);
+      out << ':' << iter->second;
       ++iter;
       for (; iter != object.end(); ++iter) {
-        out << ",\"" << iter->first << "\":" << iter->second;
+        out << ',';
+        writeString(out, iter->first);
+        out << ':' << iter->second;
       }
     }
 
@@ -641,7 +672,7 @@ std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
     break;
   }
   case JsonValue::STRING:
-    out << '"' << *reinterpret_cast<const JsonValue::String*>(jsonValue.valueString) << '"';
+    writeString(out, *reinterpret_cast<const JsonValue::String*>(jsonValue.valueString));
     break;
   }
 
@@ -670,6 +701,79 @@ char readNonWsChar(std::istream& in) {
   return c;
 }
 
+uint32_t readHex4(std::istream& in) {
+  uint32_t value = 0;
+  for (int i = 0; i < 4; ++i) {
+    char c = readChar(in);
+    value <<= 4;
+    if (c >= '0' && c <= '9') {
+      value |= c - '0';
+    } else if (c >= 'a' && c <= 'f') {
+      value |= c - 'a' + 10;
+    } else if (c >= 'A' && c <= 'F') {
+      value |= c - 'A' + 10;
+    } else {
+      throw std::runtime_error("Unable to parse: invalid escape sequence");
+    }
+  }
+
+  return value;
+}
+
+void appendUtf8(std::string& value, uint32_t code) {
+  if (code < 0x80) {
+    value += static_cast<char>(code);
+  } else if (code < 0x800) {
+    value += static_cast<char>(0xc0 | (code >> 6));
+    value += static_cast<char>(0x80 | (code & 0x3f));
+  } else if (code < 0x10000) {
+    value += static_cast<char>(0xe0 | (code >> 12));
+    value += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+    value += static_cast<char>(0x80 | (code & 0x3f));
+  } else {
+    value += static_cast<char>(0xf0 | (code >> 18));
+    value += static_cast<char>(0x80 | ((code >> 12) & 0x3f));
+    value += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+    value += static_cast<char>(0x80 | (code & 0x3f));
+  }
+}
+
+void readEscape(std::istream& in, std::string& value) {
+  char c = readChar(in);
+  switch (c) {
+  case '"':
+  case '\\':
+  case '/':
+    value += c;
+    break;
+  case 'b': value += '\b'; break;
+  case 'f': value += '\f'; break;
+  case 'n': value += '\n'; break;
+  case 'r': value += '\r'; break;
+  case 't': value += '\t'; break;
+  case 'u': {
+    uint32_t code = readHex4(in);
+    if (code >= 0xd800 && code < 0xdc00) {
+      if (readChar(in) != '\\' || readChar(in) != 'u') {
+        throw std::runtime_error("Unable to parse: invalid escape sequence");
+      }
+
+      uint32_t low = readHex4(in);
+      if (low < 0xdc00 || low > 0xdfff) {
+        throw std::runtime_error("Unable to parse: invalid escape sequence");
+      }
+
+      code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+    }
+
+    appendUtf8(value, code);
+    break;
+  }
+  default:
+    throw std::runtime_error("Unable to parse: invalid escape sequence");
+  }
+}
+
 std::string readStringToken(std::istream& in) {
   char c;
   std::string value;
@@ -682,11 +786,10 @@ std::string readStringToken(std::istream& in) {
     }
 
     if (c == '\\') {
+      readEscape(in, value);
+    } else {
       value += c;
-      c = readChar(in);
     }
-
-    value += c;
   }
 
   return value;
-- 
2.43.0


From c7767fb58e0e86b9dac9ee866ca4324e22a5e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 26/47] fix: pool changes lost their transactions in the binary
 RPC encoding

---
 src/Rpc/CoreRpcServerCommandsDefinitions.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Rpc/CoreRpcServerCommandsDefinitions.h b/src/Rpc/CoreRpcServerCommandsDefinitions.h
index cf3778b..7adf392 100644
--- a/src/Rpc/CoreRpcServerCommandsDefinitions.h
+++ b/src/Rpc/CoreRpcServerCommandsDefinitions.h
@@ -11,6 +11,7 @@
 #include "CryptoNoteCore/CryptoNoteBasic.h"
 #include "CryptoNoteCore/Difficulty.h"
 #include "crypto/hash.h"
+#include "Common/StringTools.h"
 
 #include "Serialization/SerializationOverloads.h"
 
@@ -132,7 +133,22 @@ struct COMMAND_RPC_GET_POOL_CHANGES {
 
     void serialize(ISerializer &s) {
       KV_MEMBER(isTailBlockActual)
-      KV_MEMBER(addedTxs)
+      // key-value storage has no arrays of arrays, so each blob travels as a string
+      std::vector<std::string> txBlobs;
+      if (s.type() == ISerializer::OUTPUT) {
+        for (const auto &tx : addedTxs) {
+          txBlobs.push_back(common::asString(tx));
+        }
+      }
+
+      s(txBlobs, "addedTxs");
+      if (s.type() == ISerializer::INPUT) {
+        addedTxs.clear();
+        for (const auto &blob : txBlobs) {
+          addedTxs.push_back(common::asBinaryArray(blob));
+        }
+      }
+
       serializeAsBinary(deletedTxsIds, "deletedTxsIds", s);
       KV_MEMBER(status)
     }
-- 
2.43.0


From c671c4712414ca2da905839ca56da8984f4d394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 27/47] fix: fractional numbers could be written to JSON but
 not read back

---
 src/Serialization/JsonInputValueSerializer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Serialization/JsonInputValueSerializer.cpp b/src/Serialization/JsonInputValueSerializer.cpp
index 5f552bd..2882858 100644
--- a/src/Serialization/JsonInputValueSerializer.cpp
+++ b/src/Serialization/JsonInputValueSerializer.cpp
@@ -113,7 +113,13 @@ bool JsonInputValueSerializer::operator()(uint64_t& value, common::StringView na
 }
 
 bool JsonInputValueSerializer::operator()(double& value, common::StringView name) {
-  return getNumber(name, value);
+  auto ptr = getValue(name);
+  if (ptr == nullptr) {
+    return false;
+  }
+
+  value = ptr->isInteger() ? static_cast<double>(ptr->getInteger()) : ptr->getReal();
+  return true;
 }
 
 bool JsonInputValueSerializer::operator()(uint8_t& value, common::StringView name) {
-- 
2.43.0


From a7175f356262687a21d31682571b335b3212693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 28/47] fix: Base64 encoding of bytes above 127 read outside
 the alphabet

---
 src/Common/Base64.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Common/Base64.cpp b/src/Common/Base64.cpp
index 38d905f..a964548 100644
--- a/src/Common/Base64.cpp
+++ b/src/Common/Base64.cpp
@@ -28,9 +28,9 @@ namespace tools
       result.reserve(resultSize);
 
       for (size_t i = 0; i < data.size(); i += 3) {
-        size_t a = static_cast<size_t>(data[i]);
-        size_t b = i + 1 < data.size() ? static_cast<size_t>(data[i + 1]) : 0;
-        size_t c = i + 2 < data.size() ? static_cast<size_t>(data[i + 2]) : 0;
+        size_t a = static_cast<uint8_t>(data[i]);
+        size_t b = i + 1 < data.size() ? static_cast<uint8_t>(data[i + 1]) : 0;
+        size_t c = i + 2 < data.size() ? static_cast<uint8_t>(data[i + 2]) : 0;
 
         result.push_back(encodingTable[a >> 2]);
         result.push_back(encodingTable[((a & 0x3) << 4) | (b >> 4)]);
-- 
2.43.0


From 2449faa53fecdcdf84dc9c775470f29320742aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 29/47] fix: HTTP header values lost colons followed by a space
 and requests without headers were misread

---
 src/HTTP/HttpParser.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/HTTP/HttpParser.cpp b/src/HTTP/HttpParser.cpp
index 50c7fe0..e447dc5 100644
--- a/src/HTTP/HttpParser.cpp
+++ b/src/HTTP/HttpParser.cpp
@@ -102,7 +102,10 @@ void HttpParser::receiveResponse(std::istream& stream, HttpResponse& response) {
     value.clear();
   }
 
-  response.addHeader(name, value);
+  if (!name.empty()) {
+    response.addHeader(name, value);
+  }
+
   auto headers = response.getHeaders();
   size_t length = 0;
   auto it = headers.find("content-length");
@@ -148,7 +151,9 @@ void HttpParser::readHeaders(std::istream& stream, HttpRequest::Headers& headers
     value.clear();
   }
 
-  headers[name] = value; //use insert
+  if (!name.empty()) {
+    headers[name] = value; //use insert
+  }
 }
 
 bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string& value) {
@@ -157,7 +162,7 @@ bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string
 
   stream.get(c);
   while (stream.good() && c != '\r') {
-    if (c == ':') {
+    if (c == ':' && isName) {
       if (stream.peek() == ' ') {
         stream.get(c);
       }
@@ -166,11 +171,9 @@ bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string
         throw std::system_error(make_error_code(cn::error::HttpParserErrorCodes::EMPTY_HEADER));
       }
 
-      if (isName) {
-        isName = false;
-        stream.get(c);
-        continue;
-      }
+      isName = false;
+      stream.get(c);
+      continue;
     }
 
     if (isName) {
@@ -189,6 +192,10 @@ bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string
     throw std::system_error(make_error_code(cn::error::HttpParserErrorCodes::UNEXPECTED_SYMBOL));
   }
 
+  if (name.empty()) {
+    return false; //empty line, no headers at all
+  }
+
   std::transform(name.begin(), name.end(), name.begin(), ::tolower);
 
   c = stream.peek();
-- 
2.43.0


From edc5b4ac2dc4cad16a348c54936da8424d710b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 30/47] fix: extracting a part of a delimited text returned the
 wrong part, endpoints accepted trailing garbage and ports above 65535

---
 src/Common/StringTools.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Common/StringTools.cpp b/src/Common/StringTools.cpp
index 3c49f38..d03c293 100644
--- a/src/Common/StringTools.cpp
+++ b/src/Common/StringTools.cpp
@@ -193,11 +193,13 @@ std::string extract(std::string& text, char delimiter) {
 std::string extract(const std::string& text, char delimiter, size_t& offset) {
   size_t delimiterPosition = text.find(delimiter, offset);
   if (delimiterPosition != std::string::npos) {
+    std::string subText = text.substr(offset, delimiterPosition - offset);
     offset = delimiterPosition + 1;
-    return text.substr(offset, delimiterPosition);
+    return subText;
   } else {
+    std::string subText = text.substr(offset);
     offset = text.size();
-    return text.substr(offset);
+    return subText;
   }
 }
 
@@ -306,8 +308,13 @@ std::string ipAddressToString(uint32_t ip) {
 bool parseIpAddressAndPort(uint32_t& ip, uint32_t& port, const std::string& addr) {
   uint32_t v[4];
   uint32_t localPort;
+  int length = 0;
 
-  if (sscanf(addr.c_str(), "%d.%d.%d.%d:%d", &v[0], &v[1], &v[2], &v[3], &localPort) != 5) {
+  if (sscanf(addr.c_str(), "%u.%u.%u.%u:%u%n", &v[0], &v[1], &v[2], &v[3], &localPort, &length) != 5) {
+    return false;
+  }
+
+  if (static_cast<size_t>(length) != addr.size() || localPort > 0xffff) {
     return false;
   }
 
-- 
2.43.0


From 23e0bad85acddd76835738f3309fde766c5ad800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 31/47] fix: seed words with a capital letter restored a
 different key

---
 src/Mnemonics/Mnemonics.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Mnemonics/Mnemonics.cpp b/src/Mnemonics/Mnemonics.cpp
index 6bd7b2e..6e2cee2 100644
--- a/src/Mnemonics/Mnemonics.cpp
+++ b/src/Mnemonics/Mnemonics.cpp
@@ -30,8 +30,15 @@ namespace mnemonics
 
     /* Note - if the returned string is not empty, it is an error message, and
        the returned secret key is not initialized. */
-    crypto::SecretKey mnemonicToPrivateKey(const std::vector<std::string> &words)
+    crypto::SecretKey mnemonicToPrivateKey(const std::vector<std::string> &originalWords)
     {
+        /* The word list is all lower case, so are the checksum and the indexes */
+        std::vector<std::string> words = originalWords;
+        for (auto &word : words)
+        {
+            std::transform(word.begin(), word.end(), word.begin(), ::tolower);
+        }
+
         const size_t len = words.size();
 
         /* Mnemonics must be 25 words long */
@@ -45,11 +52,8 @@ namespace mnemonics
         }
 
         /* All words must be present in the word list */
-        for (auto word : words)
+        for (const auto &word : words)
         {
-            /* Convert to lower case */
-            std::transform(word.begin(), word.end(), word.begin(), ::tolower);
-
             if (std::find(WordList::English.begin(),
                           WordList::English.end(), word) == WordList::English.end())
             {
-- 
2.43.0


From 8bfae05e767480458c87eefa164a5ad4a38c374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 32/47] fix: messages could make the decoder allocate gigabytes
 by announcing sizes they do not contain

---
 src/Common/StreamTools.cpp                    | 24 +++++++++++++++----
 .../CryptoNoteSerialization.cpp               | 15 ++++++++----
 src/P2p/LevinProtocol.cpp                     | 13 +++++++---
 .../BinaryInputStreamSerializer.cpp           | 10 ++------
 .../KVBinaryInputStreamSerializer.cpp         |  5 +---
 src/Serialization/SerializationOverloads.h    | 24 ++++++++++++++-----
 6 files changed, 61 insertions(+), 30 deletions(-)

diff --git a/src/Common/StreamTools.cpp b/src/Common/StreamTools.cpp
index f9f0b89..a2e9c4c 100644
--- a/src/Common/StreamTools.cpp
+++ b/src/Common/StreamTools.cpp
@@ -6,6 +6,7 @@
 // file COPYING or http://www.opensource.org/licenses/mit-license.php.
 
 #include "StreamTools.h"
+#include <algorithm>
 #include <stdexcept>
 #include "IInputStream.h"
 #include "IOutputStream.h"
@@ -62,15 +63,28 @@ void read(IInputStream& in, uint64_t& value) {
   read(in, &value, sizeof(value));
 }
 
+namespace {
+
+// The size usually comes from the stream itself: take memory only as the data actually arrives
+template<typename Container> void readContainer(IInputStream& in, Container& data, size_t size) {
+  const size_t MAX_STEP = 1024 * 1024;
+  data.clear();
+  while (data.size() < size) {
+    size_t offset = data.size();
+    size_t step = std::min(size - offset, MAX_STEP);
+    data.resize(offset + step);
+    read(in, &data[offset], step);
+  }
+}
+
+}
+
 void read(IInputStream& in, std::vector<uint8_t>& data, size_t size) {
-  data.resize(size);
-  read(in, data.data(), size);
+  readContainer(in, data, size);
 }
 
 void read(IInputStream& in, std::string& data, size_t size) {
-  std::vector<char> temp(size);
-  read(in, temp.data(), size);
-  data.assign(temp.data(), size);
+  readContainer(in, data, size);
 }
 
 void readVarint(IInputStream& in, uint8_t& value) {
diff --git a/src/CryptoNoteCore/CryptoNoteSerialization.cpp b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
index d54df16..75d2384 100644
--- a/src/CryptoNoteCore/CryptoNoteSerialization.cpp
+++ b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
@@ -129,10 +129,17 @@ bool serializeVarintVector(std::vector<uint32_t>& vector, cn::ISerializer& seria
     return false;
   }
 
-  vector.resize(size);
-
-  for (size_t i = 0; i < size; ++i) {
-    serializer(vector[i], "");
+  if (serializer.type() == ISerializer::INPUT) {
+    // the size comes from the input: take memory only for the elements which are really there
+    vector.clear();
+    for (size_t i = 0; i < size; ++i) {
+      vector.emplace_back();
+      serializer(vector.back(), "");
+    }
+  } else {
+    for (size_t i = 0; i < size; ++i) {
+      serializer(vector[i], "");
+    }
   }
 
   serializer.endArray();
diff --git a/src/P2p/LevinProtocol.cpp b/src/P2p/LevinProtocol.cpp
index 63a09a1..a58c7d5 100644
--- a/src/P2p/LevinProtocol.cpp
+++ b/src/P2p/LevinProtocol.cpp
@@ -6,6 +6,7 @@
 // file COPYING or http://www.opensource.org/licenses/mit-license.php.
 
 #include "LevinProtocol.h"
+#include <algorithm>
 #include <System/TcpConnection.h>
 
 using namespace cn;
@@ -79,9 +80,15 @@ bool LevinProtocol::readCommand(Command& cmd) {
   BinaryArray buf;
 
   if (head.m_cb != 0) {
-    buf.resize(head.m_cb);
-    if (!readStrict(&buf[0], head.m_cb)) {
-      return false;
+    // take memory only as the announced data actually arrives
+    const size_t MAX_STEP = 1024 * 1024;
+    while (buf.size() < head.m_cb) {
+      size_t offset = buf.size();
+      size_t step = std::min<size_t>(head.m_cb - offset, MAX_STEP);
+      buf.resize(offset + step);
+      if (!readStrict(&buf[offset], step)) {
+        return false;
+      }
     }
   }
 
diff --git a/src/Serialization/BinaryInputStreamSerializer.cpp b/src/Serialization/BinaryInputStreamSerializer.cpp
index f587647..bae93e5 100644
--- a/src/Serialization/BinaryInputStreamSerializer.cpp
+++ b/src/Serialization/BinaryInputStreamSerializer.cpp
@@ -97,16 +97,10 @@ bool BinaryInputStreamSerializer::operator()(std::string& value, common::StringV
 
   if (size > 128*1024*1024) {
     throw std::runtime_error("string size is too big");
-  } else if (size > 0) {
-    std::vector<char> temp;
-    temp.resize(size);
-    checkedRead(&temp[0], size);
-    value.reserve(size);
-    value.assign(&temp[0], size);
-  } else {
-    value.clear();
   }
 
+  read(stream, value, size);
+
   return true;
 }
 
diff --git a/src/Serialization/KVBinaryInputStreamSerializer.cpp b/src/Serialization/KVBinaryInputStreamSerializer.cpp
index f39c903..0ae385e 100644
--- a/src/Serialization/KVBinaryInputStreamSerializer.cpp
+++ b/src/Serialization/KVBinaryInputStreamSerializer.cpp
@@ -76,10 +76,7 @@ std::string readString(common::IInputStream& s) {
   }
 
   std::string str;
-  str.resize(size);
-  if (size) {
-    read(s, &str[0], size);
-  }
+  read(s, str, size);
   return str;
 }
 
diff --git a/src/Serialization/SerializationOverloads.h b/src/Serialization/SerializationOverloads.h
index 205de35..d4658b4 100644
--- a/src/Serialization/SerializationOverloads.h
+++ b/src/Serialization/SerializationOverloads.h
@@ -12,6 +12,7 @@
 #include <array>
 #include <cstring>
 #include <list>
+#include <algorithm>
 #include <map>
 #include <string>
 #include <set>
@@ -109,11 +110,22 @@ bool serializeContainer(Cont &value, common::StringView name, cn::ISerializer &s
     return false;
   }
 
-  value.resize(size);
-
-  for (auto &item : value)
+  if (serializer.type() == ISerializer::INPUT)
   {
-    serializer(const_cast<typename Cont::value_type &>(item), "");
+    // the size comes from the input: take memory only for the elements which are really there
+    value.clear();
+    for (size_t i = 0; i < size; ++i)
+    {
+      value.emplace_back();
+      serializer(value.back(), "");
+    }
+  }
+  else
+  {
+    for (auto &item : value)
+    {
+      serializer(const_cast<typename Cont::value_type &>(item), "");
+    }
   }
 
   serializer.endArray();
@@ -244,7 +256,7 @@ bool serialize(std::set<K, Cmp> &value, common::StringView name, cn::ISerializer
 template <typename K, typename V, typename Hash>
 bool serialize(std::unordered_map<K, V, Hash> &value, common::StringView name, cn::ISerializer &serializer)
 {
-  return serializeMap(value, name, serializer, [&value](size_t size) { value.reserve(size); });
+  return serializeMap(value, name, serializer, [&value](size_t size) { value.reserve(std::min<size_t>(size, 65536)); });
 }
 
 template <typename K, typename V, typename Hash>
@@ -262,7 +274,7 @@ bool serialize(parallel_flat_hash_map<K, V, Hash> &value, common::StringView nam
   template <typename K, typename V, typename Hash>
   bool serialize(std::unordered_multimap<K, V, Hash> & value, common::StringView name, cn::ISerializer & serializer)
   {
-    return serializeMap(value, name, serializer, [&value](size_t size) { value.reserve(size); });
+    return serializeMap(value, name, serializer, [&value](size_t size) { value.reserve(std::min<size_t>(size, 65536)); });
   }
 
   template <typename K, typename V, typename Hash>
-- 
2.43.0


From fb63dad91bcc51f260e937dd5fd409885b583e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 33/47] fix: reading a bool with an arbitrary value from the
 network in the levin header

---
 src/P2p/LevinProtocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/P2p/LevinProtocol.cpp b/src/P2p/LevinProtocol.cpp
index a58c7d5..20046bd 100644
--- a/src/P2p/LevinProtocol.cpp
+++ b/src/P2p/LevinProtocol.cpp
@@ -25,7 +25,7 @@ struct bucket_head2
 {
   uint64_t m_signature;
   uint64_t m_cb;
-  bool     m_have_to_return_data;
+  uint8_t  m_have_to_return_data; // comes from the network, may have any value
   uint32_t m_command;
   int32_t  m_return_code;
   uint32_t m_flags;
-- 
2.43.0


From 256f6a8f28bb135f05c605067e91f89e09bffac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 34/47] fix: deeply nested JSON and binary messages exhausted
 the stack

---
 src/Common/JsonValue.cpp                      | 31 ++++++++++++++
 .../KVBinaryInputStreamSerializer.cpp         | 41 ++++++++++++-------
 2 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/src/Common/JsonValue.cpp b/src/Common/JsonValue.cpp
index 1c5539b..7ed49b7 100644
--- a/src/Common/JsonValue.cpp
+++ b/src/Common/JsonValue.cpp
@@ -798,7 +798,38 @@ std::string readStringToken(std::istream& in) {
 }
 
 
+namespace {
+
+// Counts how deeply the value being read is nested: nesting is limited, so that a text cannot exhaust the stack
+class NestingGuard {
+public:
+  explicit NestingGuard(std::istream& in) : m_in(in) {
+    if (m_in.iword(index()) >= MAX_NESTING) {
+      throw std::runtime_error("Unable to parse: nested too deeply");
+    }
+
+    ++m_in.iword(index());
+  }
+
+  ~NestingGuard() {
+    --m_in.iword(index());
+  }
+
+private:
+  static const long MAX_NESTING = 100;
+
+  static int index() {
+    static const int value = std::ios_base::xalloc();
+    return value;
+  }
+
+  std::istream& m_in;
+};
+
+}
+
 std::istream& operator>>(std::istream& in, JsonValue& jsonValue) {
+  NestingGuard guard(in);
   char c = readNonWsChar(in);
 
   if (c == '[') {
diff --git a/src/Serialization/KVBinaryInputStreamSerializer.cpp b/src/Serialization/KVBinaryInputStreamSerializer.cpp
index 0ae385e..08b9c23 100644
--- a/src/Serialization/KVBinaryInputStreamSerializer.cpp
+++ b/src/Serialization/KVBinaryInputStreamSerializer.cpp
@@ -92,26 +92,33 @@ void readName(common::IInputStream& s, std::string& name) {
   }
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type);
-JsonValue loadSection(common::IInputStream& stream);
-JsonValue loadEntry(common::IInputStream& stream);
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType);
+// Nesting is limited, so that a message cannot exhaust the stack
+const size_t MAX_NESTING = 100;
 
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth);
+JsonValue loadSection(common::IInputStream& stream, size_t depth);
+JsonValue loadEntry(common::IInputStream& stream, size_t depth);
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth);
+
+
+JsonValue loadSection(common::IInputStream& stream, size_t depth) {
+  if (depth > MAX_NESTING) {
+    throw std::runtime_error("Binary storage is nested too deeply");
+  }
 
-JsonValue loadSection(common::IInputStream& stream) {
   JsonValue sec(JsonValue::OBJECT);
   size_t count = readVarint(stream);
   std::string name;
 
   while (count--) {
     readName(stream, name);
-    sec.insert(name, loadEntry(stream));
+    sec.insert(name, loadEntry(stream, depth + 1));
   }
 
   return sec;
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth) {
   switch (type) {
   case BIN_KV_SERIALIZE_TYPE_INT64:  return readIntegerJson<int64_t>(stream);
   case BIN_KV_SERIALIZE_TYPE_INT32:  return readIntegerJson<int32_t>(stream);
@@ -124,30 +131,34 @@ JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
   case BIN_KV_SERIALIZE_TYPE_DOUBLE: return readPodJson<double>(stream);
   case BIN_KV_SERIALIZE_TYPE_BOOL:   return JsonValue(read<uint8_t>(stream) != 0);
   case BIN_KV_SERIALIZE_TYPE_STRING: return readStringJson(stream);
-  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream);
-  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type);
+  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream, depth);
+  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type, depth);
   default:
     throw std::runtime_error("Unknown data type");
   }
 }
 
-JsonValue loadEntry(common::IInputStream& stream) {
+JsonValue loadEntry(common::IInputStream& stream, size_t depth) {
   uint8_t type = readPod<uint8_t>(stream);
 
   if (type & BIN_KV_SERIALIZE_FLAG_ARRAY) {
     type &= ~BIN_KV_SERIALIZE_FLAG_ARRAY;
-    return loadArray(stream, type);
+    return loadArray(stream, type, depth);
   }
 
-  return loadValue(stream, type);
+  return loadValue(stream, type, depth);
 }
 
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType) {
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth) {
+  if (depth > MAX_NESTING) {
+    throw std::runtime_error("Binary storage is nested too deeply");
+  }
+
   JsonValue arr(JsonValue::ARRAY);
   size_t count = readVarint(stream);
 
   while (count--) {
-    arr.pushBack(loadValue(stream, itemType));
+    arr.pushBack(loadValue(stream, itemType, depth + 1));
   }
 
   return arr;
@@ -167,7 +178,7 @@ JsonValue parseBinary(common::IInputStream& stream) {
     throw std::runtime_error("Unknown binary storage format version");
   }
 
-  return loadSection(stream);
+  return loadSection(stream, 0);
 }
 
 }
-- 
2.43.0


From e0965ea952453bd50edc46c9be44862858cbae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 35/47] fix: copying from a null pointer when writing an empty
 extra nonce

---
 src/CryptoNoteCore/TransactionExtra.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/TransactionExtra.cpp b/src/CryptoNoteCore/TransactionExtra.cpp
index 9f81181..9894f46 100644
--- a/src/CryptoNoteCore/TransactionExtra.cpp
+++ b/src/CryptoNoteCore/TransactionExtra.cpp
@@ -214,7 +214,10 @@ namespace cn
     tx_extra[start_pos] = static_cast<uint8_t>(extra_nonce.size());
     //write data
     ++start_pos;
-    memcpy(&tx_extra[start_pos], extra_nonce.data(), extra_nonce.size());
+    if (!extra_nonce.empty())
+    {
+      memcpy(&tx_extra[start_pos], extra_nonce.data(), extra_nonce.size());
+    }
     return true;
   }
 
-- 
2.43.0


From 51ba47e2fc62beb13ddcd15598ee721ce134fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 36/47] fix: a connection reset by its peer while idle made
 yield() throw into an unrelated task, and a task could be resumed twice

---
 src/Platform/Linux/System/Dispatcher.cpp    | 31 +++++++++++++--------
 src/Platform/Linux/System/TcpConnection.cpp |  4 +--
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/Platform/Linux/System/Dispatcher.cpp b/src/Platform/Linux/System/Dispatcher.cpp
index 18b62be..07fba4a 100644
--- a/src/Platform/Linux/System/Dispatcher.cpp
+++ b/src/Platform/Linux/System/Dispatcher.cpp
@@ -180,6 +180,11 @@ void Dispatcher::dispatch() {
     int count = epoll_wait(epoll, &event, 1, -1);
     if (count == 1) {
       ContextPair *contextPair = static_cast<ContextPair*>(event.data.ptr);
+      if (contextPair == nullptr) {
+        // an error or hangup of a connection which nobody waits for, its next operation will report it
+        continue;
+      }
+
       if(((event.events & (EPOLLIN | EPOLLOUT)) != 0) && contextPair->readContext == nullptr && contextPair->writeContext == nullptr) {
         uint64_t buf;
         auto transferred = read(remoteSpawnEvent, &buf, sizeof buf);
@@ -327,6 +332,11 @@ void Dispatcher::yield() {
     if(count > 0) {
       for(int i = 0; i < count; ++i) {
         ContextPair *contextPair = static_cast<ContextPair*>(events[i].data.ptr);
+        if (contextPair == nullptr) {
+          // an error or hangup of a connection which nobody waits for, its next operation will report it
+          continue;
+        }
+
         if(((events[i].events & (EPOLLIN | EPOLLOUT)) != 0) && contextPair->readContext == nullptr && contextPair->writeContext == nullptr) {
           uint64_t buf;
           auto transferred = read(remoteSpawnEvent, &buf, sizeof buf);
@@ -348,21 +358,18 @@ void Dispatcher::yield() {
         }
 
         if ((events[i].events & EPOLLOUT) != 0) {
-          if(contextPair->writeContext != nullptr) {
-            if(contextPair->writeContext->context != nullptr) {
-              contextPair->writeContext->context->interruptProcedure = nullptr;
-            }
+          // a waiting context has an interrupt procedure; without it, the context is resuming already
+          if (contextPair->writeContext->context->interruptProcedure != nullptr) {
+            contextPair->writeContext->context->interruptProcedure = nullptr;
+            pushContext(contextPair->writeContext->context);
+            contextPair->writeContext->events = events[i].events;
           }
-          pushContext(contextPair->writeContext->context);
-          contextPair->writeContext->events = events[i].events;
         } else if ((events[i].events & EPOLLIN) != 0) {
-          if(contextPair->readContext != nullptr) {
-            if(contextPair->readContext->context != nullptr) {
-              contextPair->readContext->context->interruptProcedure = nullptr;
-            }
+          if (contextPair->readContext->context->interruptProcedure != nullptr) {
+            contextPair->readContext->context->interruptProcedure = nullptr;
+            pushContext(contextPair->readContext->context);
+            contextPair->readContext->events = events[i].events;
           }
-          pushContext(contextPair->readContext->context);
-          contextPair->readContext->events = events[i].events;
         } else if ((events[i].events & (EPOLLERR | EPOLLHUP)) != 0) {
           throw std::runtime_error("Dispatcher::dispatch, events & (EPOLLERR | EPOLLHUP) != 0");
         } else {
diff --git a/src/Platform/Linux/System/TcpConnection.cpp b/src/Platform/Linux/System/TcpConnection.cpp
index 578f333..ce99876 100644
--- a/src/Platform/Linux/System/TcpConnection.cpp
+++ b/src/Platform/Linux/System/TcpConnection.cpp
@@ -104,7 +104,7 @@ size_t TcpConnection::read(uint8_t* data, size_t size) {
             assert(dispatcher != nullptr);
             assert(contextPair.readContext != nullptr);
             epoll_event connectionEvent;
-            connectionEvent.events = 0;
+            connectionEvent.events = EPOLLONESHOT;
             connectionEvent.data.ptr = nullptr;
 
             if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
@@ -200,7 +200,7 @@ std::size_t TcpConnection::write(const uint8_t* data, size_t size) {
             assert(dispatcher != nullptr);
             assert(contextPair.writeContext != nullptr);
             epoll_event connectionEvent;
-            connectionEvent.events = 0;
+            connectionEvent.events = EPOLLONESHOT;
             connectionEvent.data.ptr = nullptr;
 
             if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
-- 
2.43.0


From 15e3fa125ead0da5ee6f17bf8bdd09ff84b16da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 37/47] fix: crash when a JSON or binary message has an array
 where an object is expected

---
 src/Serialization/JsonInputValueSerializer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Serialization/JsonInputValueSerializer.cpp b/src/Serialization/JsonInputValueSerializer.cpp
index 2882858..850e5e8 100644
--- a/src/Serialization/JsonInputValueSerializer.cpp
+++ b/src/Serialization/JsonInputValueSerializer.cpp
@@ -46,12 +46,20 @@ bool JsonInputValueSerializer::beginObject(common::StringView name) {
 
   if (parent->isArray()) {
     const JsonValue& v = (*parent)[idxs.back()++];
+    if (v.isArray()) {
+      throw serializer_error("Object expected.");
+    }
+
     chain.push_back(&v);
     return true;
   }
 
   if (parent->contains(std::string(name))) {
     const JsonValue& v = (*parent)(std::string(name));
+    if (v.isArray()) {
+      throw serializer_error("Object expected.");
+    }
+
     chain.push_back(&v);
     return true;
   }
-- 
2.43.0


From d83de6cff3718a4315ec634edfe04afc6a02c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 38/47] fix: tasks spawned between the wake-up of a group's
 waiter and its run were dropped

---
 src/System/ContextGroup.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/System/ContextGroup.cpp b/src/System/ContextGroup.cpp
index 0154ea6..116a4da 100644
--- a/src/System/ContextGroup.cpp
+++ b/src/System/ContextGroup.cpp
@@ -84,11 +84,6 @@ void ContextGroup::wait() {
     dispatcher->dispatch();
     assert(context == dispatcher->getCurrentContext());
   }
-  
-  for (NativeContext* context = contextGroup.firstContext; context != nullptr; context = context->groupNext) {
-    context->procedure = nullptr;
-    context->interruptProcedure = nullptr;
-  }
 }
 
 }
-- 
2.43.0


From 79d1c7799f3c3097aa3b3cbb26c8766e965324d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 39/47] fix: interrupting a sleep whose timer had just expired
 was lost

---
 src/Platform/Linux/System/Timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Platform/Linux/System/Timer.cpp b/src/Platform/Linux/System/Timer.cpp
index 68243c6..b1a61be 100644
--- a/src/Platform/Linux/System/Timer.cpp
+++ b/src/Platform/Linux/System/Timer.cpp
@@ -109,7 +109,9 @@ void Timer::sleep(std::chrono::nanoseconds duration) {
               throw std::runtime_error("Timer::interrupt, read failed, "  + lastErrorMessage());
             }
           } else {
+            // the timer has expired already, the next operation of the context will be interrupted
             assert(value>0);
+            timerContext->context->interrupted = true;
             dispatcher->pushContext(timerContext->context);
           }
 
-- 
2.43.0


From 6b965dc0c879d0237cc8ba90cbae6e7e3a99637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 40/47] fix: stopping a message queue made its waiting reader
 read from an empty queue

---
 src/CryptoNoteCore/MessageQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/MessageQueue.h b/src/CryptoNoteCore/MessageQueue.h
index 1be2bdb..86f6c09 100644
--- a/src/CryptoNoteCore/MessageQueue.h
+++ b/src/CryptoNoteCore/MessageQueue.h
@@ -60,7 +60,7 @@ MessageQueue<MessageType>::MessageQueue(platform_system::Dispatcher& dispatcher)
 
 template<class MessageType>
 void MessageQueue<MessageType>::wait() {
-  if (messageQueue.empty()) {
+  while (messageQueue.empty()) {
     if (stopped) {
       throw platform_system::InterruptedException();
     }
-- 
2.43.0


From 0c5ae6c4444504f1469bc9b982ece3d3fcc978a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 41/47] fix: interrupting a read disarmed a write waiting on
 the same connection, and vice versa

---
 src/Platform/Linux/System/TcpConnection.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/Platform/Linux/System/TcpConnection.cpp b/src/Platform/Linux/System/TcpConnection.cpp
index ce99876..5ddd16d 100644
--- a/src/Platform/Linux/System/TcpConnection.cpp
+++ b/src/Platform/Linux/System/TcpConnection.cpp
@@ -104,8 +104,13 @@ size_t TcpConnection::read(uint8_t* data, size_t size) {
             assert(dispatcher != nullptr);
             assert(contextPair.readContext != nullptr);
             epoll_event connectionEvent;
-            connectionEvent.events = EPOLLONESHOT;
-            connectionEvent.data.ptr = nullptr;
+            if (contextPair.writeContext != nullptr && contextPair.writeContext->context->interruptProcedure != nullptr) { //write is waiting, keep it armed
+              connectionEvent.events = EPOLLOUT | EPOLLONESHOT;
+              connectionEvent.data.ptr = &contextPair;
+            } else {
+              connectionEvent.events = EPOLLONESHOT;
+              connectionEvent.data.ptr = nullptr;
+            }
 
             if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
               throw std::runtime_error("TcpConnection::stop, epoll_ctl failed, " + lastErrorMessage());
@@ -200,8 +205,13 @@ std::size_t TcpConnection::write(const uint8_t* data, size_t size) {
             assert(dispatcher != nullptr);
             assert(contextPair.writeContext != nullptr);
             epoll_event connectionEvent;
-            connectionEvent.events = EPOLLONESHOT;
-            connectionEvent.data.ptr = nullptr;
+            if (contextPair.readContext != nullptr && contextPair.readContext->context->interruptProcedure != nullptr) { //read is waiting, keep it armed
+              connectionEvent.events = EPOLLIN | EPOLLONESHOT;
+              connectionEvent.data.ptr = &contextPair;
+            } else {
+              connectionEvent.events = EPOLLONESHOT;
+              connectionEvent.data.ptr = nullptr;
+            }
 
             if (epoll_ctl(dispatcher->getEpoll(), EPOLL_CTL_MOD, connection, &connectionEvent) == -1) {
               throw std::runtime_error("TcpConnection::stop, epoll_ctl failed, " + lastErrorMessage());
-- 
2.43.0


From f533719ef9410d4e4a5f30bb7882b8f2c8e8613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 42/47] fix: the last data of a connection closed by both sides
 was discarded

---
 src/Platform/Linux/System/TcpConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Platform/Linux/System/TcpConnection.cpp b/src/Platform/Linux/System/TcpConnection.cpp
index 5ddd16d..87aeaf6 100644
--- a/src/Platform/Linux/System/TcpConnection.cpp
+++ b/src/Platform/Linux/System/TcpConnection.cpp
@@ -143,7 +143,8 @@ size_t TcpConnection::read(uint8_t* data, size_t size) {
           }
         }
 
-        if((operationContext.events & (EPOLLERR | EPOLLHUP)) != 0) {
+        // when both sides have finished sending, the hangup comes along with the last data
+        if((operationContext.events & EPOLLERR) != 0 || (operationContext.events & (EPOLLHUP | EPOLLIN)) == EPOLLHUP) {
           throw std::runtime_error("TcpConnection::read");
         }
 
-- 
2.43.0


From 3a3f448e259f1b43956bfe0d778f8218a0454989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 43/47] fix: a block template could mix the chain's tip with
 the pool's transactions for another tip

---
 src/CryptoNoteCore/Core.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 54085ef..3884d47 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -373,8 +373,11 @@ bool core::get_block_template(Block& b, const AccountPublicAddress& adr, difficu
   size_t median_size;
   uint64_t already_generated_coins;
 
+  // the transactions are chosen for the very chain the block builds on
+  std::lock_guard<decltype(m_mempool)> poolLock(m_mempool);
+  LockedBlockchainStorage blockchainLock(m_blockchain);
+
   {
-    LockedBlockchainStorage blockchainLock(m_blockchain);
     height = m_blockchain.getCurrentBlockchainHeight();
     diffic = m_blockchain.getDifficultyForNextBlock();
     if (!(diffic)) {
-- 
2.43.0


From cd6bd7edf6dfcdc0a0825ae6b4a25aa19ee805b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 44/47] fix: looking up a spent transfer read through an end
 iterator

---
 src/Transfers/TransfersContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 635d499..5ee3cc9 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -845,7 +845,7 @@ bool TransfersContainer::getTransfer(const crypto::Hash& transactionHash, uint32
 
   auto spentIt = spentIndex.find(transferId);
   if (spentIt != spentIndex.end()) {
-    transfer = *unconfirmedIt;
+    transfer = *spentIt;
     transferState = TransferState::TransferSpent;
     return true;
   }
-- 
2.43.0


From e28e2471f2c46fc336537dfd590fbfecf05bc27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 45/47] fix: detaching could keep an output of a removed
 transaction spent by another one

---
 src/Transfers/TransfersContainer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 5ee3cc9..357b814 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -473,6 +473,17 @@ void TransfersContainer::deleteTransactionTransfers(const crypto::Hash& transact
 
     const TransactionOutputInformationEx& unspendingTransfer = static_cast<const TransactionOutputInformationEx&>(*it);
 
+    if (m_transactions.count(unspendingTransfer.transactionHash) == 0) {
+      // the transaction with this output is being deleted as well and was deleted first
+      KeyImage keyImage = unspendingTransfer.keyImage;
+      bool isKey = unspendingTransfer.type == transaction_types::OutputType::Key;
+      it = spendingTransactionIndex.erase(it);
+      if (isKey) {
+        updateTransfersVisibility(keyImage);
+      }
+      continue;
+    }
+
     addUnlockJob(unspendingTransfer);
     auto result = m_availableTransfers.emplace(unspendingTransfer);
     assert(result.second);
-- 
2.43.0


From 49b84addf336e2e3c6337216fc3e9eb82653f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 46/47] fix: a lock longer than 32 bits was announced as ending
 early

---
 src/Transfers/TransfersContainer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 357b814..1d82b0b 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -7,6 +7,7 @@
 
 #include "TransfersContainer.h"
 #include "IWalletLegacy.h"
+#include <limits>
 #include "Common/StdInputStream.h"
 #include "Common/StdOutputStream.h"
 #include "CryptoNoteCore/CryptoNoteFormatUtils.h"
@@ -91,7 +92,9 @@ namespace {
   TransferUnlockJob makeTransferUnlockJob(const TransactionOutputInformationEx& output, uint32_t transactionSpendableAge) {
     TransferUnlockJob job;
 
-    uint32_t unlockTime = static_cast<uint32_t>(output.unlockTime == 0 ? output.blockHeight : output.unlockTime);
+    uint32_t unlockTime = static_cast<uint32_t>(output.unlockTime == 0
+      ? output.blockHeight
+      : std::min<uint64_t>(output.unlockTime, std::numeric_limits<uint32_t>::max()));
 
     if (output.type == transaction_types::OutputType::Multisignature && output.term != 0) {
       job.unlockHeight = std::max({ unlockTime, output.blockHeight + output.term, output.blockHeight + transactionSpendableAge + 1 });
-- 
2.43.0


From 8925f716c6da33ea20bfc137f10cf0248be69f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 47/47] fix: reading an old wallet's outputs failed on those
 already spent

---
 src/Transfers/TransfersContainer.cpp | 10 ++--------
 src/Transfers/TransfersContainer.h   |  3 +--
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 1d82b0b..c88299e 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -910,7 +910,7 @@ void TransfersContainer::load(std::istream& in) {
   if (version != 0) {
     readSequence<TransferUnlockJob>(std::inserter(transfersUnlockJobs, transfersUnlockJobs.end()), "transfersUnlockJobs", s);
   } else {
-    rebuildTransfersUnlockJobs(transfersUnlockJobs, availableTransfers, spentTransfers);
+    rebuildTransfersUnlockJobs(transfersUnlockJobs, availableTransfers);
   }
 
   m_currentHeight = currentHeight;
@@ -921,18 +921,12 @@ void TransfersContainer::load(std::istream& in) {
   m_transfersUnlockJobs = std::move(transfersUnlockJobs);
 }
 
-void TransfersContainer::rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers,
-    const SpentTransfersMultiIndex& spentTransfers) {
+void TransfersContainer::rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers) {
 
   for (auto it = availableTransfers.begin(); it != availableTransfers.end(); ++it) {
     TransferUnlockJob job = makeTransferUnlockJob(*it, static_cast<uint32_t>(m_transactionSpendableAge));
     transfersUnlockJobs.emplace(std::move(job));
   }
-
-  for (auto it = spentTransfers.begin(); it != spentTransfers.end(); ++it) {
-    TransferUnlockJob job = makeTransferUnlockJob(*it, static_cast<uint32_t>(m_transactionSpendableAge));
-    transfersUnlockJobs.emplace(std::move(job));
-  }
 }
 
 bool TransfersContainer::isSpendTimeUnlocked(const TransactionOutputInformationEx& info) const {
diff --git a/src/Transfers/TransfersContainer.h b/src/Transfers/TransfersContainer.h
index ec9765b..26da24d 100644
--- a/src/Transfers/TransfersContainer.h
+++ b/src/Transfers/TransfersContainer.h
@@ -359,8 +359,7 @@ private:
 
   void copyToSpent(const TransactionBlockInfo& block, const ITransactionReader& tx, size_t inputIndex, const TransactionOutputInformationEx& output);
 
-  void rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers,
-                                  const SpentTransfersMultiIndex& spentTransfers);
+  void rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers);
   std::vector<TransactionOutputInformation> doAdvanceHeight(uint32_t height);
 
 private:
-- 
2.43.0


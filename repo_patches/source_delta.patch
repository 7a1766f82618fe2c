From cf29bea2675e59313e04afc410e62fe025af86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 01/56] fix: keep trie-held token balances when account changes
 are undone, copied or carried over

---
 core/state/journal.go      |  5 +++--
 core/state/state_object.go |  2 +-
 core/state/statedb.go      |  4 ++--
 core/types/token.go        | 14 ++++++++++++++
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/state/journal.go b/core/state/journal.go
index ba3461a..c9ea3ae 100644
--- a/core/state/journal.go
+++ b/core/state/journal.go
@@ -19,6 +19,7 @@ package state
 import (
 	"math/big"
 
+	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 )
 
@@ -95,7 +96,7 @@ type (
 	suicideChange struct {
 		account     *common.Address
 		prev        bool // whether account had already suicided
-		prevbalance map[uint64]*big.Int
+		prevbalance *types.TokenBalances
 	}
 
 	// Changes to individual accounts.
@@ -154,7 +155,7 @@ func (ch suicideChange) revert(s *StateDB) {
 	obj := s.getStateObject(*ch.account)
 	if obj != nil {
 		obj.suicided = ch.prev
-		obj.setBalances(ch.prevbalance)
+		obj.data.TokenBalances = ch.prevbalance
 	}
 }
 
diff --git a/core/state/state_object.go b/core/state/state_object.go
index c58f99c..60f7333 100644
--- a/core/state/state_object.go
+++ b/core/state/state_object.go
@@ -339,7 +339,7 @@ func (self *stateObject) setTokenBalance(amount *big.Int, tokenID uint64) {
 }
 
 func (self *stateObject) setBalances(balances map[uint64]*big.Int) {
-	self.data.TokenBalances = types.NewTokenBalancesWithMap(balances)
+	self.data.TokenBalances = self.data.TokenBalances.WithBalances(balances)
 }
 
 // Return the gas back to the origin. Used by the Virtual machine or Closures
diff --git a/core/state/statedb.go b/core/state/statedb.go
index 9215734..b4cd221 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -403,7 +403,7 @@ func (s *StateDB) Suicide(addr common.Address) bool {
 	s.journal.append(suicideChange{
 		account:     &addr,
 		prev:        stateObject.suicided,
-		prevbalance: stateObject.data.TokenBalances.GetBalanceMap(),
+		prevbalance: stateObject.data.TokenBalances,
 	})
 	stateObject.markSuicided()
 	stateObject.data.TokenBalances, _ = types.NewTokenBalances([]byte{}, s.db.TrieDB())
@@ -532,7 +532,7 @@ func (s *StateDB) createObject(addr common.Address) (newobj, prev *stateObject)
 func (s *StateDB) CreateAccount(addr common.Address) {
 	new, prev := s.createObject(addr)
 	if prev != nil {
-		new.setBalances(prev.data.TokenBalances.GetBalanceMap())
+		new.data.TokenBalances = prev.data.TokenBalances.CopyWithDB()
 	}
 }
 
diff --git a/core/types/token.go b/core/types/token.go
index 7d98ce9..f18c2c3 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -213,9 +213,23 @@ func (t *TokenBalances) CopyWithDB() *TokenBalances {
 	data := t.Copy()
 	data.db = t.db
 	data.tokenTrie = t.tokenTrie
+	if t.tokenTrie != nil {
+		// the trie is mutable, copies must not share it
+		data.tokenTrie = t.tokenTrie.Copy()
+	}
 	return data
 }
 
+// WithBalances returns token balances using the given cache on top of the same
+// database and token trie.
+func (t *TokenBalances) WithBalances(balances map[uint64]*big.Int) *TokenBalances {
+	return &TokenBalances{
+		db:        t.db,
+		tokenTrie: t.tokenTrie,
+		balances:  balances,
+	}
+}
+
 func (t *TokenBalances) Copy() *TokenBalances {
 	balancesCopy := make(map[uint64]*big.Int)
 	for k, v := range t.balances {
-- 
2.43.0


From 87de96f3aba89bfb01efb331ef31b3b9f11359c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:12 +0000
Subject: [PATCH 02/56] fix: flush the token trie of an account together with
 the state that refers to it

---
 core/state/statedb.go | 3 +++
 core/types/token.go   | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/core/state/statedb.go b/core/state/statedb.go
index b4cd221..e3d25c1 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -727,6 +727,9 @@ func (s *StateDB) Commit(deleteEmptyObjects bool) (root common.Hash, err error)
 		if account.Root != emptyState {
 			s.db.TrieDB().Reference(account.Root, parent)
 		}
+		if tokenRoot := account.TokenBalances.TrieRoot(); tokenRoot != (common.Hash{}) {
+			s.db.TrieDB().Reference(tokenRoot, parent)
+		}
 		code := common.BytesToHash(account.CodeHash)
 		if code != emptyCode {
 			s.db.TrieDB().Reference(code, parent)
diff --git a/core/types/token.go b/core/types/token.go
index f18c2c3..4225f6e 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -220,6 +220,14 @@ func (t *TokenBalances) CopyWithDB() *TokenBalances {
 	return data
 }
 
+// TrieRoot returns the root of the token trie, or the zero hash if there is none.
+func (t *TokenBalances) TrieRoot() common.Hash {
+	if t == nil || t.tokenTrie == nil {
+		return common.Hash{}
+	}
+	return t.tokenTrie.Hash()
+}
+
 // WithBalances returns token balances using the given cache on top of the same
 // database and token trie.
 func (t *TokenBalances) WithBalances(balances map[uint64]*big.Int) *TokenBalances {
-- 
2.43.0


From 2e67f770c63f392fadb889a9ccab8e47f0ff424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 03/56] fix: list the balances held in the token trie too

---
 core/state/statedb.go |  2 +-
 core/types/token.go   | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/state/statedb.go b/core/state/statedb.go
index e3d25c1..e144f5c 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -237,7 +237,7 @@ func (s *StateDB) GetBalance(addr common.Address, tokenID uint64) *big.Int {
 func (s *StateDB) GetBalances(addr common.Address) *types.TokenBalances {
 	stateObject := s.GetOrNewStateObject(addr)
 	if stateObject != nil {
-		return stateObject.data.TokenBalances.Copy()
+		return stateObject.data.TokenBalances.CopyAll()
 	}
 	return types.NewEmptyTokenBalances()
 }
diff --git a/core/types/token.go b/core/types/token.go
index 4225f6e..330ac87 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -248,6 +248,27 @@ func (t *TokenBalances) Copy() *TokenBalances {
 	}
 }
 
+// CopyAll is like Copy, and includes the balances held in the token trie only.
+func (t *TokenBalances) CopyAll() *TokenBalances {
+	data := t.Copy()
+	if t.tokenTrie == nil {
+		return data
+	}
+	it := trie.NewIterator(t.tokenTrie.NodeIterator(nil))
+	for it.Next() {
+		tokenID := new(big.Int).SetBytes(t.tokenTrie.GetKey(it.Key)).Uint64()
+		if _, ok := data.balances[tokenID]; ok {
+			continue
+		}
+		balance := new(big.Int)
+		if err := rlp.DecodeBytes(it.Value, balance); err != nil {
+			panic(err)
+		}
+		data.balances[tokenID] = balance
+	}
+	return data
+}
+
 func (t *TokenBalances) notUsingTrie() bool {
 	return t.tokenTrie == nil && t.nonZeroEntriesInBalancesCache() <= TokenTrieThreshold
 }
-- 
2.43.0


From eb36c4d8d419717f40e0b3dd7d7133a83217e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:56 +0000
Subject: [PATCH 04/56] fix: do not encode zero token balances, which decoding
 drops

---
 core/types/token.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/types/token.go b/core/types/token.go
index 330ac87..72c6b4b 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -357,7 +357,11 @@ func (t *TokenBalances) DecodeRLP(s *rlp.Stream) error {
 func (t *TokenBalances) Serialize(w *[]byte) error {
 	keys := make([]uint64, 0, t.Len())
 	num := uint32(0)
-	for k := range t.balances {
+	for k, v := range t.balances {
+		// zero balances are dropped when decoding, so they must not be encoded
+		if v.Cmp(common.Big0) == 0 {
+			continue
+		}
 		keys = append(keys, k)
 		num++
 	}
-- 
2.43.0


From 929c84caf190e8d11e4342dd74a103fe03569e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:03 +0000
Subject: [PATCH 05/56] fix: do not cache missing receipts of a block that is
 being inserted

---
 core/minorblockchain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 8e1e66f..898e2d9 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -613,6 +613,10 @@ func (m *MinorBlockChain) GetReceiptsByHash(hash common.Hash) types.Receipts {
 		return nil
 	}
 	receipts := rawdb.ReadReceipts(m.db, hash)
+	if len(receipts) == 0 {
+		// may not be written yet (block being inserted), do not remember that
+		return receipts
+	}
 	m.receiptsCache.Add(hash, receipts)
 	return receipts
 }
-- 
2.43.0


From 5056818057f487f6b5c738a427dfbb8528367a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 06/56] fix: forget canonical minor blocks above a shorter new
 head

---
 core/minorblockchain_addon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 3dbad5d..7ec2c00 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1366,7 +1366,14 @@ func (m *MinorBlockChain) reWriteBlockIndexTo(oldBlock *types.MinorBlock, newBlo
 	if oldBlock == nil {
 		oldBlock = m.CurrentBlock()
 	}
-	return m.reorg(oldBlock, newBlock)
+	if err := m.reorg(oldBlock, newBlock); err != nil {
+		return err
+	}
+	// The new chain may be shorter: forget the canonical blocks above its head
+	for number := newBlock.NumberU64() + 1; rawdb.ReadCanonicalHash(m.db, rawdb.ChainTypeMinor, number) != (common.Hash{}); number++ {
+		rawdb.DeleteCanonicalHash(m.db, rawdb.ChainTypeMinor, number)
+	}
+	return nil
 }
 
 func (m *MinorBlockChain) GetBranch() account.Branch {
-- 
2.43.0


From a9943f391051944c04d069c1f94f06a60e144ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:35 +0000
Subject: [PATCH 07/56] fix: a block below another one does not descend from
 it, do not stop the process

---
 core/common.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/common.go b/core/common.go
index 00cf3c4..9551612 100644
--- a/core/common.go
+++ b/core/common.go
@@ -1,8 +1,6 @@
 package core
 
 import (
-	"runtime/debug"
-
 	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/log"
@@ -14,8 +12,8 @@ var (
 
 func isSameChain(getParentHash func(common.Hash) common.Hash, longerChainHeader, shorterChainHeader types.IBlock) bool {
 	if longerChainHeader.NumberU64() < shorterChainHeader.NumberU64() {
-		debug.PrintStack()
-		log.Crit("wrong parameter order", "long.Number", longerChainHeader.NumberU64(), "long.Hash", longerChainHeader.Hash().String(), "short.Number", shorterChainHeader.NumberU64(), "short.hash", shorterChainHeader.Hash().String())
+		// e.g. a block of a longer, but lighter fork: a block cannot descend from a higher one
+		return false
 	}
 	if shorterChainHeader.NumberU64() == longerChainHeader.NumberU64() {
 		return shorterChainHeader.Hash() == longerChainHeader.Hash()
-- 
2.43.0


From 65103a8abd02c30d71b3e0c9b5b4281157f0f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 08/56] fix: forget canonical root blocks above a shorter new
 head

---
 core/rootblockchain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 0492f8c..77a3acb 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -802,6 +802,7 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		oldChain       []types.IBlock
 		commonBlock    types.IBlock
 		deletedHeaders types.MinorBlockHeaders
+		newBlockNumber = newBlock.NumberU64()
 	)
 
 	// first reduce whoever is higher bound
@@ -861,6 +862,10 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(bc.db, newChain[i].(*types.RootBlock), nil)
 		addedHeaders = append(addedHeaders, newChain[i].(*types.RootBlock).MinorBlockHeaders()...)
 	}
+	// The new chain may be shorter: forget the canonical blocks above its head
+	for number := newBlockNumber + 1; rawdb.ReadCanonicalHash(bc.db, rawdb.ChainTypeRoot, number) != (common.Hash{}); number++ {
+		rawdb.DeleteCanonicalHash(bc.db, rawdb.ChainTypeRoot, number)
+	}
 	// calculate the difference between deleted and added transactions
 	diff := types.MinorHeaderDifference(deletedHeaders, addedHeaders)
 	// When transactions get deleted from the database that means the
-- 
2.43.0


From ef2523949502c42c0e7bccb77441b15e6574391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:57 +0000
Subject: [PATCH 09/56] fix: forget the production counts an abandoned root
 block left at the same height

---
 core/rootblockchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 77a3acb..f0d5137 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -1364,6 +1364,12 @@ func (bc *RootBlockChain) PutRootBlockIndex(block *types.RootBlock) error {
 		}
 		rawdb.WriteMinorBlockCnt(bc.db, fullShardID, block.Number(), data)
 	}
+	// a fork may have left counts of other shards at this height
+	for _, fullShardID := range bc.chainConfig.GetInitializedShardIdsBeforeRootHeight(block.Number()) {
+		if _, ok := shardRecipientCnt[fullShardID]; !ok && len(rawdb.GetMinorBlockCnt(bc.db, fullShardID, block.Number())) > 0 {
+			rawdb.WriteMinorBlockCnt(bc.db, fullShardID, block.Number(), nil)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 147e8b712d6261f4de461f570e1bf8e48ef276e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:06 +0000
Subject: [PATCH 10/56] fix: keep the in-shard gas limit when verifying a block

runBlock lowers the gas limit of the state by the part of the cross-shard
limit that was not used, as the block builder does, but Process then set it
back to the whole block gas limit, so blocks exceeding it were accepted.
---
 core/state_processor.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/state_processor.go b/core/state_processor.go
index 15d4cb7..1bf008d 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -63,7 +63,6 @@ func NewStateProcessor(config *params.ChainConfig, bc *MinorBlockChain, engine c
 func (p *StateProcessor) Process(block *types.MinorBlock, statedb *state.StateDB, cfg vm.Config) (types.Receipts, []*types.Log, uint64, error) {
 	statedb.SetQuarkChainConfig(p.bc.clusterConfig.Quarkchain)
 	statedb.SetBlockCoinbase(block.Coinbase().Recipient)
-	statedb.SetGasLimit(block.GasLimit())
 	var (
 		receipts types.Receipts
 		usedGas  = new(uint64)
-- 
2.43.0


From 149cb2f76fbd2d21c0210a1a219df2806411f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:50 +0000
Subject: [PATCH 11/56] fix: report the error of each transaction of a batch
 for that transaction

---
 core/tx_pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 3d51844..4c995ef 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -665,6 +665,7 @@ func (pool *TxPool) addTxs(txs []*types.Transaction, local, sync bool) []error {
 			nilSlot++
 		}
 		errs[nilSlot] = err
+		nilSlot++
 	}
 	// Reorg the pool internals if needed and return
 	done := pool.requestPromoteExecutables(dirtyAddrs)
-- 
2.43.0


From ee63ea7584f6dda392ebfdd6f65b88bf0ee9412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:50 +0000
Subject: [PATCH 12/56] fix: drop pooled transactions the sender cannot pay,
 per token

---
 core/tx_list.go | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/core/tx_list.go b/core/tx_list.go
index 442965f..6a3a3c8 100644
--- a/core/tx_list.go
+++ b/core/tx_list.go
@@ -227,6 +227,18 @@ type txList struct {
 	gascap  uint64              // Gas limit of the highest spending transaction (reset only if exceeds block limit)
 }
 
+// tokenCosts returns what a transaction may cost its sender in every token it spends.
+func tokenCosts(tx *types.Transaction) map[uint64]*big.Int {
+	fee := new(big.Int).Mul(tx.EvmTx.GasPrice(), new(big.Int).SetUint64(tx.EvmTx.Gas()))
+	costs := map[uint64]*big.Int{tx.EvmTx.GasTokenID(): fee}
+	if value := costs[tx.EvmTx.TransferTokenID()]; value != nil {
+		value.Add(value, tx.EvmTx.Value())
+	} else {
+		costs[tx.EvmTx.TransferTokenID()] = new(big.Int).Set(tx.EvmTx.Value())
+	}
+	return costs
+}
+
 // newTxList create a new transaction list for maintaining nonce-indexable fast,
 // gapped, sortable transaction lists.
 func newTxList(strict bool) *txList {
@@ -263,8 +275,10 @@ func (l *txList) Add(tx *types.Transaction, priceBump uint64) (bool, *types.Tran
 	// Otherwise overwrite the old transaction with the current one
 	l.txs.Put(tx)
 
-	if cost := tx.EvmTx.Cost(); l.cmpCostCapValue(tx.EvmTx.TransferTokenID(), cost) < 0 {
-		l.costcap[tx.EvmTx.TransferTokenID()] = cost
+	for token, cost := range tokenCosts(tx) {
+		if l.cmpCostCapValue(token, cost) < 0 {
+			l.costcap[token] = cost
+		}
 	}
 	if gas := tx.EvmTx.Gas(); l.gascap < gas {
 		l.gascap = gas
@@ -297,21 +311,27 @@ func (l *txList) Forward(threshold uint64) types.Transactions {
 // the newly invalidated transactions.
 func (l *txList) Filter(costLimit map[uint64]*big.Int, gasLimit uint64) (types.Transactions, types.Transactions) {
 	// If all transactions are below the threshold, short circuit
-	for token, bal := range costLimit {
-		if l.cmpCostCapValue(token, bal) <= 0 && l.gascap <= gasLimit {
-			return nil, nil
+	affordable := func(costs map[uint64]*big.Int) bool {
+		for token, cost := range costs {
+			if limit := costLimit[token]; cost.Sign() > 0 && (limit == nil || cost.Cmp(limit) > 0) {
+				return false
+			}
 		}
+		return true
+	}
+	if affordable(l.costcap) && l.gascap <= gasLimit {
+		return nil, nil
 	}
 
-	l.costcap = costLimit // Lower the caps to the thresholds
+	l.costcap = make(map[uint64]*big.Int) // Lower the caps to the thresholds
+	for token, limit := range costLimit {
+		l.costcap[token] = limit
+	}
 	l.gascap = gasLimit
 
 	// Filter out all the transactions above the account's funds
 	removed := l.txs.Filter(func(tx *types.Transaction) bool {
-		if costLimit[tx.EvmTx.TransferTokenID()] == nil {
-			costLimit[tx.EvmTx.TransferTokenID()] = new(big.Int)
-		}
-		return tx.EvmTx.Cost().Cmp(costLimit[tx.EvmTx.TransferTokenID()]) > 0 || tx.EvmTx.Gas() > gasLimit
+		return !affordable(tokenCosts(tx)) || tx.EvmTx.Gas() > gasLimit
 	})
 
 	// If the list was strict, filter anything above the lowest nonce
-- 
2.43.0


From 813625bbc2492daad461393be48f1c932d26114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:50 +0000
Subject: [PATCH 13/56] fix: announce the new head when a root block switches
 the shard's chain

---
 core/minorblockchain_addon.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 7ec2c00..ba3725a 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1142,6 +1142,7 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		m.PostChainEvents([]interface{}{MinorChainHeadEvent{newBlock}}, nil)
 	}
 	return true, nil
 }
-- 
2.43.0


From b9f5455f7b6e452e6d06a8015b8aa5bebcc67a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:50 +0000
Subject: [PATCH 14/56] fix: leave no trace of pooled transactions that do not
 fit into the block being built

---
 core/minorblockchain_addon.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index ba3725a..892de53 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -820,6 +820,7 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 	}
 	gp := new(GasPool).AddGas(block.GasLimit().Uint64())
 	usedGas := new(uint64)
+	xShardGasLimit := block.GetXShardGasLimit().Uint64()
 
 	receipts := make([]*types.Receipt, 0)
 	txsInBlock := make([]*types.Transaction, 0)
@@ -840,7 +841,18 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 
 		}
 		stateT.Prepare(tx.Hash(), block.Hash(), txIndex)
-		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		snapshot, gasLeft := stateT.Snapshot(), gp.Gas()
+		var receipt *types.Receipt
+		// the block's verifier requires the same
+		_, err := m.validateTx(tx, stateT, nil, nil, &xShardGasLimit)
+		if err == nil {
+			_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		}
+		if err != nil {
+			// a transaction that is left out leaves no trace
+			stateT.RevertToSnapshot(snapshot)
+			*gp = GasPool(gasLeft)
+		}
 		switch err {
 		case ErrGasLimitReached:
 			txs.Pop()
-- 
2.43.0


From 704f040f36548524845f7d262fbf15c6a34862f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:04 +0000
Subject: [PATCH 15/56] fix: finish an interrupted insertion of a root block
 when it is added again

---
 core/rootblockchain.go | 59 ++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index f0d5137..5b49a81 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -440,6 +440,17 @@ func (bc *RootBlockChain) WriteBlockWithoutState(block types.IBlock) (err error)
 	return nil
 }
 
+// isBetterRootBlock tells whether the chain should move from the current head to the block.
+func isBetterRootBlock(block, current *types.RootBlock) bool {
+	// If the total difficulty is higher than our known, add it to the canonical chain
+	// Second clause in the if statement reduces the vulnerability to selfish mining.
+	// Please refer to http://www.cs.cornell.edu/~ie53/publications/btcProcFC.pdf
+	cmp := block.TotalDifficulty().Cmp(current.TotalDifficulty())
+	// Split same-difficulty blocks by number, then preferentially select
+	// the block generated by the local miner as the canonical block.
+	return cmp > 0 || cmp == 0 && block.NumberU64() < current.NumberU64()
+}
+
 //todo
 // WriteBlockWithState writes the block and all associated state to the database.
 func (bc *RootBlockChain) WriteBlockWithState(block *types.RootBlock) (status WriteStatus, err error) {
@@ -450,28 +461,14 @@ func (bc *RootBlockChain) WriteBlockWithState(block *types.RootBlock) (status Wr
 	bc.mu.Lock()
 	defer bc.mu.Unlock()
 
-	currentBlock := bc.CurrentBlock()
-	localTd := currentBlock.TotalDifficulty()
-	externTd := block.TotalDifficulty()
-
 	rawdb.WriteRootBlock(bc.db, block)
 	bc.blockCache.Add(block.Hash(), block)
 
 	// Write other block data using a batch.
 	batch := bc.db.NewBatch()
 
-	// If the total difficulty is higher than our known, add it to the canonical chain
-	// Second clause in the if statement reduces the vulnerability to selfish mining.
-	// Please refer to http://www.cs.cornell.edu/~ie53/publications/btcProcFC.pdf
-	reorg := externTd.Cmp(localTd) > 0
-	currentBlock = bc.CurrentBlock()
-	if !reorg && externTd.Cmp(localTd) == 0 {
-		// Split same-difficulty blocks by number, then preferentially select
-		// the block generated by the local miner as the canonical block.
-		if block.NumberU64() < currentBlock.NumberU64() {
-			reorg = true
-		}
-	}
+	currentBlock := bc.CurrentBlock()
+	reorg := isBetterRootBlock(block, currentBlock)
 	if reorg {
 		// Reorganise the chain if the parent is not the head block
 		if block.ParentHash() != currentBlock.Hash() {
@@ -601,11 +598,20 @@ func (bc *RootBlockChain) insertChain(chain []types.IBlock, verifySeals bool) (i
 	//   2. The block is stored as a sidechain, and is lying about it's stateroot, and passes a stateroot
 	// 	    from the canonical chain, which has not been verified.
 	case err == ErrKnownBlock:
-		// Skip all known blocks that behind us
-		current := bc.CurrentBlock().NumberU64()
-
-		for block != nil && err == ErrKnownBlock && current >= block.NumberU64() {
-			stats.ignored++
+		// Skip all known blocks, except those that are better than the current
+		// head: they were stored, but the insertion was interrupted before the
+		// chain moved to them
+		for block != nil && err == ErrKnownBlock {
+			rootBlock := block.(*types.RootBlock)
+			if !isBetterRootBlock(rootBlock, bc.CurrentBlock()) {
+				stats.ignored++
+			} else {
+				if _, err := bc.WriteBlockWithState(rootBlock); err != nil {
+					return it.index, events, err
+				}
+				lastCanon = rootBlock
+				events = append(events, RootChainEvent{lastCanon, block.Hash()})
+			}
 			block, err = it.next()
 		}
 		// Falls through to the block import
@@ -802,6 +808,7 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		oldChain       []types.IBlock
 		commonBlock    types.IBlock
 		deletedHeaders types.MinorBlockHeaders
+		oldBlockNumber = oldBlock.NumberU64()
 		newBlockNumber = newBlock.NumberU64()
 	)
 
@@ -853,6 +860,12 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	} else {
 		log.Error("Impossible reorg, please file an issue", "oldnum", oldBlock.NumberU64(), "oldhash", oldBlock.Hash(), "newnum", newBlock.NumberU64(), "newhash", newBlock.Hash())
 	}
+	// The new chain may be shorter: forget the canonical blocks above its head. This is
+	// done from the top and before the head moves, so that it is not left half done if
+	// the process stops in between
+	for number := oldBlockNumber; number > newBlockNumber; number-- {
+		rawdb.DeleteCanonicalHash(bc.db, rawdb.ChainTypeRoot, number)
+	}
 	// Insert the new chain, taking care of the proper incremental order
 	var addedHeaders types.MinorBlockHeaders
 	for i := len(newChain) - 1; i >= 0; i-- {
@@ -862,10 +875,6 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(bc.db, newChain[i].(*types.RootBlock), nil)
 		addedHeaders = append(addedHeaders, newChain[i].(*types.RootBlock).MinorBlockHeaders()...)
 	}
-	// The new chain may be shorter: forget the canonical blocks above its head
-	for number := newBlockNumber + 1; rawdb.ReadCanonicalHash(bc.db, rawdb.ChainTypeRoot, number) != (common.Hash{}); number++ {
-		rawdb.DeleteCanonicalHash(bc.db, rawdb.ChainTypeRoot, number)
-	}
 	// calculate the difference between deleted and added transactions
 	diff := types.MinorHeaderDifference(deletedHeaders, addedHeaders)
 	// When transactions get deleted from the database that means the
-- 
2.43.0


From dfc7f229ce6c450498ddcf7f73467de006ebffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:04 +0000
Subject: [PATCH 16/56] fix: move a shard's head in one database write

---
 core/minorblockchain.go       | 65 ++++++++++++++++++++++-------------
 core/minorblockchain_addon.go |  8 ++---
 2 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 898e2d9..3940139 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -311,20 +311,18 @@ func (m *MinorBlockChain) loadLastState() error {
 func (m *MinorBlockChain) SetHead(head uint64) error {
 	m.chainmu.Lock()
 	defer m.chainmu.Unlock()
-	return m.setHead(head)
+	return m.setHead(m.db.NewBatch(), head)
 }
 
-func (m *MinorBlockChain) setHead(head uint64) error {
+func (m *MinorBlockChain) setHead(batch ethdb.Batch, head uint64) error {
 	log.Warn(m.logInfo+" Rewinding blockchain", "target", head)
 	defer log.Warn(m.logInfo+" Rewinding blockchain-end", "target number", head)
 	// Rewind the header chain, deleting all block bodies until then
-	batch := m.db.NewBatch()
 	for block := m.CurrentBlock(); block != nil && block.NumberU64() > head; block = m.CurrentBlock() {
 		rawdb.DeleteMinorBlock(batch, block.Hash())
 		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, block.NumberU64())
 		m.currentBlock.Store(m.GetMinorBlock(block.ParentHash()))
 	}
-	batch.Write()
 	if currentBlock := m.CurrentBlock(); currentBlock != nil {
 		if _, err := m.StateAt(currentBlock.GetMetaData().Root); err != nil {
 			// Rewound state missing, rolled back to before pivot, reset to genesis
@@ -336,7 +334,10 @@ func (m *MinorBlockChain) setHead(head uint64) error {
 	if currentBlock := m.CurrentBlock(); currentBlock == nil {
 		m.currentBlock.Store(m.genesisBlock)
 	}
-	rawdb.WriteHeadBlockHash(m.db, m.CurrentBlock().Hash())
+	rawdb.WriteHeadBlockHash(batch, m.CurrentBlock().Hash())
+	if err := batch.Write(); err != nil {
+		return err
+	}
 
 	// Clear out any stale content from the caches
 	m.receiptsCache.Purge()
@@ -472,7 +473,9 @@ func (m *MinorBlockChain) ResetWithGenesisBlock(genesis *types.MinorBlock) error
 	rawdb.WriteMinorBlock(m.db, genesis)
 
 	m.genesisBlock = genesis
-	m.insert(m.genesisBlock)
+	if err := m.insert(m.db.NewBatch(), m.genesisBlock); err != nil {
+		return err
+	}
 	m.currentBlock.Store(m.genesisBlock)
 
 	return nil
@@ -523,12 +526,16 @@ func (m *MinorBlockChain) ExportN(w io.Writer, first uint64, last uint64) error
 // or if they are on a different side chain.
 //
 // Note, this function assumes that the `mu` mutex is held!
-func (m *MinorBlockChain) insert(block *types.MinorBlock) {
+func (m *MinorBlockChain) insert(batch ethdb.Batch, block *types.MinorBlock) error {
 	// Add the block to the canonical chain number scheme and mark as the head
-	rawdb.WriteCanonicalHash(m.db, rawdb.ChainTypeMinor, block.Hash(), block.NumberU64())
-	rawdb.WriteHeadBlockHash(m.db, block.Hash())
+	rawdb.WriteCanonicalHash(batch, rawdb.ChainTypeMinor, block.Hash(), block.NumberU64())
+	rawdb.WriteHeadBlockHash(batch, block.Hash())
+	if err := batch.Write(); err != nil {
+		return err
+	}
 
 	m.currentBlock.Store(block)
+	return nil
 }
 
 // Genesis retrieves the chain's genesis block.
@@ -985,13 +992,14 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 		status = SideStatTy
 	}
 
-	if err := batch.Write(); err != nil {
-		return NonStatTy, err
-	}
-
-	// Set new head.
+	// Set new head, together with the above.
 	if status == CanonStatTy {
-		m.insert(block)
+		err = m.insert(batch, block)
+	} else {
+		err = batch.Write()
+	}
+	if err != nil {
+		return NonStatTy, err
 	}
 	m.CommitMinorBlockByHash(block.Hash())
 	m.futureBlocks.Remove(block.Hash())
@@ -1333,6 +1341,12 @@ func (m *MinorBlockChain) insertSidechain(it *insertIterator, isCheckDB bool) (i
 // to be part of the new canonical chain and accumulates potential missing transactions and post an
 // event about them
 func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
+	return m.reorgWithBatch(m.db.NewBatch(), oldBlock, newBlock)
+}
+
+// reorgWithBatch writes all its changes in one go, together with what the batch holds
+// already, so that the chain is not left half way if the process stops in between.
+func (m *MinorBlockChain) reorgWithBatch(batch ethdb.Batch, oldBlock, newBlock types.IBlock) error {
 	if qkcCommon.IsNil(oldBlock) || qkcCommon.IsNil(newBlock) {
 		return errors.New("reorg err:block is nil")
 	}
@@ -1419,32 +1433,35 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 			log.Warn("ChainRevert genesis", "drop", len(oldChain), "dropfrom", oldChain[0].Hash(), "add", len(newChain), "addfrom", newChain[0].Hash())
 		}
 
-	} else {
+	} else if len(newChain) == 0 {
 		// we support reorg block from same chain,because we should delete and add tx index
 		log.Warn(m.logInfo+" reorg", "same chain curr", m.CurrentBlock().NumberU64(), "curr.Hash", m.CurrentBlock().Hash().TerminalString(),
 			"newBlock", newBlockNumber, "newBlock's hash", newBlockHash, "newBlock", m.GetMinorBlock(newBlockHash) == nil)
-		if err := m.setHead(newBlockNumber); err != nil {
-			return err
-		}
 	}
 
 	// When transactions get deleted from the database that means the
 	// receipts that were created in the fork must also be deleted
-	batch := m.db.NewBatch()
 	for i := len(oldChain) - 1; i >= 0; i-- {
 		if err := m.removeTxIndexFromBlock(batch, oldChain[i].(*types.MinorBlock)); err != nil {
 			return err
 		}
 	}
 
-	batch.Write()
-
 	// Insert the new chain, taking care of the proper incremental order
 	for i := len(newChain) - 1; i >= 0; i-- {
 		// insert the block in the canonical way, re-writing history
-		m.insert(newChain[i].(*types.MinorBlock))
+		rawdb.WriteCanonicalHash(batch, rawdb.ChainTypeMinor, newChain[i].Hash(), newChain[i].NumberU64())
 		// write lookup entries for hash based transaction/receipt searches
-		if err := m.putTxIndexFromBlock(m.db, newChain[i]); err != nil {
+		if err := m.putTxIndexFromBlock(batch, newChain[i]); err != nil {
+			return err
+		}
+	}
+	if len(newChain) > 0 {
+		if err := m.insert(batch, newChain[0].(*types.MinorBlock)); err != nil {
+			return err
+		}
+	} else {
+		if err := m.setHead(batch, newBlockNumber); err != nil {
 			return err
 		}
 	}
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 892de53..e57e34d 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1379,14 +1379,12 @@ func (m *MinorBlockChain) reWriteBlockIndexTo(oldBlock *types.MinorBlock, newBlo
 	if oldBlock == nil {
 		oldBlock = m.CurrentBlock()
 	}
-	if err := m.reorg(oldBlock, newBlock); err != nil {
-		return err
-	}
 	// The new chain may be shorter: forget the canonical blocks above its head
+	batch := m.db.NewBatch()
 	for number := newBlock.NumberU64() + 1; rawdb.ReadCanonicalHash(m.db, rawdb.ChainTypeMinor, number) != (common.Hash{}); number++ {
-		rawdb.DeleteCanonicalHash(m.db, rawdb.ChainTypeMinor, number)
+		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, number)
 	}
-	return nil
+	return m.reorgWithBatch(batch, oldBlock, newBlock)
 }
 
 func (m *MinorBlockChain) GetBranch() account.Branch {
-- 
2.43.0


From c475c8868686d6348475943c65b220a1a5c14e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:04 +0000
Subject: [PATCH 17/56] fix: execute blocks whose state was lost again when a
 root block moves the head to them

---
 core/minorblockchain_addon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index e57e34d..7f40472 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1150,6 +1150,12 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		if err = m.reWriteBlockIndexTo(origBlock, newBlock); err != nil {
 			return false, err
 		}
+		if _, err = m.StateAt(newBlock.Root()); err != nil {
+			// Not kept in memory, and not flushed before the process stopped
+			if err = m.reRunBlockWithState(newBlock); err != nil {
+				return false, err
+			}
+		}
 		m.currentEvmState, err = m.StateAt(newBlock.Root())
 		if err != nil {
 			return false, err
-- 
2.43.0


From 30ed45293cd0b3b4cc49be62a840c7a5180d4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:04 +0000
Subject: [PATCH 18/56] fix: go back to genesis when a shard restarts before
 the first root block

---
 core/minorblockchain_addon.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 7f40472..40bbd76 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -356,6 +356,13 @@ func (m *MinorBlockChain) InitGenesisState(rBlock *types.RootBlock) (*types.Mino
 	}
 	m.rootTip = rBlock
 	m.confirmedHeaderTip = nil
+	if current := m.CurrentBlock(); current.NumberU64() > 0 && gBlock.Hash() == m.genesisBlock.Hash() {
+		// Restarted before the first root block: as in InitFromRootBlock, go back to the
+		// last block that is known to the root chain. The state of the others may be lost
+		if err := m.reorg(current, gBlock); err != nil {
+			return nil, err
+		}
+	}
 	m.currentEvmState, err = m.StateAt(gBlock.Root())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e6e68e3f5a5c452049db42a7edab679483a09eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 19/56] fix: report a cross-shard transaction's own gas in its
 receipt

---
 core/state_transition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/state_transition.go b/core/state_transition.go
index d8a7aa2..3896741 100644
--- a/core/state_transition.go
+++ b/core/state_transition.go
@@ -414,8 +414,9 @@ func (st *StateTransition) AddCrossShardTxDeposit(intrinsicGas uint64) (ret []by
 		//reserve part of the gas for the target shard miner for fee
 		localGasUsed -= qkcParam.GtxxShardCost.Uint64()
 	}
+	gasUsedBefore := state.GetGasUsed().Uint64()
 	st.chargeFee(localGasUsed)
-	return nil, state.GetGasUsed().Uint64(), failed, nil
+	return nil, state.GetGasUsed().Uint64() - gasUsedBefore, failed, nil
 }
 
 func (st *StateTransition) chargeFee(gasUsed uint64) {
-- 
2.43.0


From 8fb730c2d99ccc331b5a4a262ead7f5c1a961159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 20/56] fix: remove self-destructed accounts at the end of
 their transaction

---
 core/state_processor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/state_processor.go b/core/state_processor.go
index 1bf008d..9b4f627 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -225,6 +225,8 @@ func ApplyTransaction(config *params.ChainConfig, bc ChainContext, gp *GasPool,
 	if err != nil {
 		return nil, nil, 0, err
 	}
+	// An account destroyed by the transaction must be gone before the next one can pay it.
+	statedb.Finalise(true)
 
 	var root []byte
 	*usedGas += gas
@@ -302,6 +304,7 @@ func ApplyCrossShardDeposit(config *params.ChainConfig, bc ChainContext, header
 	if err != nil {
 		return nil, err
 	}
+	evmState.Finalise(true)
 	*usedGas += gas
 	if evmState.GetTimeStamp() >= quarkChainConfig.EnableEvmTimeStamp {
 		var root []byte
-- 
2.43.0


From 8222e168a843cfa177fe5ab0e5f4c3c5a2da2798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 21/56] fix: compare the whole token id with the largest one
 when minting and querying balances

---
 core/vm/contracts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index cb8d8b7..cdb99c5 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -705,7 +705,7 @@ func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error
 	}
 
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
@@ -755,7 +755,7 @@ func (m *balanceMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, er
 	mntBytes := getData(input, 32, 32)
 	mnt := new(big.Int).SetBytes(mntBytes)
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
-- 
2.43.0


From 9a207777e628d1b26307c8e1ddd3c2df78d88149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 22/56] fix: keep tokens and system contracts unchanged inside
 a static call

---
 core/vm/contracts.go | 10 ++++++++++
 core/vm/evm.go       |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index cdb99c5..f553de7 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -637,6 +637,11 @@ func (r *deploySystemContract) RequiredGas(input []byte) uint64 {
 }
 
 func (r *deploySystemContract) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
+	if contract.IsStaticCall {
+		contract.Gas = 0
+		return nil, errWriteProtection
+	}
+
 	data := getData(input, 0, 32)
 	index := new(big.Int).SetBytes(data).Uint64()
 	contractIndex := 1
@@ -693,6 +698,11 @@ func (m *mintMNT) RequiredGas(input []byte) uint64 {
 
 //# 3 inputs: (minter, token ID, amount)
 func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
+	if contract.IsStaticCall {
+		contract.Gas = 0
+		return nil, errWriteProtection
+	}
+
 	minterBytes := getData(input, 0, 32)
 	minter := common.BytesToAddress(minterBytes)
 	mntBytes := getData(input, 32, 32)
diff --git a/core/vm/evm.go b/core/vm/evm.go
index 0368d70..852b7c3 100644
--- a/core/vm/evm.go
+++ b/core/vm/evm.go
@@ -50,6 +50,10 @@ func run(evm *EVM, contract *Contract, input []byte, readOnly bool) ([]byte, err
 		precompiles := PrecompiledContractsByzantium
 
 		if p := precompiles[*contract.CodeAddr]; p != nil && evm.StateDB.GetTimeStamp() > p.GetEnableTime() {
+			// a call made from inside a static call is static too, however it is made
+			if in, ok := evm.interpreter.(*EVMInterpreter); ok && in.readOnly {
+				contract.SetIsStaticCall(true)
+			}
 			return RunPrecompiledContract(p, input, contract, evm)
 		}
 	}
-- 
2.43.0


From 63e65dbb37e299591e2165762f733ab87591f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 23/56] fix: do not crash when synchronising with a peer that
 has no common ancestor within the staleness limit

---
 cluster/sync/minor_task.go | 2 +-
 cluster/sync/root_task.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cluster/sync/minor_task.go b/cluster/sync/minor_task.go
index 368148c..79e66d7 100644
--- a/cluster/sync/minor_task.go
+++ b/cluster/sync/minor_task.go
@@ -55,7 +55,7 @@ func NewMinorChainTask(
 				return nil, err
 			}
 
-			if !bc.HasBlock(ancestor.Hash()) {
+			if ancestor == nil || !bc.HasBlock(ancestor.Hash()) {
 				return nil, errors.New("Bad ancestor ")
 			}
 
diff --git a/cluster/sync/root_task.go b/cluster/sync/root_task.go
index 877c7b8..ffddbef 100644
--- a/cluster/sync/root_task.go
+++ b/cluster/sync/root_task.go
@@ -65,7 +65,7 @@ func NewRootChainTask(
 				return nil, err
 			}
 
-			if !bc.HasBlock(ancestor.Hash()) {
+			if ancestor == nil || !bc.HasBlock(ancestor.Hash()) {
 				return nil, errors.New("Bad ancestor ")
 			}
 
-- 
2.43.0


From d9b660dc644a6ab066fe67eaa133f2cf46014002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 24/56] fix: refuse a peer whose root tip has a lower total
 difficulty than the header being synchronised

---
 cluster/sync/root_task.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/sync/root_task.go b/cluster/sync/root_task.go
index ffddbef..404b0ec 100644
--- a/cluster/sync/root_task.go
+++ b/cluster/sync/root_task.go
@@ -154,7 +154,7 @@ func (r *rootChainTask) downloadBlockHeaderListAndCheck(start uint32, skip,
 	r.stats.HeadersDownloaded += uint64(len(resp.BlockHeaderList))
 
 	// check total difficulty
-	if resp.RootTip.ToTalDifficulty.Cmp(r.header.GetDifficulty()) <= 0 {
+	if resp.RootTip.ToTalDifficulty.Cmp(r.header.ToTalDifficulty) < 0 {
 		return nil, errors.New("Bad peer sending root block tip with lower TD ")
 	}
 
-- 
2.43.0


From 7e53903acf85ad5258b7744c459aaf809e694348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 25/56] fix: check that synchronised blocks are the ones that
 were asked for

---
 cluster/sync/task.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cluster/sync/task.go b/cluster/sync/task.go
index e066ead..e602777 100644
--- a/cluster/sync/task.go
+++ b/cluster/sync/task.go
@@ -85,6 +85,7 @@ func (t *task) Run(bc blockchain) error {
 
 		for len(hashlist) > 0 {
 			var blocks []types.IBlock
+			batch := hashlist
 			if len(hashlist) > t.batchSize {
 				blocks, err = t.getBlocks(hashlist[:t.batchSize])
 				if err != nil {
@@ -110,6 +111,11 @@ func (t *task) Run(bc blockchain) error {
 			if err != nil {
 				return err
 			}
+			for i, blk := range blocks {
+				if blk.Hash() != batch[i] {
+					return fmt.Errorf("unmatched block, expect: %s, actual: %s", batch[i].String(), blk.Hash().String())
+				}
+			}
 
 			counter := 0
 			for _, blk := range blocks {
-- 
2.43.0


From 52fbb39337f6a0a296dcfddb65f47c341020da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 26/56] fix: remember which minor blocks are stored but not yet
 shared, and finish sharing them on a retry

A block was counted as committed as soon as it was stored, so a failure or a crash before its
cross-shard transactions and its header reached the neighbors and the master was never made up for.
---
 cluster/shard/api_backend.go  | 80 +++++++++++++++++++++++++++++++----
 cluster/shard/shard.go        | 18 +++++---
 cluster/slave/api_backend.go  |  2 +-
 core/minorblockchain_addon.go |  8 ++++
 core/rawdb/accessors_chain.go | 19 +++++++++
 core/rawdb/schema.go          |  7 ++-
 6 files changed, 117 insertions(+), 17 deletions(-)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 88bf148..82e946b 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -12,6 +12,7 @@ import (
 	qcom "github.com/QuarkChain/goquarkchain/common"
 	"github.com/QuarkChain/goquarkchain/consensus"
 	"github.com/QuarkChain/goquarkchain/core"
+	"github.com/QuarkChain/goquarkchain/core/rawdb"
 	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/QuarkChain/goquarkchain/params"
 	qrpc "github.com/QuarkChain/goquarkchain/rpc"
@@ -296,7 +297,8 @@ func (s *ShardBackend) NewMinorBlock(peerId string, block *types.MinorBlock) (er
 	if s.mBPool.getBlockInPool(mHash) {
 		return
 	}
-	if s.MinorBlockChain.HasBlock(block.Hash()) {
+	commitStatus := s.getBlockCommitStatusByHash(block.Hash())
+	if commitStatus == BLOCK_COMMITTED {
 		log.Debug("add minor block, Known minor block", "branch", block.Branch(), "height", block.Number())
 		return
 	}
@@ -325,7 +327,7 @@ func (s *ShardBackend) NewMinorBlock(peerId string, block *types.MinorBlock) (er
 		return nil
 	}
 
-	if err := s.MinorBlockChain.Validator().ValidateBlock(block, false); err != nil {
+	if err := s.MinorBlockChain.Validator().ValidateBlock(block, commitStatus == BLOCK_COMMITTING); err != nil {
 		log.Warn(s.logInfo+" ValidateBlock", "err", err)
 		return nil // next time to handle
 	}
@@ -350,13 +352,63 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 	defer s.mu.Unlock()
 	s.wg.Add(1)
 	defer s.wg.Done()
+	// finish the ancestors first if they have been stored but not shared
+	for _, ancestor := range s.getCommittingAncestors(block, nil) {
+		if err := s.addMinorBlock(ancestor); err != nil {
+			return err
+		}
+	}
+	return s.addMinorBlock(block)
+}
+
+// getCommittingAncestors returns the ancestors (oldest first) of the block which have been
+// stored, but are not yet known to all neighbors and the master.
+func (s *ShardBackend) getCommittingAncestors(block *types.MinorBlock, skip map[common.Hash]bool) []*types.MinorBlock {
+	var list []*types.MinorBlock
+	for hash := block.ParentHash(); !skip[hash] && s.getBlockCommitStatusByHash(hash) == BLOCK_COMMITTING; hash = list[0].ParentHash() {
+		ancestor := s.MinorBlockChain.GetMinorBlock(hash)
+		if ancestor == nil {
+			break
+		}
+		list = append([]*types.MinorBlock{ancestor}, list...)
+	}
+	return list
+}
+
+// insertBlock stores the block and returns the cross-shard transactions to be sent to other shards.
+// The block is marked as committing until its effects are shared. If the block has been stored by
+// an earlier attempt, only the transactions are computed again.
+func (s *ShardBackend) insertBlock(block *types.MinorBlock) ([][]*types.CrossShardTransactionDeposit, error) {
+	committing := s.getBlockCommitStatusByHash(block.Hash()) == BLOCK_COMMITTING
+	if parent := s.MinorBlockChain.GetMinorBlock(block.ParentHash()); parent != nil && !s.MinorBlockChain.HasState(parent.Root()) &&
+		s.MinorBlockChain.Validator().ValidateBlock(block, committing) == core.ErrPrunedAncestor {
+		if err := s.MinorBlockChain.EnsureState(parent); err != nil {
+			return nil, err
+		}
+	}
+	if !committing {
+		rawdb.WriteCommittingMinorBlock(s.chainDb, block.Hash())
+	}
+	_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, committing)
+	if err != nil {
+		if !s.MinorBlockChain.HasBlock(block.Hash()) {
+			rawdb.DeleteCommittingMinorBlock(s.chainDb, block.Hash())
+		}
+		return nil, err
+	}
+	if len(xshardLst) == 0 && !s.MinorBlockChain.HasBlock(block.Hash()) {
+		return nil, fmt.Errorf("minor block %s is not added", block.Hash().Hex())
+	}
+	return xshardLst, nil
+}
+
+func (s *ShardBackend) addMinorBlock(block *types.MinorBlock) error {
 	if commitStatus := s.getBlockCommitStatusByHash(block.Hash()); commitStatus == BLOCK_COMMITTED {
 		return nil
 	}
-	//TODO support BLOCK_COMMITTING
 	currHead := s.MinorBlockChain.CurrentBlock().Header()
 	log.Debug(s.logInfo, "currHead", currHead.Number)
-	_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, false)
+	xshardLst, err := s.insertBlock(block)
 	if err != nil {
 		log.Error(s.logInfo+" Failed to add minor block", "err", err, "len", len(xshardLst))
 		return err
@@ -400,6 +452,7 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 		return err
 	}
 	s.MinorBlockChain.CommitMinorBlockByHash(block.Hash())
+	rawdb.DeleteCommittingMinorBlock(s.chainDb, block.Hash())
 	if s.MinorBlockChain.CurrentBlock().Hash() != currHead.Hash() {
 		go s.miner.HandleNewTip()
 	}
@@ -434,23 +487,31 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
 		blockHashToXShardList      = make(map[common.Hash]*XshardListTuple)
 		uncommittedBlockHeaderList = make([]*types.MinorBlockHeader, 0, len(blockLst))
 	)
+	// finish the ancestors first if they have been stored but not shared
+	blocks := make([]*types.MinorBlock, 0, len(blockLst))
+	queued := make(map[common.Hash]bool)
 	for _, block := range blockLst {
-		blockHash := block.Hash()
 		if block.Branch().Value != s.branch.Value {
 			continue
 		}
-		if s.getBlockCommitStatusByHash(blockHash) == BLOCK_COMMITTED {
+		for _, b := range append(s.getCommittingAncestors(block, queued), block) {
+			blocks = append(blocks, b)
+			queued[b.Hash()] = true
+		}
+	}
+	for _, block := range blocks {
+		blockHash := block.Hash()
+		if s.getBlockCommitStatusByHash(blockHash) == BLOCK_COMMITTED || blockHashToXShardList[blockHash] != nil {
 			continue
 		}
-		//TODO:support BLOCK_COMMITTING
-		_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, false)
+		xshardLst, err := s.insertBlock(block)
 		if err != nil {
 			log.Error(s.logInfo+" Failed to add minor block", "err", err)
 			return err
 		}
 		if len(xshardLst) != 1 {
 			log.Warn(s.logInfo+" already have this block", "number", block.NumberU64(), "hash", block.Hash().String())
-			return nil
+			continue
 		}
 		s.mBPool.delBlockInPool(block.Hash())
 		prevRootHeight := s.MinorBlockChain.GetRootBlockByHash(block.PrevRootBlockHash())
@@ -470,6 +531,7 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
 	}
 	for _, header := range uncommittedBlockHeaderList {
 		s.MinorBlockChain.CommitMinorBlockByHash(header.Hash())
+		rawdb.DeleteCommittingMinorBlock(s.chainDb, header.Hash())
 		s.mBPool.delBlockInPool(header.Hash())
 	}
 	return nil
diff --git a/cluster/shard/shard.go b/cluster/shard/shard.go
index 4e3c7fb..5eab92b 100755
--- a/cluster/shard/shard.go
+++ b/cluster/shard/shard.go
@@ -32,7 +32,7 @@ type BlockCommitCode int
 
 const (
 	BLOCK_UNCOMMITTED BlockCommitCode = iota
-	BLOCK_COMMITTING                  // TODO not support yet,need discuss
+	BLOCK_COMMITTING                  // stored, but not yet known to all neighbors and the master
 	BLOCK_COMMITTED
 )
 
@@ -211,15 +211,21 @@ func (s *ShardBackend) getBlockCommitStatusByHash(blockHash common.Hash) BlockCo
 	// - All neighbor shards/slaves receives x-shard tx list
 	// - The block header is sent to master
 	// then return immediately
-	if s.MinorBlockChain.IsMinorBlockCommittedByHash(blockHash) {
-		return BLOCK_COMMITTED
+	if !s.MinorBlockChain.IsMinorBlockCommittedByHash(blockHash) {
+		return BLOCK_UNCOMMITTED
 	}
 
-	//TODO support BLOCK_COMMITTING???
-
 	// Check if the block is being propagating to other slaves and the master
 	// Let's make sure all the shards and master got it before committing it
-	return BLOCK_UNCOMMITTED
+	if rawdb.HasCommittingMinorBlock(s.chainDb, blockHash) {
+		return BLOCK_COMMITTING
+	}
+	return BLOCK_COMMITTED
+}
+
+// IsMinorBlockCommitted tells whether the block is known to all neighbors and the master.
+func (s *ShardBackend) IsMinorBlockCommitted(blockHash common.Hash) bool {
+	return s.getBlockCommitStatusByHash(blockHash) == BLOCK_COMMITTED
 }
 
 // minor block pool
diff --git a/cluster/slave/api_backend.go b/cluster/slave/api_backend.go
index 6836787..19c2e4d 100755
--- a/cluster/slave/api_backend.go
+++ b/cluster/slave/api_backend.go
@@ -98,7 +98,7 @@ func (s *SlaveBackend) AddBlockListForSync(mHashList []common.Hash, peerId strin
 
 	hashList := make([]common.Hash, 0, len(mHashList))
 	for _, hash := range mHashList {
-		if !shard.MinorBlockChain.HasBlock(hash) {
+		if !shard.IsMinorBlockCommitted(hash) {
 			hashList = append(hashList, hash)
 		}
 	}
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 40bbd76..56b1636 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -558,6 +558,14 @@ func (m *MinorBlockChain) reRunBlockWithState(block *types.MinorBlock) error {
 	return err
 }
 
+// EnsureState executes the block and its ancestors again if the block's state has been pruned.
+func (m *MinorBlockChain) EnsureState(block *types.MinorBlock) error {
+	if m.HasState(block.Root()) {
+		return nil
+	}
+	return m.reRunBlockWithState(block)
+}
+
 // getEvmStateForNewBlock get evmState for new block.should have locked
 func (m *MinorBlockChain) getEvmStateForNewBlock(minorBlock *types.MinorBlock, ephemeral bool) (*state.StateDB, error) {
 	prevHash := minorBlock.ParentHash()
diff --git a/core/rawdb/accessors_chain.go b/core/rawdb/accessors_chain.go
index adc33ad..94a02a7 100644
--- a/core/rawdb/accessors_chain.go
+++ b/core/rawdb/accessors_chain.go
@@ -651,6 +651,25 @@ func HasCommitMinorBlock(db DatabaseReader, h common.Hash) bool {
 	return true
 }
 
+// WriteCommittingMinorBlock records that the effects of a minor block (its cross-shard
+// transactions and its header) are not yet known to the neighbour shards and the master.
+func WriteCommittingMinorBlock(db DatabaseWriter, h common.Hash) {
+	if err := db.Put(makeCommittingMinorBlock(h), []byte{1}); err != nil {
+		log.Crit("failed to write committing minor block", "err", err)
+	}
+}
+
+func HasCommittingMinorBlock(db DatabaseReader, h common.Hash) bool {
+	has, err := db.Has(makeCommittingMinorBlock(h))
+	return has && err == nil
+}
+
+func DeleteCommittingMinorBlock(db DatabaseDeleter, h common.Hash) {
+	if err := db.Delete(makeCommittingMinorBlock(h)); err != nil {
+		log.Crit("failed to delete committing minor block", "err", err)
+	}
+}
+
 func DeleteMinorBlockCommitStatus(db DatabaseDeleter, h common.Hash) {
 	if err := db.Delete(makeCommitMinorBlock(h)); err != nil {
 		log.Crit("Failed to delete commit minor block", "err", err)
diff --git a/core/rawdb/schema.go b/core/rawdb/schema.go
index b3b998d..8589aef 100644
--- a/core/rawdb/schema.go
+++ b/core/rawdb/schema.go
@@ -53,7 +53,8 @@ var (
 	mHeader            = []byte("mhC")  //mHeader coinbase
 	commitBlockByHash  = []byte("cmB")  //CommittedMinorBlock
 	xsHashList         = []byte("xd")
-	mConfiredByRoot    = []byte("mr") //key:mHash value rHash
+	mConfiredByRoot    = []byte("mr")  //key:mHash value rHash
+	committingBlock    = []byte("cmC") //minor block whose effects are not yet shared
 )
 
 type ChainType byte
@@ -184,3 +185,7 @@ func makeCommitMinorBlock(h common.Hash) []byte {
 	data := append(commitBlockByHash, h.Bytes()...)
 	return data
 }
+
+func makeCommittingMinorBlock(h common.Hash) []byte {
+	return append(committingBlock, h.Bytes()...)
+}
-- 
2.43.0


From cce8ae5e9b78250001e1dfd57615a4e9f5381c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 27/56] fix: fail when a cross-shard list cannot be delivered
 because its shard is not connected

---
 cluster/slave/conn_manager.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/cluster/slave/conn_manager.go b/cluster/slave/conn_manager.go
index 5230295..c79ae0d 100755
--- a/cluster/slave/conn_manager.go
+++ b/cluster/slave/conn_manager.go
@@ -79,26 +79,30 @@ func (s *ConnManager) GetConnectionsByFullShardId(id uint32) []*SlaveConn {
 
 func (s *ConnManager) AddXshardTxList(fullShardId uint32, xshardReq *rpc.AddXshardTxListRequest) error {
 	var g errgroup.Group
-	if clients, ok := s.fullShardIdToSlaves[fullShardId]; ok {
-		for _, client := range clients {
-			cli := client
-			g.Go(func() error {
-				return cli.AddXshardTxList(xshardReq)
-			})
-		}
+	clients := s.fullShardIdToSlaves[fullShardId]
+	if _, local := s.slave.shards[fullShardId]; len(clients) == 0 && !local {
+		return fmt.Errorf("no connection to shard %d", fullShardId)
+	}
+	for _, client := range clients {
+		cli := client
+		g.Go(func() error {
+			return cli.AddXshardTxList(xshardReq)
+		})
 	}
 	return g.Wait()
 }
 
 func (s *ConnManager) BatchAddXshardTxList(fullShardId uint32, xshardReqs []*rpc.AddXshardTxListRequest) error {
 	var g errgroup.Group
-	if clients, ok := s.fullShardIdToSlaves[fullShardId]; ok {
-		for _, client := range clients {
-			cli := client
-			g.Go(func() error {
-				return cli.BatchAddXshardTxList(xshardReqs)
-			})
-		}
+	clients := s.fullShardIdToSlaves[fullShardId]
+	if _, local := s.slave.shards[fullShardId]; len(clients) == 0 && !local {
+		return fmt.Errorf("no connection to shard %d", fullShardId)
+	}
+	for _, client := range clients {
+		cli := client
+		g.Go(func() error {
+			return cli.BatchAddXshardTxList(xshardReqs)
+		})
 	}
 	return g.Wait()
 }
-- 
2.43.0


From 3e0acd60e7ec77c2e4c39d824d31ba802b8719af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 28/56] fix: finish delivering an interrupted root block after
 a restart, and deliver root blocks one at a time

---
 cluster/master/backend.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/cluster/master/backend.go b/cluster/master/backend.go
index 77d2bf9..6fe0ac0 100755
--- a/cluster/master/backend.go
+++ b/cluster/master/backend.go
@@ -57,6 +57,7 @@ type QKCMasterBackend struct {
 	ctx                *service.ServiceContext
 	gspc               *core.Genesis
 	lock               sync.RWMutex
+	rootBlockLock      sync.Mutex // root blocks are stored and delivered one at a time
 	engine             consensus.Engine
 	eventMux           *event.TypeMux
 	chainDb            ethdb.Database
@@ -299,6 +300,9 @@ func (s *QKCMasterBackend) Init(srvr *p2p.Server) error {
 	if err := s.initShards(); err != nil {
 		return err
 	}
+	if err := s.recoverCommittingRootBlock(); err != nil {
+		return err
+	}
 
 	s.Heartbeat()
 	return nil
@@ -365,6 +369,22 @@ func (s *QKCMasterBackend) initShards() error {
 	return g.Wait()
 }
 
+// recoverCommittingRootBlock adds again the root block whose delivery to the
+// shards was interrupted when the master stopped.
+func (s *QKCMasterBackend) recoverCommittingRootBlock() error {
+	hash := s.rootBlockChain.GetCommittingBlockHash()
+	if hash == (common.Hash{}) {
+		return nil
+	}
+	block, ok := s.rootBlockChain.GetBlock(hash).(*types.RootBlock)
+	if !ok {
+		// stopped before the block was stored
+		s.rootBlockChain.ClearCommittingHash()
+		return nil
+	}
+	return s.AddRootBlock(block)
+}
+
 func (s *QKCMasterBackend) updateShardStatsLoop() {
 	go func() {
 		for true {
@@ -560,10 +580,13 @@ func (s *QKCMasterBackend) SendMiningConfigToSlaves(mining bool) error {
 
 // AddRootBlock add root block to all slaves
 func (s *QKCMasterBackend) AddRootBlock(rootBlock *types.RootBlock) error {
+	s.rootBlockLock.Lock()
+	defer s.rootBlockLock.Unlock()
 	block := s.rootBlockChain.CurrentBlock()
 	s.rootBlockChain.WriteCommittingHash(rootBlock.Hash())
 	_, err := s.rootBlockChain.InsertChain([]types.IBlock{rootBlock})
 	if err != nil {
+		s.rootBlockChain.ClearCommittingHash()
 		return err
 	}
 	if err := s.broadcastRootBlockToSlaves(rootBlock); err != nil {
-- 
2.43.0


From 23f90c35d0b5fb640e0ccf298ec0848aa313744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 29/56] fix: do not crash or block when a peer answers with
 another kind of response or more than once

---
 cluster/master/handle.go | 36 ++++++------------------------------
 cluster/master/peer.go   | 26 +++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 35 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 5b92e4a..4c53726 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -266,11 +266,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &blockHeaderResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- &blockHeaderResp
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, &blockHeaderResp)
 
 	case qkcMsg.Op == p2p.GetRootBlockListRequestMsg:
 		var rootBlockReq p2p.GetRootBlockListRequest
@@ -290,11 +286,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &blockResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- blockResp.RootBlockList
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, blockResp.RootBlockList)
 
 	case qkcMsg.Op == p2p.GetRootBlockHeaderListWithSkipRequestMsg:
 		var rBHeadersSkip p2p.GetRootBlockHeaderListWithSkipRequest
@@ -312,11 +304,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &minorBlockResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- &minorBlockResp
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, &minorBlockResp)
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListRequestMsg:
 		go func() {
@@ -332,11 +320,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- qkcMsg.Data
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	case qkcMsg.Op == p2p.GetMinorBlockListRequestMsg:
 		go func() {
@@ -351,11 +335,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockListResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- qkcMsg.Data
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	case qkcMsg.Op == p2p.NewRootBlockMsg:
 		panic("not implemented")
@@ -373,11 +353,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListWithSkipResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
-			c <- qkcMsg.Data
-		} else {
-			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
-		}
+		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	default:
 		return fmt.Errorf("unknown msg code %d", qkcMsg.Op)
diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index f6fa80a..af7bc6f 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -24,6 +24,7 @@ var (
 	errAlreadyRegistered = errors.New("peer is already registered")
 	errNotRegistered     = errors.New("peer is not registered")
 	errTimeout           = errors.New("request timeout")
+	errInvalidResponse   = errors.New("peer answered with another kind of response")
 )
 
 const (
@@ -271,6 +272,21 @@ func (p *Peer) deleteChan(rpcId uint64) {
 	delete(p.chans, rpcId)
 }
 
+// deliver hands the response of a peer to the request waiting for it. The first response
+// answers the request, whatever else the peer sends with the same id is dropped.
+func (p *Peer) deliver(rpcId uint64, response interface{}) {
+	c := p.getChan(rpcId)
+	if c == nil {
+		p.Log().Warn(fmt.Sprintf("chan for rpc %d is missing", rpcId))
+		return
+	}
+	select {
+	case c <- response:
+	default:
+		p.Log().Warn(fmt.Sprintf("rpc %d is already answered", rpcId))
+	}
+}
+
 // requestRootBlockHeaderList fetches a batch of root blocks' headers corresponding to the
 // specified header hashList, based on the hash of an origin block.
 func (p *Peer) requestRootBlockHeaderList(rpcId uint64, request *p2p.GetRootBlockHeaderListRequest) error {
@@ -306,7 +322,7 @@ func (p *Peer) GetRootBlockHeaderList(req *p2p.GetRootBlockHeaderListWithSkipReq
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.(*p2p.GetRootBlockHeaderListResponse); !ok {
-			panic("invalid return result in GetRootBlockHeaderList")
+			return nil, errInvalidResponse
 		} else {
 			return ret, nil
 		}
@@ -343,7 +359,7 @@ func (p *Peer) GetMinorBlockHeaderListWithSkip(req *rpc.P2PRedirectRequest) (res
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errInvalidResponse
 		} else {
 			return ret, nil
 		}
@@ -365,7 +381,7 @@ func (p *Peer) GetMinorBlockHeaderList(req *rpc.P2PRedirectRequest) (res []byte,
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errInvalidResponse
 		} else {
 			return ret, nil
 		}
@@ -398,7 +414,7 @@ func (p *Peer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]*types.RootBlock); !ok {
-			panic("invalid return result in GetRootBlockList")
+			return nil, errInvalidResponse
 		} else {
 			return ret, nil
 		}
@@ -433,7 +449,7 @@ func (p *Peer) GetMinorBlockList(req *rpc.P2PRedirectRequest) ([]byte, error) {
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockList")
+			return nil, errInvalidResponse
 		} else {
 			return ret, nil
 		}
-- 
2.43.0


From d75b1ea402fea455f501c11399e23e8a8eb4db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 30/56] fix: do not crash on unknown or unsupported message
 types

---
 cluster/master/handle.go | 2 +-
 p2p/p2p_commands.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 4c53726..e5a2711 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -338,7 +338,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		peer.deliver(qkcMsg.RpcID, qkcMsg.Data)
 
 	case qkcMsg.Op == p2p.NewRootBlockMsg:
-		panic("not implemented")
+		return errors.New("NewRootBlockMsg is not supported")
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
 		go func() {
diff --git a/p2p/p2p_commands.go b/p2p/p2p_commands.go
index 786742a..66309c5 100644
--- a/p2p/p2p_commands.go
+++ b/p2p/p2p_commands.go
@@ -68,7 +68,7 @@ var OPSerializerMap = map[P2PCommandOp]interface{}{
 
 func (p P2PCommandOp) String() string {
 	if _, ok := OPSerializerMap[p]; !ok {
-		strconv.Itoa(int(p))
+		return strconv.Itoa(int(p))
 	}
 	return reflect.TypeOf(OPSerializerMap[p]).Name()
 }
-- 
2.43.0


From 7a3c7a9431e82e896ee334b7c3442db7b13221da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 31/56] fix: header queries with a large skip or height must
 not wrap around

---
 cluster/master/handle.go | 18 +++++++++++-------
 p2p/p2p_commands.go      | 11 +++++++++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index e5a2711..6029fa1 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -514,7 +514,8 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 	}
 
 	var (
-		height     uint32
+		height     uint64
+		step       = uint64(request.Skip) + 1
 		hash       common.Hash
 		rBHeader   *types.RootBlockHeader
 		headerlist = make([]*types.RootBlockHeader, 0, request.Limit)
@@ -522,7 +523,7 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 
 	rTip := pm.rootBlockChain.CurrentHeader().(*types.RootBlockHeader)
 	if request.Type == 1 {
-		height = *request.GetHeight()
+		height = uint64(*request.GetHeight())
 	} else {
 		hash = request.GetHash()
 		iHeader := pm.rootBlockChain.GetHeader(hash)
@@ -536,19 +537,22 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 		if qkcom.IsNil(iHeader) || rBHeader.Hash() != iHeader.Hash() {
 			return &p2p.GetRootBlockHeaderListResponse{RootTip: rTip}, nil
 		}
-		height = rBHeader.Number
+		height = rBHeader.NumberU64()
 	}
 
-	for len(headerlist) < int(request.Limit) && height >= 0 && height <= rTip.Number {
-		iHeader := pm.rootBlockChain.GetHeaderByNumber(uint64(height))
+	for len(headerlist) < int(request.Limit) && height <= rTip.NumberU64() {
+		iHeader := pm.rootBlockChain.GetHeaderByNumber(height)
 		if qkcom.IsNil(iHeader) {
 			break
 		}
 		headerlist = append(headerlist, iHeader.(*types.RootBlockHeader))
 		if request.Direction == qkcom.DirectionToGenesis {
-			height -= request.Skip + 1
+			if height < step {
+				break
+			}
+			height -= step
 		} else {
-			height += request.Skip + 1
+			height += step
 		}
 	}
 
diff --git a/p2p/p2p_commands.go b/p2p/p2p_commands.go
index 66309c5..5720282 100644
--- a/p2p/p2p_commands.go
+++ b/p2p/p2p_commands.go
@@ -2,6 +2,7 @@ package p2p
 
 import (
 	"bytes"
+	"math"
 	"math/big"
 	"reflect"
 	"strconv"
@@ -201,7 +202,10 @@ func (r *GetRootBlockHeaderListWithSkipRequest) SetHeight(height uint32) {
 func (r *GetRootBlockHeaderListWithSkipRequest) GetHeight() *uint32 {
 	var height *uint32
 	if r.Type == qkcom.SkipHeight {
-		h := uint32(new(big.Int).SetBytes(r.Data[:]).Uint64())
+		h := uint32(math.MaxUint32) // a height which doesn't fit is above any block
+		if data := new(big.Int).SetBytes(r.Data[:]); data.BitLen() <= 32 {
+			h = uint32(data.Uint64())
+		}
 		height = &h
 	}
 	return height
@@ -230,7 +234,10 @@ func (r *GetMinorBlockHeaderListWithSkipRequest) SetHeight(height uint64) {
 
 func (r *GetMinorBlockHeaderListWithSkipRequest) GetHeight() *uint64 {
 	if r.Type == qkcom.SkipHeight {
-		h := new(big.Int).SetBytes(r.Data[:]).Uint64()
+		h := uint64(math.MaxUint64) // a height which doesn't fit is above any block
+		if data := new(big.Int).SetBytes(r.Data[:]); data.BitLen() <= 64 {
+			h = data.Uint64()
+		}
 		return &h
 	}
 	return nil
-- 
2.43.0


From 303cdf4640fda96abfa37113366e5fc32a7ba206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:44 +0000
Subject: [PATCH 32/56] fix: GetHashByHeight returns the hash of the given
 height

---
 core/minorblockchain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 3940139..84697b5 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -606,6 +606,7 @@ func (m *MinorBlockChain) GetHashByHeight(height *uint64) (common.Hash, error) {
 		if bytes.Equal(common.Hash{}.Bytes(), hash.Bytes()) {
 			return hash, fmt.Errorf("shard %v do no have this  height  %v", m.branch.Value, *height)
 		}
+		return hash, nil
 	}
 	return m.CurrentBlock().Hash(), nil
 }
-- 
2.43.0


From 8755f46effa6771055e521e11e4327bd8f46306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 33/56] fix: a request for an unknown zero hash is not answered
 with the head block

---
 cluster/slave/api_backend.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cluster/slave/api_backend.go b/cluster/slave/api_backend.go
index 19c2e4d..f9ebef9 100755
--- a/cluster/slave/api_backend.go
+++ b/cluster/slave/api_backend.go
@@ -379,9 +379,9 @@ func (s *SlaveBackend) GetMinorBlockListByHashList(mHashList []common.Hash, bran
 	}
 
 	for _, hash := range mHashList {
-		block, err := shrd.GetMinorBlock(hash, nil)
-		if err != nil {
-			return nil, err
+		block := shrd.MinorBlockChain.GetMinorBlock(hash)
+		if block == nil {
+			return nil, errors.New("minor block not found")
 		}
 		minorList = append(minorList, block)
 	}
-- 
2.43.0


From 4caa07f0bbdc995ba03ca669c298122a2d562e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 34/56] fix: a number of more than 255 bytes cannot be encoded
 instead of being encoded wrongly

---
 serialize/serializer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialize/serializer.go b/serialize/serializer.go
index 76299c7..33d368c 100644
--- a/serialize/serializer.go
+++ b/serialize/serializer.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"math/big"
 	"reflect"
 )
@@ -111,6 +112,9 @@ func serializeBigInt(i *big.Int, w *[]byte) error {
 	} else if cmp > 0 {
 		bytes = i.Bytes()
 	}
+	if len(bytes) > math.MaxUint8 {
+		return fmt.Errorf("ser: *big.Int of %d bytes is too large", len(bytes))
+	}
 
 	*w = append(*w, uint8(len(bytes)))
 	*w = append(*w, bytes...)
-- 
2.43.0


From c4fccbb6df923a49ec254bc95150e4e16cf88c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 35/56] fix: a transaction list query without a token must not
 become a query for token 0

---
 cluster/rpc/grpc_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/rpc/grpc_types.go b/cluster/rpc/grpc_types.go
index 68eea11..c7c25df 100755
--- a/cluster/rpc/grpc_types.go
+++ b/cluster/rpc/grpc_types.go
@@ -182,7 +182,7 @@ type GetTransactionReceiptResponse struct {
 
 type GetTransactionListByAddressRequest struct {
 	Address         *account.Address `json:"address" gencodec:"required"`
-	TransferTokenID *uint64          `json:"transfer_token_id" gencodec:"required"`
+	TransferTokenID *uint64          `json:"transfer_token_id" ser:"nil"`
 	Start           []byte           `json:"start" gencodec:"required" bytesizeofslicelen:"4"`
 	Limit           uint32           `json:"limit" gencodec:"required"`
 }
-- 
2.43.0


From 0bb0e3c881eeb90b5d5023002d276d1aa0f339fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 36/56] fix: starting, stopping and new heads must not block
 the miner and its callers for ever

---
 cluster/miner/miner.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/cluster/miner/miner.go b/cluster/miner/miner.go
index 2d556a5..89a4389 100644
--- a/cluster/miner/miner.go
+++ b/cluster/miner/miner.go
@@ -72,12 +72,26 @@ func (m *Miner) getTip() uint64 {
 func (m *Miner) interrupt() {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	m.interruptLocked()
+}
+
+// interruptLocked is interrupt for callers which hold m.mu
+func (m *Miner) interruptLocked() {
 	if m.stopCh != nil {
 		close(m.stopCh)
 		m.stopCh = make(chan struct{})
 	}
 }
 
+// requestCommit asks commitLoop for a new block. A request which is already pending is enough,
+// so it never blocks: the callers may hold m.mu or be commitLoop itself.
+func (m *Miner) requestCommit() {
+	select {
+	case m.startCh <- struct{}{}:
+	default:
+	}
+}
+
 func (m *Miner) allowMining() bool {
 	if !m.IsMining() ||
 		time.Now().Sub(m.ctx.GetTimestamp()).Seconds() > deadtime {
@@ -90,7 +104,7 @@ func (m *Miner) commit(addr *account.Address) {
 	// don't allow to mine
 	if m.api.IsSyncing() {
 		time.Sleep(500 * time.Millisecond)
-		m.startCh <- struct{}{}
+		m.requestCommit()
 		return
 	}
 	if !m.allowMining() {
@@ -102,14 +116,14 @@ func (m *Miner) commit(addr *account.Address) {
 		log.Error(m.logInfo, "create block to mine err", err)
 		// retry to create block to mine
 		time.Sleep(2 * time.Second)
-		m.startCh <- struct{}{}
+		m.requestCommit()
 		return
 	}
 	tip := m.getTip()
 	if block.NumberU64() <= tip {
 		log.Error(m.logInfo, "block's height small than tipHeight after commit blockNumber ,no need to seal", block.NumberU64(), "tip", m.getTip())
 		time.Sleep(2 * time.Second)
-		m.startCh <- struct{}{}
+		m.requestCommit()
 		return
 	}
 	m.workCh <- workAdjusted{block, diff, optionalDivider}
@@ -136,12 +150,13 @@ func (m *Miner) sealLoop() {
 		case work := <-m.workCh: // to discuss:need this?
 			log.Debug(m.logInfo, "ready to seal height", work.block.NumberU64(), "coinbase", work.block.Coinbase().ToHex())
 			m.mu.Lock()
-			if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider, m.resultCh, m.stopCh); err != nil {
+			err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider, m.resultCh, m.stopCh)
+			m.mu.Unlock()
+			if err != nil {
 				log.Error(m.logInfo, "Seal block to mine err", err)
 				coinbase := work.block.Coinbase()
-				m.commit(&coinbase)
+				go m.commit(&coinbase)
 			}
-			m.mu.Unlock()
 
 		case <-m.exitCh:
 			log.Error("sealLoop exit")
@@ -183,9 +198,9 @@ func (m *Miner) SetMining(mining bool) {
 	defer m.mu.Unlock()
 	m.isMining = mining
 	if mining {
-		m.startCh <- struct{}{}
+		m.requestCommit()
 	} else {
-		m.interrupt()
+		m.interruptLocked()
 	}
 }
 
@@ -230,7 +245,7 @@ func (m *Miner) HandleNewTip() {
 	log.Debug(m.logInfo, "handle new tip: height", m.getTip())
 	m.engine.RefreshWork(m.api.GetTip())
 	if m.api.IsSyncing() == false {
-		m.startCh <- struct{}{}
+		m.requestCommit()
 	}
 }
 
-- 
2.43.0


From f36e67d2a1a858bf769285fb946b467152999606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 37/56] fix: work handed out must be current and match what the
 engine checks

---
 consensus/remote.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/consensus/remote.go b/consensus/remote.go
index 6e484e3..6eabbc1 100644
--- a/consensus/remote.go
+++ b/consensus/remote.go
@@ -55,10 +55,6 @@ func (c *CommonEngine) remote() {
 
 	makeWork := func(block types.IBlock, adjustedDiff *big.Int, optionalDivider uint64) {
 		hash := block.IHeader().SealHash()
-		if works.Contains(hash) {
-			return
-		}
-
 		diff := block.IHeader().GetDifficulty()
 		if adjustedDiff != nil {
 			diff = adjustedDiff
@@ -158,6 +154,7 @@ func (c *CommonEngine) remote() {
 
 type currentWorks struct {
 	works map[account.Address]*MiningWork
+	tip   uint64 // height of the tip at the last refresh
 	mu    sync.RWMutex
 }
 
@@ -171,6 +168,10 @@ func (c *currentWorks) setCurrentWork(block types.IBlock, diff *big.Int, optiona
 	c.mu.Lock()
 	defer c.mu.Unlock()
 	height := block.NumberU64()
+	if height <= c.tip {
+		// the block was created before the last refresh and is stale by now
+		return
+	}
 
 	miningWork := new(MiningWork)
 	miningWork.HeaderHash = block.IHeader().SealHash()
@@ -209,6 +210,7 @@ func (c *currentWorks) refresh(tip uint64) {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 	c.works = make(map[account.Address]*MiningWork)
+	c.tip = tip
 }
 
 func (c *currentWorks) getWorkBySealHash(hash common.Hash) (*MiningWork, error) {
-- 
2.43.0


From 26f9f04b90cdfd5008eafbb3b05b6eb443cc38d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 38/56] fix: a window of one block, or a missing ancestor, must
 not crash the staking window

---
 consensus/posw/posw.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/consensus/posw/posw.go b/consensus/posw/posw.go
index 161847f..1a5e4c6 100644
--- a/consensus/posw/posw.go
+++ b/consensus/posw/posw.go
@@ -126,6 +126,10 @@ func (p *PoSW) getCoinbaseAddressUntilBlock(headerHash common.Hash) ([]account.R
 		return nil, fmt.Errorf("curr block not found: hash %x", headerHash)
 	}
 	length := int(p.config.WindowSize) - 1
+	if length <= 0 {
+		// the window holds nothing but the block being produced
+		return nil, nil
+	}
 	addrs := make([]account.Recipient, 0, length+10)
 	height := block.NumberU64()
 	prevHash := block.ParentHash()
@@ -143,8 +147,9 @@ func (p *PoSW) getCoinbaseAddressUntilBlock(headerHash common.Hash) ([]account.R
 			if block.NumberU64() == 0 {
 				break
 			}
-			if block = p.hReader.GetBlock(block.ParentHash()); qkcCommon.IsNil(block) {
-				return nil, fmt.Errorf("mysteriously missing block %x", block.ParentHash())
+			parentHash := block.ParentHash()
+			if block = p.hReader.GetBlock(parentHash); qkcCommon.IsNil(block) {
+				return nil, fmt.Errorf("mysteriously missing block %x", parentHash)
 			}
 		}
 		addrs = revertArr(addrs)
-- 
2.43.0


From 2e8fc6312818bd4da22e0aabafb97ddd4d8410d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 39/56] fix: a block whose reward holds a zero amount of a
 token was refused once transmitted

---
 core/minorblock_validator.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/core/minorblock_validator.go b/core/minorblock_validator.go
index b91d3d3..7e96bac 100644
--- a/core/minorblock_validator.go
+++ b/core/minorblock_validator.go
@@ -252,19 +252,20 @@ func compareXshardTxCursor(a, b *types.XShardTxCursorInfo) bool {
 }
 
 func compareCoinbaseAmountMap(a, b map[uint64]*big.Int) bool {
-	if len(a) != len(b) {
-		return false
-	}
-	for k, v := range a {
-		data, ok := b[k]
-		if !ok {
-			return false
-		}
-		if data.Cmp(v) != 0 {
-			return false
+	// an amount of zero is the same as none: it is not transmitted
+	covers := func(a, b map[uint64]*big.Int) bool {
+		for k, v := range a {
+			data, ok := b[k]
+			if !ok {
+				data = new(big.Int)
+			}
+			if data.Cmp(v) != 0 {
+				return false
+			}
 		}
+		return true
 	}
-	return true
+	return covers(a, b) && covers(b, a)
 }
 
 // ValidateState validates the various changes that happen after a state
-- 
2.43.0


From 521522361b3cf86beb75ff55ff16fedd7a62f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 40/56] fix: announce each new and removed log once, oldest
 first, and those of arriving transfers too

---
 core/minorblockchain.go       | 15 ++++++++-------
 core/minorblockchain_addon.go |  5 ++++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 84697b5..c05679d 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1342,12 +1342,13 @@ func (m *MinorBlockChain) insertSidechain(it *insertIterator, isCheckDB bool) (i
 // to be part of the new canonical chain and accumulates potential missing transactions and post an
 // event about them
 func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
-	return m.reorgWithBatch(m.db.NewBatch(), oldBlock, newBlock)
+	// the logs of the new block itself are announced by whoever inserts it
+	return m.reorgWithBatch(m.db.NewBatch(), oldBlock, newBlock, false)
 }
 
 // reorgWithBatch writes all its changes in one go, together with what the batch holds
 // already, so that the chain is not left half way if the process stops in between.
-func (m *MinorBlockChain) reorgWithBatch(batch ethdb.Batch, oldBlock, newBlock types.IBlock) error {
+func (m *MinorBlockChain) reorgWithBatch(batch ethdb.Batch, oldBlock, newBlock types.IBlock, announceHead bool) error {
 	if qkcCommon.IsNil(oldBlock) || qkcCommon.IsNil(newBlock) {
 		return errors.New("reorg err:block is nil")
 	}
@@ -1474,17 +1475,17 @@ func (m *MinorBlockChain) reorgWithBatch(batch ethdb.Batch, oldBlock, newBlock t
 	}
 
 	if len(oldChain) > 0 {
-		for _, iB := range oldChain {
-			m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(iB.Hash()), IsRemoved: true})
-		}
 		go func() {
 			for _, block := range oldChain {
 				m.chainSideFeed.Send(MinorChainSideEvent{Block: block.(*types.MinorBlock)})
 			}
 		}()
 	}
-	for _, iB := range newChain {
-		m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(iB.Hash()), IsRemoved: false})
+	for i := len(newChain) - 1; i >= 0; i-- {
+		if i == 0 && !announceHead {
+			break
+		}
+		m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(newChain[i].Hash()), IsRemoved: false})
 	}
 
 	return nil
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 56b1636..621ff4a 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -623,6 +623,9 @@ func (m *MinorBlockChain) runBlock(block *types.MinorBlock) (*state.StateDB, typ
 		return nil, nil, nil, 0, nil, err
 	}
 	receipts = append(receipts, xShardReceipts...)
+	for _, receipt := range xShardReceipts {
+		logs = append(logs, receipt.Logs...)
+	}
 	return evmState, receipts, logs, usedGas, xShardReceiveTxList, nil
 }
 
@@ -1405,7 +1408,7 @@ func (m *MinorBlockChain) reWriteBlockIndexTo(oldBlock *types.MinorBlock, newBlo
 	for number := newBlock.NumberU64() + 1; rawdb.ReadCanonicalHash(m.db, rawdb.ChainTypeMinor, number) != (common.Hash{}); number++ {
 		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, number)
 	}
-	return m.reorgWithBatch(batch, oldBlock, newBlock)
+	return m.reorgWithBatch(batch, oldBlock, newBlock, true)
 }
 
 func (m *MinorBlockChain) GetBranch() account.Branch {
-- 
2.43.0


From 48351165945e7fbb1947150e70c82ee8fb412750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 41/56] fix: log queries lost errors and logs at the head,
 ignored a block hash, and crashed on short addresses

---
 core/filter.go                | 4 ++--
 core/minorblockchain_addon.go | 8 ++++++++
 internal/qkcapi/api.go        | 8 ++++++--
 rpc/types.go                  | 9 ++++++---
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/core/filter.go b/core/filter.go
index 7903abc..32c6350 100644
--- a/core/filter.go
+++ b/core/filter.go
@@ -17,7 +17,6 @@
 package core
 
 import (
-	"errors"
 	"math/big"
 
 	"github.com/QuarkChain/goquarkchain/core/types"
@@ -105,7 +104,8 @@ func (f *Filter) unindexedLogs(end uint64) ([]*types.Log, error) {
 	for ; f.begin <= end; f.begin++ {
 		block, ok := f.backend.GetBlockByNumber(f.begin).(*types.MinorBlock)
 		if !ok {
-			return nil, errors.New("no such block")
+			// beyond the head
+			return logs, nil
 		}
 		header := block.Header()
 
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 621ff4a..80ed2c7 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1735,6 +1735,14 @@ func (m *MinorBlockChain) GetAllTx(start []byte, limit uint32) ([]*rpc.Transacti
 }
 
 func (m *MinorBlockChain) GetLogsByFilterQuery(args *qrpc.FilterQuery) ([]*types.Log, error) {
+	// no block is named by the zero hash a missing one is transmitted as
+	if args.BlockHash != nil && *args.BlockHash != (common.Hash{}) {
+		block := m.GetMinorBlock(*args.BlockHash)
+		if block == nil {
+			return nil, fmt.Errorf("no such block: hash %v", args.BlockHash.String())
+		}
+		return newFilter(m, args.Addresses, args.Topics).blockLogs(block.Header())
+	}
 	filter := NewRangeFilter(m, args.FromBlock.Uint64(), args.ToBlock.Uint64(), args.Addresses, args.Topics)
 	return filter.Logs()
 }
diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index cc8bc5a..f89832e 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -103,17 +103,21 @@ func (c *CommonAPI) GetLogs(args *rpc.FilterQuery, fullShardKey *hexutil.Uint) (
 	if err != nil {
 		return nil, err
 	}
-	if args.FromBlock == nil || args.FromBlock.Int64() == rpc.LatestBlockNumber.Int64() {
+	// nothing is pending in a shard beyond its latest block
+	if args.FromBlock == nil || args.FromBlock.Sign() < 0 {
 		args.FromBlock = new(big.Int).SetUint64(lastBlockHeight)
 	}
 
-	if args.ToBlock == nil || args.ToBlock.Int64() == rpc.LatestBlockNumber.Int64() {
+	if args.ToBlock == nil || args.ToBlock.Sign() < 0 {
 		args.ToBlock = new(big.Int).SetUint64(lastBlockHeight)
 	}
 
 	args.FullShardId = fullShardID
 
 	logs, err := c.b.GetLogs(args)
+	if err != nil {
+		return nil, err
+	}
 	return encoder.LogListEncoder(logs, false), nil
 }
 
diff --git a/rpc/types.go b/rpc/types.go
index f5c3384..920a480 100644
--- a/rpc/types.go
+++ b/rpc/types.go
@@ -359,10 +359,13 @@ func (args *FilterQuery) UnmarshalJSON(data []byte) error {
 
 func decodeAddress(s string) (common.Address, error) {
 	b, err := hexutil.Decode(s)
-	if err == nil && len(b) != common.AddressLength+4 && len(b) != common.AddressLength {
-		err = fmt.Errorf("hex has invalid length %d after decoding; expected %d for address", len(b), common.AddressLength)
+	if err != nil {
+		return common.Address{}, err
+	}
+	if len(b) != common.AddressLength+4 && len(b) != common.AddressLength {
+		return common.Address{}, fmt.Errorf("hex has invalid length %d after decoding; expected %d for address", len(b), common.AddressLength)
 	}
-	return common.BytesToAddress(b[:common.AddressLength]), err
+	return common.BytesToAddress(b[:common.AddressLength]), nil
 }
 
 func decodeTopic(s string) (common.Hash, error) {
-- 
2.43.0


From 51e6f2b7efcd17a49e6388fa823d314dba0ab9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 42/56] fix: a version 2 signature with another V recovered the
 same sender

---
 core/types/transaction_signing.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/types/transaction_signing.go b/core/types/transaction_signing.go
index db7266d..90d0744 100644
--- a/core/types/transaction_signing.go
+++ b/core/types/transaction_signing.go
@@ -140,7 +140,8 @@ func (s EIP155Signer) Hash(tx *EvmTransaction) common.Hash {
 }
 
 func recoverPlain(sighash common.Hash, R, S, Vb *big.Int, homestead bool) (account.Recipient, error) {
-	if Vb.BitLen() > 8 {
+	// taking the chain id off a version 2 V may leave a negative number
+	if Vb.Sign() < 0 || Vb.BitLen() > 8 {
 		return account.Recipient{}, ErrInvalidSig
 	}
 	// QuarkChain use NetworkId to store the chain Id instead of added to V,
-- 
2.43.0


From afaf20ea96d6ae5d32cd24c69f39515ff02d09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 43/56] fix: a slave given several chain masks ran only the
 shards of the last one

---
 cluster/config/cluster_config.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cluster/config/cluster_config.go b/cluster/config/cluster_config.go
index 3d911b4..b2a47db 100755
--- a/cluster/config/cluster_config.go
+++ b/cluster/config/cluster_config.go
@@ -119,12 +119,13 @@ func (c *ClusterConfig) BackWardChainMaskList() error {
 		}
 	}
 	for _, v := range c.SlaveList {
-		for _, m := range v.ChainMaskListForBackward {
-			bitMask := uint32(1<<(common.IntLeftMostBit(m)-1) - 1)
-			v.FullShardList = make([]uint32, 0)
-			for _, chainConfig := range c.Quarkchain.Chains {
+		v.FullShardList = make([]uint32, 0)
+		for _, chainConfig := range c.Quarkchain.Chains {
+			for _, m := range v.ChainMaskListForBackward {
+				bitMask := uint32(1<<(common.IntLeftMostBit(m)-1) - 1)
 				if chainConfig.ChainID&bitMask == m&bitMask {
 					v.FullShardList = append(v.FullShardList, chainConfig.ChainID<<16+1)
+					break
 				}
 			}
 		}
-- 
2.43.0


From 82618180524745f01284a204e092c426f87cdcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 44/56] fix: every process of a cluster derives the same
 default shards for each slave

---
 cluster/config/cluster_config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cluster/config/cluster_config.go b/cluster/config/cluster_config.go
index b2a47db..2870d13 100755
--- a/cluster/config/cluster_config.go
+++ b/cluster/config/cluster_config.go
@@ -263,6 +263,8 @@ func (q *QuarkChainConfig) GetGenesisShardIds() []uint32 {
 	for shardID := range q.shards {
 		result = append(result, shardID)
 	}
+	// every process of a cluster derives the default assignment of shards from this order
+	sort.Sort(fullShardList(result))
 	return result
 }
 
-- 
2.43.0


From 8dfc11b0df81ad194bf62853798996c75a1465f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 45/56] fix: answer the latest transaction count and pending
 header from the head

---
 cluster/shard/api_backend.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 82e946b..4a9fd58 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -142,9 +142,9 @@ func (s *ShardBackend) GetTransactionCount(address common.Address, blockNrOrHash
 			return &nonce, nil
 		}
 
-		header := s.MinorBlockChain.GetHeaderByNumber(blockNr.Uint64())
-		if header == nil {
-			return nil, errors.New("block not found")
+		header, err := s.GetHeaderByNumber(blockNr)
+		if err != nil {
+			return nil, err
 		}
 		h := header.Hash()
 		hash = &h
@@ -210,7 +210,7 @@ func (s *ShardBackend) AddRootBlock(rBlock *types.RootBlock) (switched bool, err
 // ######################## minor block Methods ########################
 func (s *ShardBackend) GetHeaderByNumber(height qrpc.BlockNumber) (*types.MinorBlockHeader, error) {
 	var iHeader types.IHeader
-	if height == qrpc.LatestBlockNumber {
+	if height < 0 { // latest, or pending: nothing beyond the head is kept
 		iHeader = s.MinorBlockChain.CurrentHeader()
 	} else {
 		iHeader = s.MinorBlockChain.GetHeaderByNumber(height.Uint64())
-- 
2.43.0


From 5925df57a2cfe5a073dc45b2a508525d554130e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 46/56] fix: answer queries for block 0 from block 0, not from
 the head

---
 cluster/slave/api.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cluster/slave/api.go b/cluster/slave/api.go
index 8f777bd..c064c22 100644
--- a/cluster/slave/api.go
+++ b/cluster/slave/api.go
@@ -292,7 +292,7 @@ func (api *PublicFilterAPI) GetHeaderByNumber(ctx context.Context, blockNr rpc.B
 		block *types.MinorBlock
 		err   error
 	)
-	if blockNr.Int64() > 0 {
+	if blockNr.Int64() >= 0 {
 		number := blockNr.Uint64()
 		block, err = api.getShardFilter().GetMinorBlock(common.Hash{}, &number)
 	} else {
@@ -314,7 +314,7 @@ func (api *PublicFilterAPI) GetBlockByNumber(ctx context.Context, blockNr rpc.Bl
 		block *types.MinorBlock
 		err   error
 	)
-	if blockNr.Int64() > 0 {
+	if blockNr.Int64() >= 0 {
 		number := blockNr.Uint64()
 		block, err = api.getShardFilter().GetMinorBlock(common.Hash{}, &number)
 	} else {
@@ -499,7 +499,7 @@ func (api *PublicFilterAPI) GetCode(address common.Address, blockNr rpc.BlockNum
 		code []byte
 		err  error
 	)
-	if blockNr.Int64() > 0 {
+	if blockNr.Int64() >= 0 {
 		number := blockNr.Uint64()
 		code, err = api.getShardFilter().GetCode(address, &number)
 	} else {
-- 
2.43.0


From 482c633aa747f9ea5c5d1c65a169e777223e92aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 47/56] fix: execute a call at a height in the environment of
 that block

---
 core/minorblockchain_addon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 80ed2c7..cbf3a71 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -736,7 +736,7 @@ func (m *MinorBlockChain) ExecuteTx(tx *types.Transaction, fromAddress *account.
 	}
 	gp := new(GasPool).AddGas(mBlock.GasLimit().Uint64())
 	gasUsed := new(uint64)
-	ret, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, state, m.CurrentHeader(), evmTx, gasUsed, *m.GetVMConfig())
+	ret, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, state, mBlock.Header(), evmTx, gasUsed, *m.GetVMConfig())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fe745500c0906715773391ebc20107cecb5b0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 48/56] fix: estimate cross-shard gas with the funds that
 travel, and end for any gas limit

---
 core/minorblockchain_addon.go | 37 ++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index cbf3a71..26eb9c6 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1294,14 +1294,32 @@ func (m *MinorBlockChain) EstimateGas(tx *types.Transaction, fromAddress *accoun
 	}
 	cap := hi
 
+	// running the tx rewrites where it comes from, so find out first whether it arrives from another shard
+	fromShardSize, err := m.clusterConfig.Quarkchain.GetShardSizeByChainId(tx.EvmTx.FromChainID())
+	if err != nil {
+		return 0, err
+	}
+	if err := tx.EvmTx.SetFromShardSize(fromShardSize); err != nil {
+		return 0, err
+	}
+	toShardSize, err := m.clusterConfig.Quarkchain.GetShardSizeByChainId(tx.EvmTx.ToChainID())
+	if err != nil {
+		return 0, err
+	}
+	if err := tx.EvmTx.SetToShardSize(toShardSize); err != nil {
+		return 0, err
+	}
+	arrives := tx.EvmTx.IsCrossShard() && tx.EvmTx.ToFullShardId() == m.branch.Value
+
 	runTx := func(gas uint32) error {
 		evmState := currentState.Copy()
-		if tx.EvmTx.IsCrossShard() && tx.EvmTx.ToFullShardId() == m.branch.Value {
-			evmState.SetBalance(fromAddress.Recipient, tx.EvmTx.Value(), tx.EvmTx.TransferTokenID())
+		if arrives {
+			// its value and gas were paid in the shard it comes from
+			evmState.AddBalance(fromAddress.Recipient, tx.EvmTx.Value(), tx.EvmTx.TransferTokenID())
 
-			gasFee := big.NewInt(int64(tx.EvmTx.Gas()))
+			gasFee := big.NewInt(int64(gas))
 			gasFee.Mul(gasFee, tx.EvmTx.GasPrice())
-			evmState.SetBalance(fromAddress.Recipient, gasFee, tx.EvmTx.GasTokenID())
+			evmState.AddBalance(fromAddress.Recipient, gasFee, tx.EvmTx.GasTokenID())
 		}
 
 		evmState.SetGasUsed(new(big.Int).SetUint64(0))
@@ -1313,17 +1331,18 @@ func (m *MinorBlockChain) EstimateGas(tx *types.Transaction, fromAddress *accoun
 
 		gp := new(GasPool).AddGas(evmState.GetGasLimit().Uint64())
 		gasUsed := new(uint64)
-		receipt := new(types.Receipt)
-		_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, evmState, m.CurrentHeader(), evmTx, gasUsed, m.vmConfig)
-
+		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, evmState, m.CurrentHeader(), evmTx, gasUsed, m.vmConfig)
+		if err != nil {
+			return err
+		}
 		if receipt.Status == types.ReceiptStatusFailed {
 			return errors.New("failed")
 		}
-		return err
+		return nil
 	}
 
 	for lo+1 < hi {
-		mid := (lo + hi) / 2
+		mid := lo + (hi-lo)/2
 		if runTx(mid) == nil {
 			hi = mid
 		} else {
-- 
2.43.0


From 463253503c5ae289c45adbbf26d80e5b0dca0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 49/56] fix: report gas used and contract address of a receipt

---
 internal/encoder/encoder.go |  4 ++--
 internal/qkcapi/api.go      | 12 +-----------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/internal/encoder/encoder.go b/internal/encoder/encoder.go
index 90d1a6a..61347fb 100644
--- a/internal/encoder/encoder.go
+++ b/internal/encoder/encoder.go
@@ -439,12 +439,12 @@ func ReceiptEncoder(block *types.MinorBlock, i int, receipt *types.Receipt) (map
 		"blockHeight":       hexutil.Uint64(header.Number),
 		"blockNumber":       hexutil.Uint64(header.Number),
 		"cumulativeGasUsed": hexutil.Uint64(receipt.CumulativeGasUsed),
-		"gasUsed":           hexutil.Uint64(receipt.GasUsed - receipt.GetPrevGasUsed()),
+		"gasUsed":           hexutil.Uint64(receipt.GasUsed),
 		"status":            hexutil.Uint64(receipt.Status),
 		"logs":              LogListEncoder(receipt.Logs, false),
 		"timestamp":         hexutil.Uint64(block.Time()),
 	}
-	if receipt.ContractAddress != (ethCommon.Address{}) {
+	if receipt.ContractAddress == (ethCommon.Address{}) {
 		field["contractAddress"] = nil
 	} else {
 		addr := account.Address{
diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index f89832e..75de672 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -81,17 +81,7 @@ func (c *CommonAPI) GetTransactionReceipt(txID hexutil.Bytes) (map[string]interf
 	if minorBlock == nil {
 		return nil, nil
 	}
-	ret, err := encoder.ReceiptEncoder(minorBlock, int(index), receipt)
-	if receipt.ContractAddress != (common.Address{}) {
-		ret["contractAddress"] = nil
-	} else {
-		ret["contractAddress"] = account.Address{
-			Recipient:    receipt.ContractAddress,
-			FullShardKey: minorBlock.Branch().Value,
-		}.ToHex()
-	}
-
-	return ret, err
+	return encoder.ReceiptEncoder(minorBlock, int(index), receipt)
 }
 
 func (c *CommonAPI) GetLogs(args *rpc.FilterQuery, fullShardKey *hexutil.Uint) ([]map[string]interface{}, error) {
-- 
2.43.0


From 304412fb065a45df068e484687cc9ed3c913db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 50/56] fix: continue the list of all transactions where the
 caller asks

---
 internal/qkcapi/api.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index 75de672..6e82680 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -489,15 +489,11 @@ func txDetailEncode(tx *qrpc.TransactionDetail) (map[string]interface{}, error)
 
 func (p *PublicBlockChainAPI) GetAllTransaction(fullShardKey hexutil.Uint, start *hexutil.Bytes, limit *hexutil.Uint) (map[string]interface{}, error) {
 	var (
-		err        error
 		startValue = make([]byte, 0)
 		limitValue = uint32(10)
 	)
 	if start != nil {
-		startValue, err = start.MarshalText()
-		if err != nil {
-			return nil, err
-		}
+		startValue = *start
 	}
 
 	if limit != nil {
-- 
2.43.0


From 8a521d167431e43edc08b61dad2055765391cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 51/56] fix: call arguments without a recipient, and a default
 gas price that stays

---
 internal/qkcapi/api.go        | 2 +-
 internal/qkcapi/input_args.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index 6e82680..8bc7410 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -30,7 +30,7 @@ func (c *CommonAPI) callOrEstimateGas(args *CallArgs, height *uint64, isCall boo
 		return nil, err
 	}
 	if isCall {
-		isSameChain := clusterCfg.Quarkchain.IsSameFullShard(args.From.FullShardKey, args.To.FullShardKey)
+		isSameChain := args.To == nil || clusterCfg.Quarkchain.IsSameFullShard(args.From.FullShardKey, args.To.FullShardKey)
 		if !isSameChain {
 			return nil, fmt.Errorf("Call cross-shard tx not supported yet\n")
 		}
diff --git a/internal/qkcapi/input_args.go b/internal/qkcapi/input_args.go
index 8df08bf..0a65f7c 100644
--- a/internal/qkcapi/input_args.go
+++ b/internal/qkcapi/input_args.go
@@ -57,7 +57,11 @@ type GetAccountDataArgs struct {
 
 func (c *CallArgs) setDefaults() {
 	if c.From == nil {
-		temp := account.CreatEmptyAddress(c.To.FullShardKey)
+		fullShardKey := uint32(0)
+		if c.To != nil {
+			fullShardKey = c.To.FullShardKey
+		}
+		temp := account.CreatEmptyAddress(fullShardKey)
 		c.From = &temp
 	}
 }
@@ -110,7 +114,7 @@ func (c *CreateTxArgs) setDefaults(config *config.QuarkChainConfig) error {
 		c.Gas = (*hexutil.Big)(params.DefaultStartGas)
 	}
 	if c.GasPrice == nil {
-		c.GasPrice = (*hexutil.Big)(params.DefaultGasPrice.Div(params.DefaultGasPrice, new(big.Int).SetUint64(10)))
+		c.GasPrice = (*hexutil.Big)(new(big.Int).Div(params.DefaultGasPrice, new(big.Int).SetUint64(10)))
 	}
 	if c.Value == nil {
 		t := hexutil.Big{}
-- 
2.43.0


From b1fb247d457be5f7d26ae1a072eae77b9df97fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:26 +0000
Subject: [PATCH 52/56] fix: the list of all transactions answered with the
 request instead of the response

---
 cluster/slave/slave_grpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/slave/slave_grpc.go b/cluster/slave/slave_grpc.go
index aba890f..fa5be83 100755
--- a/cluster/slave/slave_grpc.go
+++ b/cluster/slave/slave_grpc.go
@@ -304,7 +304,7 @@ func (s *SlaveServerSideOp) GetAllTx(ctx context.Context, req *rpc.Request) (*rp
 		return nil, err
 	}
 
-	if response.Data, err = serialize.SerializeToBytes(gReq); err != nil {
+	if response.Data, err = serialize.SerializeToBytes(gRes); err != nil {
 		return nil, err
 	}
 	return response, nil
-- 
2.43.0


From 3e9f43a3c40098d51c4a70431c17a8c23ab3888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:26 +0000
Subject: [PATCH 53/56] fix: pages of a transaction history after the first one
 go on to older transactions

---
 core/minorblockchain_addon.go | 13 ++++++++++---
 qkcdb/rocksdb.go              | 12 ++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 26eb9c6..241c3f6 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1620,9 +1620,16 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 		index      uint32
 		txHashes   = make(map[common.Hash]struct{})
 	)
-	it.Seek(end)
+	defer it.Release()
+	// newest first: from start, the last of the range, down to end
+	it.Seek(start)
+	if !it.Valid() {
+		it.Last()
+	} else if bytes.Compare(it.Key(), start) > 0 {
+		it.Prev()
+	}
 	for it.Valid() {
-		if bytes.Compare(it.Key(), start) > 0 {
+		if bytes.Compare(it.Key(), end) < 0 {
 			break
 		}
 		if getTxType == GetTxFromAddress {
@@ -1712,7 +1719,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 		if limit == 0 {
 			break
 		}
-		it.Next()
+		it.Prev()
 	}
 	return txList, next, nil
 }
diff --git a/qkcdb/rocksdb.go b/qkcdb/rocksdb.go
index 37d48f1..79a9394 100644
--- a/qkcdb/rocksdb.go
+++ b/qkcdb/rocksdb.go
@@ -172,6 +172,18 @@ func (q *QKCIterator) Next() {
 	q.it.Next()
 }
 
+func (q *QKCIterator) Prev() {
+	q.it.Prev()
+}
+
+func (q *QKCIterator) Last() {
+	q.it.SeekToLast()
+}
+
+func (q *QKCIterator) Release() {
+	q.it.Close()
+}
+
 func (q *QKCIterator) Valid() bool {
 	return q.it.Valid()
 }
-- 
2.43.0


From fbcf64a95632969416e14c129e1ee3238f43036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:26 +0000
Subject: [PATCH 54/56] fix: a root block no longer canonical was reported as
 confirming a minor block

---
 core/rootblockchain.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 5b49a81..a69f33a 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -1426,7 +1426,13 @@ func (bc *RootBlockChain) PutRootBlockConfirmingMinorBlock(blockID []byte, rHash
 
 func (bc *RootBlockChain) GetRootBlockConfirmingMinorBlock(blockID []byte) common.Hash {
 	//For json Rpc
-	return rawdb.GetRootBlockConfirmingMinorBlock(bc.db, blockID)
+	hash := rawdb.GetRootBlockConfirmingMinorBlock(bc.db, blockID)
+	// the record outlives a reorg which abandons the root block
+	header := bc.GetHeader(hash)
+	if header == nil || rawdb.ReadCanonicalHash(bc.db, rawdb.ChainTypeRoot, header.NumberU64()) != hash {
+		return common.Hash{}
+	}
+	return hash
 }
 
 func (bc *RootBlockChain) SetRootChainStakesFunc(getRootChainStakes func(address account.Address,
-- 
2.43.0


From a80d79ac9616c8875c18d910a42971d71c8f531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:55 +0000
Subject: [PATCH 55/56] fix: asking for the minor block with the zero hash was
 answered with the genesis block

---
 internal/qkcapi/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index 8bc7410..044474d 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -326,6 +326,10 @@ func (p *PublicBlockChainAPI) GetMinorBlockById(blockID hexutil.Bytes, includeTx
 		return nil, err
 	}
 	branch := account.Branch{Value: fullShardId}
+	if blockHash == (common.Hash{}) {
+		// without a hash a shard looks for a height
+		return nil, errors.New("minor block is nil")
+	}
 	minorBlock, extra, err := p.b.GetMinorBlockByHash(blockHash, branch, *needExtraInfo)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9adc563d431bf2ae33f8c3e59c9eb052268aaacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:32 +0000
Subject: [PATCH 56/56] fix: deploying a system contract numbered 2^63 or more
 stopped the process, and 2^64+x was taken for x

---
 core/vm/contracts.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index f553de7..979de70 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -643,15 +643,15 @@ func (r *deploySystemContract) Run(input []byte, evm *EVM, contract *Contract) (
 	}
 
 	data := getData(input, 0, 32)
-	index := new(big.Int).SetBytes(data).Uint64()
-	contractIndex := 1
-	if index > 0 {
-		contractIndex = int(index)
-	}
-	if int(contractIndex) >= len(SystemContracts) {
+	index := new(big.Int).SetBytes(data)
+	if index.Cmp(big.NewInt(int64(len(SystemContracts)))) >= 0 {
 		contract.Gas = 0
 		return nil, ErrInvalidSystemContractIndex
 	}
+	contractIndex := 1
+	if index.Sign() > 0 {
+		contractIndex = int(index.Int64())
+	}
 
 	if SystemContractScopeMap[contractIndex] != ContractScopeGlobal {
 		if SystemContractScopeMap[contractIndex] != ContractScopeLocalChain0 {
-- 
2.43.0


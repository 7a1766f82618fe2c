package rawdb

// C23: what is stored in the chain database under one kind of record is read back as stored and touches no other
// record, on both stores, directly and through batches, across closing and reopening.

import (
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/qkcdb"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

// ---- the stores ------------------------------------------------------------------------------

type c23Store struct {
	db   ethdb.Database
	path string
}

func c23Open(c *kit.Case, kind int) *c23Store {
	s := &c23Store{}
	if kind == 0 {
		s.db = service.NewQkcMemoryDB(false)
		return s
	}
	dir, err := ioutil.TempDir(os.Getenv("VERIF_TMP"), "c23")
	if err != nil {
		panic(err)
	}
	s.path = dir
	s.reopen(c, false, false)
	return s
}

func (s *c23Store) reopen(c *kit.Case, clean, readonly bool) {
	if s.db != nil {
		s.db.Close()
	}
	db, err := qkcdb.NewDatabase(filepath.Join(s.path, "db"), clean, readonly)
	c.Check(err == nil, "open", "opening the database: %v", err)
	s.db = db
}

func (s *c23Store) close() {
	if s.path != "" {
		s.db.Close()
		os.RemoveAll(s.path)
	}
}

// list returns the content in the order of iteration.
func (s *c23Store) list() []string {
	var l []string
	switch db := s.db.(type) {
	case *qkcdb.QKCDataBase:
		it := db.NewIterator()
		defer it.Release()
		for it.Next() {
			l = append(l, hex.EncodeToString(it.Key())+" "+hex.EncodeToString(it.Value()))
		}
	case *service.QkcMemoryDB:
		for _, k := range db.Keys() {
			v, _ := db.Get(k)
			l = append(l, hex.EncodeToString(k)+" "+hex.EncodeToString(v))
		}
		sort.Strings(l)
	}
	return l
}

func c23Map(m map[string]string) []string {
	var l []string
	for k, v := range m {
		l = append(l, hex.EncodeToString([]byte(k))+" "+hex.EncodeToString([]byte(v)))
	}
	sort.Strings(l)
	return l
}

func TestVerifC23Store(t *testing.T) {
	h := kit.New("C23", "store")
	defer h.Done()
	keys := []string{"a", "a\x00", "b"}
	vals := []string{"1", "22", ""}
	for kind, name := range []string{"memory", "disk"} {
		kind, name := kind, name
		depth := []int{kit.Tier(4, 5), kit.Tier(3, 4)}[kind]
		h.Bound(name+" operations", depth)
		h.Explore(name, kit.Opt{MaxDev: -1}, func(c *kit.Case) {
			s := c23Open(c, kind)
			defer s.close()
			m := map[string]string{}
			type w struct {
				k, v string
				del  bool
			}
			var pend []w
			var batch ethdb.Batch
			readonly := false
			nops := 14
			if kind == 1 {
				nops = 17
			}
			for i := 0; i < depth; i++ {
				op := c.Choose(nops, "op")
				c.Step()
				switch {
				case op < 4: // put
					k, v := keys[[]int{0, 0, 1, 2}[op]], vals[[]int{0, 1, 2, 0}[op]]
					kb, vb := []byte(k), []byte(v)
					err := s.db.Put(kb, vb)
					c.Check(err == nil, "put", "put: %v", err)
					for j := range kb {
						kb[j] = 'X'
					}
					for j := range vb {
						vb[j] = 'X'
					}
					if !readonly {
						m[k] = v
					}
					c.Logf("put %q=%q", k, v)
				case op < 6: // delete
					if readonly {
						continue
					}
					k := keys[op-4]
					kb := []byte(k)
					err := s.db.Delete(kb)
					c.Check(err == nil, "delete", "delete: %v", err)
					kb[0] = 'X'
					delete(m, k)
					c.Logf("delete %q", k)
				case op < 11: // batch
					if readonly {
						continue
					}
					if batch == nil {
						batch = s.db.NewBatch()
					}
					x := []w{{"a", "1", false}, {"a", "333", false}, {"b", "1", false}, {"a", "", true}, {"b", "", true}}[op-6]
					kb, vb := []byte(x.k), []byte(x.v)
					var err error
					if x.del {
						err = batch.Delete(kb)
					} else {
						err = batch.Put(kb, vb)
					}
					c.Check(err == nil, "batch-add", "adding to a batch: %v", err)
					kb[0] = 'X'
					for j := range vb {
						vb[j] = 'X'
					}
					pend = append(pend, x)
					c.Logf("batch %v", x)
				case op == 11: // write, the batch stays usable
					if batch == nil {
						continue
					}
					err := batch.Write()
					c.Check(err == nil, "batch-write", "writing a batch: %v", err)
					for _, x := range pend {
						if x.del {
							delete(m, x.k)
						} else {
							m[x.k] = x.v
						}
					}
					c.Logf("write")
				case op == 12: // reset
					if batch == nil {
						continue
					}
					batch.Reset()
					pend = nil
					c.Check(batch.ValueSize() == 0, "batch-size", "a reset batch has size %d", batch.ValueSize())
					c.Logf("reset")
				case op == 13: // a value handed out is the caller's
					v, err := s.db.Get([]byte("a"))
					if err == nil {
						for j := range v {
							v[j] = 'X'
						}
					}
				case op == 14:
					s.reopen(c, false, false)
					batch, pend, readonly = nil, nil, false
					c.Logf("reopen")
				case op == 15:
					s.reopen(c, false, true)
					batch, pend, readonly = nil, nil, true
					c.Logf("reopen for reading")
				case op == 16:
					s.reopen(c, true, false)
					batch, pend, readonly = nil, nil, false
					m = map[string]string{}
					c.Logf("reopen clean")
				}
				for _, k := range keys {
					want, ok := m[k]
					v, err := s.db.Get([]byte(k))
					c.Check((err == nil) == ok && string(v) == want, "get", "%q is %q (%v), expected %q (%v)", k, v, err, want, ok)
					has, err := s.db.Has([]byte(k))
					c.Check(err == nil && has == ok, "has", "%q is held: %v (%v), expected %v", k, has, err, ok)
				}
				c.Check(fmt.Sprint(s.list()) == fmt.Sprint(c23Map(m)), "list", "the content is %v, expected %v", s.list(), c23Map(m))
			}
			if kind == 1 {
				s.reopen(c, false, false)
				c.Check(fmt.Sprint(s.list()) == fmt.Sprint(c23Map(m)), "reopen", "after reopening the content is %v, expected %v", s.list(), c23Map(m))
			}
			c.State(fmt.Sprint(c23Map(m)))
		})
	}
}

// ---- the records -----------------------------------------------------------------------------

type c23rw interface {
	DatabaseReader
	DatabaseWriter
	DatabaseDeleter
}

type c23w interface {
	DatabaseWriter
	DatabaseDeleter
}

type c23Op struct {
	name string
	do   func(db c23w)
	mod  func(m map[string]string)
}

type c23Obs struct {
	name string
	get  func(db DatabaseReader) string
	want func(m map[string]string) string
}

func c23Ser(v interface{}) string {
	b, err := serialize.SerializeToBytes(v)
	if err != nil {
		panic(err)
	}
	return hex.EncodeToString(b)
}

func c23Minor(number uint64, ntx int, tag byte) *types.MinorBlock {
	meta := &types.MinorBlockMeta{Root: common.Hash{tag}, GasUsed: &serialize.Uint256{Value: big.NewInt(5)}, CrossShardGasUsed: &serialize.Uint256{Value: new(big.Int)}, XShardGasLimit: &serialize.Uint256{Value: big.NewInt(9)}, XShardTxCursorInfo: &types.XShardTxCursorInfo{RootBlockHeight: 1}}
	h := &types.MinorBlockHeader{Number: number, Branch: account.Branch{Value: 2}, Coinbase: account.Address{Recipient: common.Address{tag}, FullShardKey: 2}, CoinbaseAmount: c23Tokens(tag), ParentHash: common.Hash{7, tag}, Time: 100 + uint64(tag), Difficulty: big.NewInt(3), GasLimit: &serialize.Uint256{Value: big.NewInt(1000)}, Extra: []byte{tag}, MixDigest: common.Hash{tag, 1}}
	var txs []*types.Transaction
	for i := 0; i < ntx; i++ {
		evm := types.NewEvmTransaction(uint64(i), common.Address{tag, byte(i)}, big.NewInt(4), 21000, big.NewInt(1), 2, 2, 3, 0, []byte{tag}, 35760, 35760)
		txs = append(txs, &types.Transaction{TxType: types.EvmTx, EvmTx: evm})
	}
	return types.NewMinorBlock(h, meta, txs, c23Receipts(ntx), nil)
}

func c23Tokens(tag byte) *types.TokenBalances {
	return types.NewTokenBalancesWithMap(map[uint64]*big.Int{35760: big.NewInt(int64(tag) + 1)})
}

func c23Receipts(n int) types.Receipts {
	var l types.Receipts
	for i := 0; i < n; i++ {
		l = append(l, &types.Receipt{Status: uint64(i % 2), CumulativeGasUsed: uint64(100 * (i + 1)), GasUsed: 100, TxHash: common.Hash{byte(i), 9}, ContractAddress: common.Address{byte(i), 3}, ContractFullShardKey: uint32(i),
			Logs: []*types.Log{{Recipient: common.Address{8}, Topics: []common.Hash{{byte(i)}}, Data: []byte{1, byte(i)}, BlockNumber: 7, TxHash: common.Hash{byte(i), 9}, TxIndex: uint32(i), BlockHash: common.Hash{4}, Index: uint32(i)}}})
	}
	return l
}

func c23ReceiptText(l types.Receipts) string {
	var s []string
	for _, r := range l {
		t := fmt.Sprintf("%d %x %d %d %x %x %x %d", r.Status, r.PostState, r.CumulativeGasUsed, r.GasUsed, r.Bloom, r.TxHash, r.ContractAddress, r.ContractFullShardKey)
		for _, g := range r.Logs {
			t += fmt.Sprintf("[%x %x %x %d %x %d %x %d]", g.Recipient, g.Topics, g.Data, g.BlockNumber, g.TxHash, g.TxIndex, g.BlockHash, g.Index)
		}
		s = append(s, t)
	}
	return fmt.Sprintf("%d:%s", len(l), strings.Join(s, ","))
}

func c23Build() (ops []c23Op, obs []c23Obs) {
	var (
		m1, m2 = c23Minor(1, 2, 1), c23Minor(256, 0, 2)
		r1     = types.NewRootBlock(&types.RootBlockHeader{Number: 1, Time: 5, ParentHash: common.Hash{1}, Coinbase: account.Address{FullShardKey: 2}, CoinbaseAmount: c23Tokens(9), Difficulty: big.NewInt(1), ToTalDifficulty: big.NewInt(2)}, types.MinorBlockHeaders{m1.Header(), m2.Header()}, nil)
		A, B   = m1.Hash(), r1.Hash()
		op     = func(name string, do func(db c23w), mod func(m map[string]string)) {
			ops = append(ops, c23Op{name, do, mod})
		}
		set = func(k, v string) func(m map[string]string) { return func(m map[string]string) { m[k] = v } }
		del = func(ks ...string) func(m map[string]string) {
			return func(m map[string]string) {
				for _, k := range ks {
					delete(m, k)
				}
			}
		}
		see = func(k, none string, get func(db DatabaseReader) string) {
			obs = append(obs, c23Obs{k, get, func(m map[string]string) string {
				if v, ok := m[k]; ok {
					return v
				}
				return none
			}})
		}
		hx   = func(h common.Hash) string { return hex.EncodeToString(h[:]) }
		zero = hx(common.Hash{})
	)
	// a hash by height
	for _, ct := range []ChainType{ChainTypeRoot, ChainTypeMinor} {
		ct := ct
		for _, x := range []struct {
			n uint64
			h common.Hash
		}{{0, A}, {0, B}, {256, A}, {1 << 32, B}} {
			x := x
			k := fmt.Sprintf("canonical %d %d", ct, x.n)
			op(fmt.Sprintf("%s = %s", k, hx(x.h)[:4]), func(db c23w) { WriteCanonicalHash(db, ct, x.h, x.n) }, set(k, hx(x.h)))
			if x.h == A || x.n > 256 {
				op("delete "+k, func(db c23w) { DeleteCanonicalHash(db, ct, x.n) }, del(k))
				see(k, zero, func(db DatabaseReader) string { return hx(ReadCanonicalHash(db, ct, x.n)) })
			}
		}
	}
	// heads and markers
	for name, f := range map[string]struct {
		w func(DatabaseWriter, common.Hash)
		r func(DatabaseReader) common.Hash
	}{"head header": {WriteHeadHeaderHash, ReadHeadHeaderHash}, "head block": {WriteHeadBlockHash, ReadHeadBlockHash}, "head fast": {WriteHeadFastBlockHash, ReadHeadFastBlockHash}, "committing root": {WriteRootBlockCommittingHash, ReadRbCommittingHash}} {
		name, f := name, f
		for _, x := range []common.Hash{A, B} {
			x := x
			op(name+" = "+hx(x)[:4], func(db c23w) { f.w(db, x) }, set(name, hx(x)))
		}
		see(name, zero, func(db DatabaseReader) string { return hx(f.r(db)) })
	}
	op("delete committing root", func(db c23w) { DeleteRbCommittingHash(db) }, del("committing root"))
	for _, n := range []uint64{0, 300} {
		n := n
		op(fmt.Sprint("trie progress ", n), func(db c23w) { WriteFastTrieProgress(db, n) }, set("trie progress", fmt.Sprint(n)))
	}
	see("trie progress", "0", func(db DatabaseReader) string { return fmt.Sprint(ReadFastTrieProgress(db)) })
	// headers
	number := func(h common.Hash) string { return "number " + hx(h)[:6] }
	header := func(h common.Hash) string { return "header " + hx(h)[:6] }
	block := func(h common.Hash) string { return "block " + hx(h)[:6] }
	for _, b := range []*types.MinorBlock{m1, m2} {
		b := b
		k := header(b.Hash())
		op(k, func(db c23w) { WriteMinorBlockHeader(db, b.Header()) }, func(m map[string]string) {
			m[k], m[number(b.Hash())] = c23Ser(b.Header()), fmt.Sprint(b.NumberU64())
		})
		op("delete "+k, func(db c23w) { DeleteMinorBlockHeader(db, b.Hash()) }, del(k, number(b.Hash())))
		see(k, "", func(db DatabaseReader) string {
			if v := ReadMinorBlockHeader(db, b.Hash()); v != nil {
				return c23Ser(v)
			}
			return ""
		})
		k2 := block(b.Hash())
		op(k2, func(db c23w) { WriteMinorBlock(db, b) }, set(k2, c23Ser(b)))
		see(k2, "", func(db DatabaseReader) string {
			if v := ReadMinorBlock(db, b.Hash()); v != nil {
				return c23Ser(v)
			}
			return ""
		})
	}
	k, k2 := header(B), block(B)
	op(k, func(db c23w) { WriteRootBlockHeader(db, r1.Header()) }, func(m map[string]string) { m[k], m[number(B)] = c23Ser(r1.Header()), "1" })
	op("delete "+k, func(db c23w) { DeleteRootBlockHeader(db, B) }, del(k, number(B)))
	see(k, "", func(db DatabaseReader) string {
		if v := ReadRootBlockHeader(db, B); v != nil {
			return c23Ser(v)
		}
		return ""
	})
	op(k2, func(db c23w) { WriteRootBlock(db, r1) }, set(k2, c23Ser(r1)))
	see(k2, "", func(db DatabaseReader) string {
		if v := ReadRootBlock(db, B); v != nil {
			return c23Ser(v)
		}
		return ""
	})
	for _, h := range []common.Hash{A, m2.Hash(), B} {
		h := h
		see(number(h), "", func(db DatabaseReader) string {
			if v := ReadHeaderNumber(db, h); v != nil {
				return fmt.Sprint(*v)
			}
			return ""
		})
		obs = append(obs, c23Obs{"has " + hx(h)[:6], func(db DatabaseReader) string { return fmt.Sprint(HasHeader(db, h), HasBlock(db, h)) }, func(m map[string]string) string {
			_, a := m[header(h)]
			_, b := m[block(h)]
			return fmt.Sprint(a, b)
		}})
		op("delete "+block(h), func(db c23w) { DeleteBlock(db, h) }, del(block(h)))
	}
	op("delete minor block", func(db c23w) { DeleteMinorBlock(db, A) }, del("receipts "+hx(A)[:6], block(A), "committed "+hx(A)[:6]))
	op("delete root block", func(db c23w) { DeleteRootBlock(db, B) }, del("latest "+hx(B)[:6], block(B)))
	// records by hash
	for _, h := range []common.Hash{A, B} {
		h := h
		s := hx(h)[:6]
		for n, hs := range [][]*types.MinorBlockHeader{{}, {m1.Header()}, {m2.Header(), m1.Header()}} {
			hs := hs
			if n == 1 && h == A {
				continue
			}
			t := fmt.Sprint(len(hs))
			for _, x := range hs {
				t += c23Ser(x)
			}
			op(fmt.Sprint("latest ", s, " ", n), func(db c23w) { WriteLatestMinorBlockHeaders(db, h, hs) }, set("latest "+s, t))
		}
		op("delete latest "+s, func(db c23w) { DeleteLatestMinorBlockHeaders(db, h) }, del("latest "+s))
		see("latest "+s, "0", func(db DatabaseReader) string {
			hs := ReadLatestMinorBlockHeaders(db, h)
			t := fmt.Sprint(len(hs))
			for _, x := range hs {
				t += c23Ser(x)
			}
			return t
		})
		for _, n := range []int{0, 2} {
			rs := c23Receipts(n)
			op(fmt.Sprint("receipts ", s, " ", n), func(db c23w) { WriteReceipts(db, h, rs) }, set("receipts "+s, c23ReceiptText(rs)))
		}
		op("delete receipts "+s, func(db c23w) { DeleteReceipts(db, h) }, del("receipts "+s))
		see("receipts "+s, "0:", func(db DatabaseReader) string { return c23ReceiptText(ReadReceipts(db, h)) })
		obs = append(obs, c23Obs{"has receipts " + s, func(db DatabaseReader) string { return fmt.Sprint(HasReceipts(db, h)) }, func(m map[string]string) string {
			_, ok := m["receipts "+s]
			return fmt.Sprint(ok)
		}})
		for _, n := range []uint32{0, 257} {
			n := n
			op(fmt.Sprint("total tx ", s, " ", n), func(db c23w) { WriteTotalTx(db, h, n) }, set("total tx "+s, fmt.Sprint(n)))
		}
		see("total tx "+s, "", func(db DatabaseReader) string {
			if v := ReadTotalTx(db, h); v != nil {
				return fmt.Sprint(*v)
			}
			return ""
		})
		op("genesis "+s, func(db c23w) { WriteGenesisBlock(db, h, m2) }, set("genesis "+s, c23Ser(m2)))
		see("genesis "+s, "", func(db DatabaseReader) string {
			if v := ReadGenesis(db, h); v != nil {
				return c23Ser(v)
			}
			return ""
		})
		for n, l := range []*types.CrossShardTransactionDepositList{{}, {TXList: []*types.CrossShardTransactionDeposit{c23Deposit(1), c23Deposit(2)}}} {
			n, l := n, l
			op(fmt.Sprint("arrived ", s, " ", n), func(db c23w) { WriteConfirmedCrossShardTxList(db, h, l) }, set("arrived "+s, c23Ser(l)))
			op(fmt.Sprint("sent ", s, " ", n), func(db c23w) { WriteCrossShardTxList(db, h, l) }, set("sent "+s, c23Ser(l)))
			hl := &HashList{}
			if n == 1 {
				hl.HList = []common.Hash{{1}, {2}}
			}
			op(fmt.Sprint("deposit hashes ", s, " ", n), func(db c23w) { PutXShardDepositHashList(db, h, hl) }, set("deposit hashes "+s, fmt.Sprint(len(hl.HList), hl.HList)))
			op(fmt.Sprint("coinbase ", s, " ", n), func(db c23w) { WriteMinorBlockCoinbase(db, h, c23Tokens(byte(n))) }, set("coinbase "+s, c23Ser(c23Tokens(byte(n)))))
			op(fmt.Sprint("confirmed at ", s, " ", n), func(db c23w) { WriteLastConfirmedMinorBlockHeaderAtRootBlock(db, h, []common.Hash{A, B}[n]) }, set("confirmed at "+s, hx([]common.Hash{A, B}[n])))
			id := append(h.Bytes(), 0, 0, 0, byte(n))
			kc := fmt.Sprint("confirming ", s, " ", n)
			op(kc, func(db c23w) { PutRootBlockConfirmingMinorBlock(db, id, B) }, set(kc, hx(B)))
			see(kc, zero, func(db DatabaseReader) string { return hx(GetRootBlockConfirmingMinorBlock(db, id)) })
		}
		list := func(l *types.CrossShardTransactionDepositList) string {
			if l == nil {
				return ""
			}
			return c23Ser(l)
		}
		see("arrived "+s, "", func(db DatabaseReader) string { return list(ReadConfirmedCrossShardTxList(db, h)) })
		see("sent "+s, "", func(db DatabaseReader) string { return list(ReadCrossShardTxList(db, h)) })
		see("deposit hashes "+s, "", func(db DatabaseReader) string {
			if l := GetXShardDepositHashList(db, h); l != nil {
				return fmt.Sprint(len(l.HList), l.HList)
			}
			return ""
		})
		see("coinbase "+s, "", func(db DatabaseReader) string {
			v := GetMinorBlockCoinbaseToken(db, h)
			if (v != nil) != ContainMinorBlockByHash(db, h) {
				return "contained and not readable, or the other way round"
			}
			if v == nil {
				return ""
			}
			return c23Ser(v)
		})
		see("confirmed at "+s, zero, func(db DatabaseReader) string { return hx(ReadLastConfirmedMinorBlockHeaderAtRootBlock(db, h)) })
		op("commit "+s, func(db c23w) { WriteCommitMinorBlock(db, h) }, set("committed "+s, "true"))
		op("uncommit "+s, func(db c23w) { DeleteMinorBlockCommitStatus(db, h) }, del("committed "+s))
		see("committed "+s, "false", func(db DatabaseReader) string { return fmt.Sprint(HasCommitMinorBlock(db, h)) })
		op("committing "+s, func(db c23w) { WriteCommittingMinorBlock(db, h) }, set("committing "+s, "true"))
		op("no longer committing "+s, func(db c23w) { DeleteCommittingMinorBlock(db, h) }, del("committing "+s))
		see("committing "+s, "false", func(db DatabaseReader) string { return fmt.Sprint(HasCommittingMinorBlock(db, h)) })
		for _, x := range []struct {
			bit  uint
			sect uint64
		}{{1, 0}, {257, 0}, {1, 256}} {
			x := x
			kb := fmt.Sprint("bloom bits ", x, s)
			op(kb, func(db c23w) { WriteBloomBits(db, x.bit, x.sect, h, []byte{byte(x.bit), 5}) }, set(kb, fmt.Sprint([]byte{byte(x.bit), 5})))
			see(kb, "[]", func(db DatabaseReader) string { v, _ := ReadBloomBits(db, x.bit, x.sect, h); return fmt.Sprint(v) })
		}
		op("preimage "+s, func(db c23w) { WritePreimages(db, map[common.Hash][]byte{h: {1, 2}}) }, set("preimage "+s, "[1 2]"))
		see("preimage "+s, "[]", func(db DatabaseReader) string { return fmt.Sprint(ReadPreimage(db, h)) })
		cfg := config.NewQuarkChainConfig()
		cfg.NetworkID = 77
		op("config "+s, func(db c23w) { WriteChainConfig(db, h, cfg) }, set("config "+s, "77"))
		see("config "+s, "", func(db DatabaseReader) string {
			if v := ReadChainConfig(db, h); v != nil {
				return fmt.Sprint(v.NetworkID)
			}
			return ""
		})
	}
	// production counters
	for _, x := range [][2]uint32{{1, 0}, {1, 256}, {257, 0}} {
		x := x
		for _, v := range [][]byte{{1}, {2, 3}} {
			v := v
			op(fmt.Sprint("count ", x, v), func(db c23w) { WriteMinorBlockCnt(db, x[0], x[1], v) }, set(fmt.Sprint("count ", x), fmt.Sprint(v)))
		}
		see(fmt.Sprint("count ", x), "[]", func(db DatabaseReader) string { return fmt.Sprint(GetMinorBlockCnt(db, x[0], x[1])) })
	}
	// places of transactions, arrivals and minor headers
	t0, t1, dep := m1.Transactions()[0].Hash(), m1.Transactions()[1].Hash(), common.Hash{5, 5}
	place := func(h common.Hash) string { return "place " + hx(h)[:6] }
	op("index m1", func(db c23w) { WriteBlockContentLookupEntriesWithCrossShardHashList(db, m1, nil) }, func(m map[string]string) { m[place(t0)], m[place(t1)] = hx(A)+" 0", hx(A)+" 1" })
	op("index m1 with arrivals", func(db c23w) {
		WriteBlockContentLookupEntriesWithCrossShardHashList(db, m1, &HashList{HList: []common.Hash{{6}, dep}})
	}, func(m map[string]string) {
		m[place(t0)], m[place(t1)], m[place(common.Hash{6})], m[place(dep)] = hx(A)+" 0", hx(A)+" 1", hx(A)+" 2", hx(A)+" 3"
	})
	op("index m2 with an arrival", func(db c23w) {
		WriteBlockContentLookupEntriesWithCrossShardHashList(db, m2, &HashList{HList: []common.Hash{dep}})
	}, set(place(dep), hx(m2.Hash())+" 0"))
	op("index r1", func(db c23w) { WriteBlockContentLookupEntriesWithCrossShardHashList(db, r1, nil) }, func(m map[string]string) { m[place(A)], m[place(m2.Hash())] = hx(B)+" 0", hx(B)+" 1" })
	for _, h := range []common.Hash{t0, t1, dep, {6}, A, m2.Hash()} {
		h := h
		op("delete "+place(h), func(db c23w) { DeleteBlockContentLookupEntry(db, h) }, del(place(h)))
		see(place(h), zero+" 0", func(db DatabaseReader) string {
			b, i := ReadBlockContentLookupEntry(db, h)
			return fmt.Sprint(hx(b), " ", i)
		})
		at := func(m map[string]string) (b string, i int) {
			fmt.Sscanf(m[place(h)], "%s %d", &b, &i)
			return
		}
		if h != A && h != m2.Hash() {
			obs = append(obs, c23Obs{"transaction " + hx(h)[:6], func(db DatabaseReader) string {
				tx, b, i := ReadTransaction(db, h)
				if tx == nil {
					return fmt.Sprint("none ", hx(b), i)
				}
				return fmt.Sprint(hx(tx.Hash()), hx(b), i)
			}, func(m map[string]string) string {
				b, i := at(m)
				if b == "" {
					return fmt.Sprint("none ", zero, 0)
				}
				if m["block "+b[:6]] == "" {
					return fmt.Sprint("none ", zero, 0)
				}
				if b == hx(A) && i < 2 {
					return fmt.Sprint(hx(m1.Transactions()[i].Hash()), b, i)
				}
				return fmt.Sprint("none ", b, i)
			}})
			rs := c23Receipts(2)
			obs = append(obs, c23Obs{"receipt " + hx(h)[:6], func(db DatabaseReader) string {
				r, b, i := ReadReceipt(db, h)
				if r == nil {
					return fmt.Sprint("none ", hx(b), i)
				}
				return fmt.Sprint(c23ReceiptText(types.Receipts{r}), hx(b), i)
			}, func(m map[string]string) string {
				b, i := at(m)
				if b == "" || i >= 2 || m["receipts "+b[:6]] != c23ReceiptText(rs) {
					return fmt.Sprint("none ", zero, 0)
				}
				return fmt.Sprint(c23ReceiptText(rs[i:i+1]), b, i)
			}})
		} else {
			obs = append(obs, c23Obs{"minor header " + hx(h)[:6], func(db DatabaseReader) string {
				x, b, i := ReadMinorHeaderFromRootBlock(db, h)
				if x == nil {
					return fmt.Sprint("none ", hx(b), i)
				}
				return fmt.Sprint(hx(x.Hash()), hx(b), i)
			}, func(m map[string]string) string {
				b, i := at(m)
				if b == "" || m[block(B)] == "" {
					return fmt.Sprint("none ", zero, 0)
				}
				return fmt.Sprint(hx(h), b, i)
			}})
		}
	}
	return ops, obs
}

func c23Deposit(n byte) *types.CrossShardTransactionDeposit {
	return &types.CrossShardTransactionDeposit{CrossShardTransactionDepositV0: types.CrossShardTransactionDepositV0{TxHash: common.Hash{n}, From: account.Address{Recipient: common.Address{n}, FullShardKey: 3}, To: account.Address{Recipient: common.Address{n, n}, FullShardKey: 2},
		Value: &serialize.Uint256{Value: big.NewInt(int64(n))}, GasPrice: &serialize.Uint256{Value: big.NewInt(1)}, GasTokenID: 1, TransferTokenID: 2, GasRemained: &serialize.Uint256{Value: big.NewInt(3)}, MessageData: []byte{n}}}
}

func TestVerifC23Records(t *testing.T) {
	h := kit.New("C23", "records")
	defer h.Done()
	ops, obs := c23Build()
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].name < ops[j].name })
	h.Bound("operations", len(ops))
	h.Bound("records observed", len(obs))
	look := func(c *kit.Case, db DatabaseReader, m map[string]string, when string) {
		for _, o := range obs {
			got, want := o.get(db), o.want(m)
			c.Check(got == want, "record", "%s: %s is %.200q, expected %.200q", when, o.name, got, want)
		}
	}
	depth := kit.Tier(2, 3)
	h.Bound("length of a history in memory", depth)
	h.Explore("memory", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		db := service.NewQkcMemoryDB(false)
		m := map[string]string{}
		for i := 0; i < depth; i++ {
			o := ops[c.Choose(len(ops), "op")]
			c.Logf("%s", o.name)
			c.Step()
			o.do(db)
			o.mod(m)
			look(c, db, m, "after "+o.name)
		}
		c.State(fmt.Sprint(len(m), len(db.Keys())))
	})
	// every operation on top of everything, and in one batch with another one
	h.Explore("full", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		s := c23Open(c, c.Choose(2, "store"))
		defer s.close()
		m := map[string]string{}
		for i := range ops {
			o := ops[i]
			if strings.HasPrefix(o.name, "delete") || strings.HasPrefix(o.name, "uncommit") || strings.HasPrefix(o.name, "no longer") {
				continue
			}
			o.do(s.db)
			o.mod(m)
		}
		look(c, s.db, m, "with everything stored")
		before := map[string]string{}
		for k, v := range m {
			before[k] = v
		}
		b := s.db.NewBatch()
		o := ops[c.Choose(len(ops), "op")]
		o.do(b)
		o.mod(m)
		c.Logf("%s", o.name)
		if !kit.Quick() || s.path == "" {
			p := ops[c.Choose(len(ops), "second")]
			p.do(b)
			p.mod(m)
			c.Logf("%s", p.name)
		}
		look(c, s.db, before, "before the batch is written")
		err := b.Write()
		c.Check(err == nil, "batch", "writing: %v", err)
		look(c, s.db, m, "after the batch is written")
		if s.path != "" {
			s.reopen(c, false, false)
			look(c, s.db, m, "after reopening")
		}
		c.State(o.name)
	})
}

// the last common ancestor of two blocks, over all trees of stored headers
func TestVerifC23Ancestor(t *testing.T) {
	h := kit.New("C23", "ancestor")
	defer h.Done()
	n := kit.Tier(5, 6)
	h.Bound("headers", n)
	h.Explore("trees", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		db := service.NewQkcMemoryDB(false)
		parent := []int{-1}
		minors := []*types.MinorBlockHeader{c23Minor(0, 0, 0).Header()}
		roots := []*types.RootBlockHeader{{Number: 0, CoinbaseAmount: c23Tokens(0), Difficulty: big.NewInt(1), ToTalDifficulty: big.NewInt(1)}}
		for i := 1; i < n; i++ {
			p := c.Choose(i, "parent")
			parent = append(parent, p)
			b := c23Minor(minors[p].Number+1, 0, byte(i)).Header()
			b.ParentHash = minors[p].Hash()
			minors = append(minors, b)
			roots = append(roots, &types.RootBlockHeader{Number: roots[p].Number + 1, Time: uint64(i), ParentHash: roots[p].Hash(), CoinbaseAmount: c23Tokens(0), Difficulty: big.NewInt(1), ToTalDifficulty: big.NewInt(1)})
		}
		for i := range minors {
			WriteMinorBlockHeader(db, minors[i])
			WriteRootBlockHeader(db, roots[i])
		}
		up := func(i int) []int {
			var l []int
			for ; i >= 0; i = parent[i] {
				l = append(l, i)
			}
			return l
		}
		for i := range minors {
			for j := range minors {
				want := -1
				for _, a := range up(i) {
					for _, b := range up(j) {
						if want < 0 && a == b {
							want = a
						}
					}
				}
				a, b := FindCommonMinorAncestor(db, minors[i], minors[j]), FindCommonRootAncestor(db, roots[i], roots[j])
				c.Check(a != nil && a.Hash() == minors[want].Hash(), "ancestor", "common ancestor of minor %d and %d in %v is not %d", i, j, parent, want)
				c.Check(b != nil && b.Hash() == roots[want].Hash(), "ancestor", "common ancestor of root %d and %d in %v is not %d", i, j, parent, want)
			}
		}
		c.State(fmt.Sprint(parent))
	})
}

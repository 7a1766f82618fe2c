package core

// C20: log queries against a list of logs kept by a model that knows what each contract of the menu emits;
// every range, address set and topic pattern of a small alphabet, after growth, reorganisation and restart. The
// announcements of new and removed logs are replayed alongside and must always add up to the same list.

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

var (
	c20T = func() []ethcommon.Hash {
		r := []ethcommon.Hash{{}}
		for i := 1; i < 6; i++ {
			r = append(r, crypto.Keccak256Hash([]byte{byte(i)}))
		}
		r[5] = ethcommon.BigToHash(big.NewInt(5)) // mostly zeros
		return r
	}()
	c20Addr = func() map[string]account.Recipient {
		m := map[string]account.Recipient{}
		for i, n := range []string{"A", "B", "C", "D", "E", "none"} {
			m[n] = ethcommon.BytesToAddress([]byte{0xc0, 0xde, byte(i)})
		}
		m["C"] = ethcommon.BytesToAddress(crypto.Keccak256([]byte("C"))[:20])
		return m
	}()
)

type c20Log struct {
	who    string
	topics []int
	data   []byte
}

func (l c20Log) code() []byte {
	c := []byte{0x60, byte(len(l.topics) + 0x70), 0x60, 0, 0x53}
	for i := len(l.topics) - 1; i >= 0; i-- {
		c = append(append(c, 0x7f), c20T[l.topics[i]][:]...)
	}
	return append(c, 0x60, byte(len(l.data)), 0x60, 0, byte(0xa0+len(l.topics)))
}

// c20Emit builds a log whose data is what the code above stores in memory.
func c20Emit(who string, size int, topics ...int) c20Log {
	d := make([]byte, size)
	if size > 0 {
		d[0] = byte(len(topics) + 0x70)
	}
	return c20Log{who, topics, d}
}

func c20Call(name string) []byte {
	c := []byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x73}
	a := c20Addr[name]
	return append(append(c, a[:]...), 0x61, 0xff, 0xff, 0xf1, 0x50)
}

// what a call of each contract leaves behind, and the code doing it
var c20Does = map[string][]c20Log{
	"A": {c20Emit("A", 1, 1)},
	"B": {c20Emit("B", 0, 1, 2)},
	"C": {c20Emit("C", 33), c20Emit("C", 2, 2, 1, 0, 3)},
	"E": {c20Emit("A", 1, 1), c20Emit("E", 0, 2, 1), c20Emit("E", 5, 1, 5, 2)},
}

func c20Code(name string) []byte {
	d := c20Does[name]
	var c []byte
	switch name {
	case "D":
		return append(c20Emit("D", 0, 2).code(), 0x60, 0, 0x60, 0, 0xfd)
	case "E":
		c = append(c, c20Call("A")...)
		c = append(c, d[1].code()...)
		c = append(c, c20Call("D")...)
		return append(append(c, d[2].code()...), 0)
	}
	for _, l := range d {
		c = append(c, l.code()...)
	}
	return append(c, 0)
}

// the blocks of the menu: contracts called by its transactions ("-": a plain transfer), and by transfers arriving from
// another shard
type c20Block struct {
	txs, arrive []string
}

var c20Menu = []c20Block{
	{},
	{txs: []string{"A"}},
	{txs: []string{"B", "D", "C"}},
	{txs: []string{"E", "-", "A"}},
	{txs: []string{"A"}, arrive: []string{"C", "A"}},
	{arrive: []string{"B", "D"}},
}

// c20Entry: one log as it has to be found
type c20Entry struct {
	c20Log
	block *types.MinorBlock
	tx    ethcommon.Hash
	index int
	txIdx int // -1: of a transfer from another shard
}

func (e c20Entry) same(l *types.Log) string {
	switch {
	case l == nil:
		return "nil log"
	case l.Recipient != c20Addr[e.who]:
		return "address"
	case string(l.Data) != string(e.data):
		return "data"
	case len(l.Topics) != len(e.topics):
		return "topics"
	case l.BlockNumber != e.block.NumberU64():
		return "block number"
	case l.BlockHash != e.block.Hash():
		return "block hash"
	case l.TxHash != e.tx:
		return "transaction hash"
	case int(l.Index) != e.index:
		return "index"
	case e.txIdx >= 0 && int(l.TxIndex) != e.txIdx:
		return "transaction index"
	case l.Removed:
		return "removed mark"
	}
	for i, t := range e.topics {
		if l.Topics[i] != c20T[t] {
			return "topics"
		}
	}
	return ""
}

func (e c20Entry) String() string {
	return fmt.Sprintf("#%d %s%v tx %x log %d", e.block.NumberU64(), e.who, e.topics, e.tx[:3], e.index)
}

type c20World struct {
	*vShard
	c     *kit.Case
	roots []*types.RootBlock
	logs  map[ethcommon.Hash][]c20Entry // per block
	chain []*types.MinorBlock           // canonical, by height
	feed  chan LoglistEvent
	told  map[string]bool
	deps  map[ethcommon.Hash][]ethcommon.Hash // arrivals per block
}

func c20Shard() *vShard {
	return vNew(vOpt{key: "c20", gasLimit: 4000000, alloc: func() map[account.Recipient]config.Allocation {
		m := map[account.Recipient]config.Allocation{vRecipient(0): vQkcBal(100000000), vRecipient(1): vQkcBal(100000000)}
		for n, a := range c20Addr {
			if n != "none" {
				m[a] = config.Allocation{Balances: map[string]*big.Int{}, Code: c20Code(n)}
			}
		}
		return m
	}()})
}

func (w *c20World) extend(parent *types.MinorBlock, kind int, tag byte) *types.MinorBlock {
	c, m := w.c, c20Menu[kind]
	root := w.s.GetRootBlockByHash(parent.PrevRootBlockHash())
	var entries []c20Entry
	idx := 0
	var arrived []c20Entry
	var deps []ethcommon.Hash
	h := parent.NumberU64() + 1
	if len(m.arrive) > 0 {
		// the transfers of the neighbour's block reach the chain with a root block of their own
		nb := vHeader(3, root.NumberU64(), root.Hash(), int(h)*10+int(tag))
		list := types.CrossShardTransactionDepositList{}
		for i, n := range m.arrive {
			d := vDeposit(int(h)*1000+int(tag)*100+i, vAddr(6, 1), account.Address{Recipient: c20Addr[n], FullShardKey: 0}, 0, vQKC, 1, 200000, nil, false)
			list.TXList = append(list.TXList, d)
			deps = append(deps, d.TxHash)
			for _, l := range c20Does[n] {
				arrived = append(arrived, c20Entry{c20Log: l, tx: d.TxHash, index: idx, txIdx: -1})
				idx++
			}
		}
		w.s.AddCrossShardTxListByMinorBlockHash(nb.Hash(), list)
		r := vRoot(root, 5, vAddr(2, 1<<16), 7, tag, nb)
		if _, err := w.s.AddRootBlock(vCopyRoot(r)); err != nil {
			panic(err)
		}
		root = r
	}
	st, err := w.s.StateAt(parent.Root())
	if err != nil {
		panic(err)
	}
	nonce := st.GetNonce(vRecipient(0))
	var txs []*types.Transaction
	for i, n := range m.txs {
		t := vTx{from: 0, to: c20Addr[n], gas: 200000, gasPrice: 1, nonce: nonce + uint64(i), value: 0}
		if n == "-" {
			t.to, t.value = vRecipient(3), 5
		}
		tx := t.sign()
		txs = append(txs, tx)
		for _, l := range c20Does[n] {
			entries = append(entries, c20Entry{c20Log: l, tx: tx.Hash(), index: idx, txIdx: i})
			idx++
		}
	}
	// transactions come first among the block's receipts, although what arrives is executed before them
	entries = append(entries, arrived...)
	b, receipts, err := w.mine(w.block(parent, root, vAddr(2, 0), tag, txs...))
	if err != nil {
		c.Fail("block", "a block with transactions %v and arrivals %v cannot be made: %v", m.txs, m.arrive, err)
		return nil
	}
	for i := range entries {
		entries[i].block = b
	}
	w.logs[b.Hash()], w.deps[b.Hash()] = entries, deps
	// receipts: what execution gave is what is stored, and the bloom is exactly that of the logs
	bloom := new(big.Int)
	for _, e := range entries {
		for _, v := range append([][]byte{c20Addr[e.who].Bytes()}, c20TopicBytes(e.topics)...) {
			k := crypto.Keccak256(v)
			for i := 0; i < 6; i += 2 {
				bit := (uint(k[i])<<8 | uint(k[i+1])) & 2047
				bloom.SetBit(bloom, int(bit), 1)
			}
		}
	}
	c.Check(b.Header().Bloom.Big().Cmp(bloom) == 0, "bloom", "the bloom filter of block %d (%v %v) is not that of its logs", h, m.txs, m.arrive)
	w.receipts(b, m, receipts)
	return b
}

func c20TopicBytes(ts []int) (r [][]byte) {
	for _, t := range ts {
		r = append(r, c20T[t].Bytes())
	}
	return
}

func (w *c20World) receipts(b *types.MinorBlock, m c20Block, executed types.Receipts) {
	c := w.c
	stored := w.s.GetReceiptsByHash(b.Hash())
	if executed != nil && len(stored) != len(executed) {
		c.Fail("stored receipts", "%d receipts stored, %d made", len(stored), len(executed))
		return
	}
	entries := w.logs[b.Hash()]
	// the reward of a root block also arrives, and leaves no logs
	var names []string
	arrived := 0
	for i, r := range stored {
		switch {
		case i < len(m.txs):
			names = append(names, m.txs[i])
			c.Check(r.TxHash == b.Transactions()[i].Hash(), "receipt order", "receipt %d of block %d is not that of transaction %d", i, b.NumberU64(), i)
		case arrived < len(m.arrive) && r.TxHash == w.deps[b.Hash()][arrived]:
			names = append(names, m.arrive[arrived])
			arrived++
		default:
			names = append(names, "reward")
		}
	}
	c.Check(len(stored) >= len(m.txs) && arrived == len(m.arrive), "receipts", "receipts of %v for %v + %v", names, m.txs, m.arrive)
	k := 0
	for i, r := range stored {
		if executed != nil {
			e := executed[i]
			c.Check(r.Status == e.Status && r.CumulativeGasUsed == e.CumulativeGasUsed && r.GasUsed == e.GasUsed && r.TxHash == e.TxHash && r.ContractAddress == e.ContractAddress,
				"stored receipt", "the stored receipt of %s (%d in block %d) differs from the one of the execution: %+v %+v", names[i], i, b.NumberU64(), r, e)
		}
		want := types.ReceiptStatusSuccessful
		if names[i] == "D" {
			want = types.ReceiptStatusFailed
		}
		c.Check(r.Status == want, "status", "status of %s is %d", names[i], r.Status)
		var bl []*types.Log
		for _, l := range r.Logs {
			if k >= len(entries) {
				c.Fail("receipt logs", "too many logs in the receipts of block %d", b.NumberU64())
				return
			}
			if d := entries[k].same(l); d != "" {
				c.Fail("receipt logs", "%s of a log in the receipt of %s differs: %+v, expected %v", d, names[i], l, entries[k])
			}
			bl = append(bl, l)
			k++
		}
		c.Check(r.Bloom == types.BytesToBloom(types.LogsBloom(bl).Bytes()), "receipt bloom", "the receipt of %s in block %d has a bloom other than that of its logs", names[i], b.NumberU64())
	}
	c.Check(k == len(entries), "receipt logs", "%d of %d logs are in the receipts of block %d", k, len(entries), b.NumberU64())
}

// heard replays what was announced.
func (w *c20World) heard(op string) {
	c := w.c
	w.chain = nil
	for b := w.s.CurrentBlock(); b != nil; b = w.s.GetMinorBlock(b.ParentHash()) {
		w.chain = append([]*types.MinorBlock{b}, w.chain...)
	}
	for {
		select {
		case ev := <-w.feed:
			for _, ll := range ev.Logs {
				for _, l := range ll {
					k := fmt.Sprintf("%x/%d", l.BlockHash, l.Index)
					if ev.IsRemoved {
						c.Check(w.told[k], "removed twice", "after %s a log of block %d is announced as removed which was not there", op, l.BlockNumber)
						delete(w.told, k)
					} else {
						c.Check(!w.told[k], "told twice", "after %s a log of block %d is announced again", op, l.BlockNumber)
						w.told[k] = true
					}
				}
			}
			continue
		default:
		}
		break
	}
	want := map[string]bool{}
	for _, b := range w.chain {
		for _, e := range w.logs[b.Hash()] {
			want[fmt.Sprintf("%x/%d", b.Hash(), e.index)] = true
		}
	}
	if !reflect.DeepEqual(want, w.told) {
		var miss, extra []string
		for k := range want {
			if !w.told[k] {
				miss = append(miss, k)
			}
		}
		for k := range w.told {
			if !want[k] {
				extra = append(extra, k)
			}
		}
		sort.Strings(miss)
		sort.Strings(extra)
		c.Fail("announced", "after %s subscribers know other logs than the chain has: missing %v, outdated %v", op, miss, extra)
		w.told = want
	}
}

var c20Addrs = [][]string{{}, {"A"}, {"B"}, {"C"}, {"E", "B"}, {"none"}, {"none", "A"}, {"D"}}

// patterns: per position a set of topics (empty: anything)
func c20Patterns() [][][]int {
	pos := [][]int{{}, {1}, {2}, {1, 2}, {4}, {0}}
	ps := [][][]int{{}}
	for _, a := range pos {
		ps = append(ps, [][]int{a})
		for _, b := range pos {
			ps = append(ps, [][]int{a, b})
			if len(a)+len(b) < 2 {
				for _, d := range [][]int{{}, {2}, {0}, {5}} {
					ps = append(ps, [][]int{a, b, d})
				}
			}
		}
	}
	return append(ps, [][]int{{}, {}, {}, {3}}, [][]int{{2}, {1}, {0}, {3}}, [][]int{{2}, {1}, {0}, {2}}, [][]int{{}, {}, {}, {}}, [][]int{{}, {}, {}, {}, {}})
}

var c20Pats = c20Patterns()

func (w *c20World) query(op string) {
	c := w.c
	n := len(w.chain)
	type rng struct{ from, to uint64 }
	var rs []rng
	for f := 0; f <= n; f++ {
		for t := f - 1; t <= n; t++ {
			if t >= 0 {
				rs = append(rs, rng{uint64(f), uint64(t)})
			}
		}
	}
	rs = append(rs, rng{0, math.MaxUint64}, rng{uint64(n + 3), uint64(n + 5)}, rng{math.MaxUint64, math.MaxUint64})
	for _, r := range rs {
		var all []c20Entry
		for i, b := range w.chain {
			if uint64(i) >= r.from && uint64(i) <= r.to {
				all = append(all, w.logs[b.Hash()]...)
			}
		}
		for ai, an := range c20Addrs {
			for pi, p := range c20Pats {
				if r.to >= uint64(n) && (ai > 2 || pi%4 != 0) {
					continue // the ranges beyond the head with fewer patterns
				}
				var want []c20Entry
				for _, e := range all {
					if c20Matches(e, an, p) {
						want = append(want, e)
					}
				}
				q := &qrpc.FilterQuery{FullShardId: w.opt.id}
				q.FromBlock, q.ToBlock = new(big.Int).SetUint64(r.from), new(big.Int).SetUint64(r.to)
				for _, a := range an {
					q.Addresses = append(q.Addresses, c20Addr[a])
				}
				for _, s := range p {
					var l []ethcommon.Hash
					for _, t := range s {
						l = append(l, c20T[t])
					}
					q.Topics = append(q.Topics, l)
				}
				if pi%8 == 0 {
					q = c20Wire(c, q)
				}
				got, err := w.s.GetLogsByFilterQuery(q)
				what := fmt.Sprintf("after %s, of blocks %d to %d, addresses %v, topics %v", op, r.from, r.to, an, p)
				if err != nil {
					c.Fail("query fails", "%s: %v (head %d)", what, err, n-1)
					continue
				}
				if len(got) != len(want) {
					c.Fail("query", "%s: %d logs found, expected %d", what, len(got), len(want))
					continue
				}
				for i, e := range want {
					if d := e.same(got[i]); d != "" {
						c.Fail("query", "%s: %s of result %d is wrong: %+v, expected %v", what, d, i, got[i], e)
					}
				}
			}
		}
	}
	// a single block by its hash, canonical or not
	for hash, entries := range w.logs {
		h := hash
		q := &qrpc.FilterQuery{FullShardId: w.opt.id}
		q.BlockHash, q.FromBlock, q.ToBlock = &h, big.NewInt(int64(n-1)), big.NewInt(int64(n-1))
		got, err := w.s.GetLogsByFilterQuery(c20Wire(c, q))
		ok := err == nil && len(got) == len(entries)
		for i := 0; ok && i < len(got); i++ {
			ok = entries[i].same(got[i]) == ""
		}
		c.Check(ok, "query by hash", "after %s the logs of block %x are not found by its hash: %d, expected %d (%v)", op, h[:4], len(got), len(entries), err)
	}
	unknown := ethcommon.Hash{7}
	q := &qrpc.FilterQuery{FullShardId: w.opt.id}
	q.BlockHash = &unknown
	got, err := w.s.GetLogsByFilterQuery(c20Wire(c, q))
	c.Check(len(got) == 0 && err != nil, "query by hash", "%d logs of an unknown block (%v)", len(got), err)
}

// c20Wire passes the query through the form in which the master hands it to a slave.
func c20Wire(c *kit.Case, q *qrpc.FilterQuery) *qrpc.FilterQuery {
	d, err := serialize.SerializeToBytes(q)
	if err != nil {
		c.Fail("query form", "%v", err)
		return q
	}
	r := new(qrpc.FilterQuery)
	if err := serialize.DeserializeFromBytes(d, r); err != nil {
		c.Fail("query form", "%v", err)
		return q
	}
	return r
}

func c20Matches(e c20Entry, addrs []string, p [][]int) bool {
	ok := len(addrs) == 0
	for _, a := range addrs {
		ok = ok || a == e.who
	}
	if !ok || len(p) > len(e.topics) {
		return false
	}
	for i, s := range p {
		hit := len(s) == 0
		for _, t := range s {
			hit = hit || t == e.topics[i]
		}
		if !hit {
			return false
		}
	}
	return true
}

// TestVerifC20Logs: every short chain of the menu's blocks, then possibly a longer fork, and back.
func TestVerifC20Logs(t *testing.T) {
	h := kit.New("C20", "Logs")
	defer h.Done()
	length := kit.Tier(2, 3)
	h.Bound("blocks", length)
	h.Bound("block kinds", len(c20Menu))
	h.Bound("patterns", len(c20Pats))
	h.Bound("address sets", len(c20Addrs))
	h.Explore("chains", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		w := &c20World{vShard: c20Shard(), c: c, logs: map[ethcommon.Hash][]c20Entry{}, told: map[string]bool{}, deps: map[ethcommon.Hash][]ethcommon.Hash{}}
		defer func() { w.close() }()
		w.feed = make(chan LoglistEvent, 4096)
		w.s.SubReorgLogsEvent(w.feed)
		r1 := vRoot(w.root0, 5, vAddr(2, 1<<16), 7, 0)
		if _, err := w.s.AddRootBlock(vCopyRoot(r1)); err != nil {
			panic(err)
		}
		first := w.block(w.s.CurrentBlock(), r1, vAddr(2, 0), 9)
		b, _, err := w.mine(first)
		if err != nil {
			panic(err)
		}
		grow := func(parent *types.MinorBlock, n int, tag byte, what string) []*types.MinorBlock {
			var l []*types.MinorBlock
			for i := 0; i < n; i++ {
				k := c.Choose(len(c20Menu), fmt.Sprintf("%s block %d", what, i))
				parent = w.extend(parent, k, tag)
				if parent == nil {
					return nil
				}
				l = append(l, parent)
			}
			return l
		}
		l := grow(b, length, 1, "first")
		if l == nil {
			return
		}
		w.heard("growth")
		old := w.chain
		c.Check(w.s.CurrentBlock().Hash() == l[len(l)-1].Hash(), "head", "the head is block %d", w.s.CurrentBlock().NumberU64())
		fork := c.Choose(4, "fork: none, over the last block, from the start; or the same, queried before")
		if fork == 0 || fork == 3 {
			w.query("growth")
			c.Outcome("grown")
		}
		if fork == 0 {
			return
		}
		at := len(old) - 2
		if fork >= 2 {
			at = 1
		}
		// a longer fork
		kind := []int{2, 4}[c.Choose(2, "content of the fork")]
		cur := old[at]
		for i := at + 1; i <= len(old); i++ {
			k := kind
			if i != len(old) && i%2 == 0 {
				k = 1
			}
			if cur = w.extend(cur, k, 2); cur == nil {
				return
			}
		}
		w.heard("fork")
		w.query("fork")
		if w.s.CurrentBlock().Hash() == cur.Hash() {
			c.Outcome("reorganised")
		} else {
			c.Outcome("fork on the side")
		}
		// and back: the first chain gets longer again
		cur = old[len(old)-1]
		for i := 0; i < 2; i++ {
			if cur = w.extend(cur, i, 3); cur == nil {
				return
			}
		}
		w.heard("return")
		w.query("return")
		if w.s.CurrentBlock().Hash() == cur.Hash() {
			c.Outcome("returned")
		}
	})
}

package core

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
)

var (
	c08Logger  = ethcommon.HexToAddress("0x00000000000000000000000000000000000c0de1") // logs, stores
	c08Reverts = ethcommon.HexToAddress("0x00000000000000000000000000000000000c0de2")
	c08Loops   = ethcommon.HexToAddress("0x00000000000000000000000000000000000c0de3")
	c08Toggle  = ethcommon.HexToAddress("0x00000000000000000000000000000000000c0de4") // flips a slot: earns refunds
	c08Dies    = ethcommon.HexToAddress("0x00000000000000000000000000000000000c0de5") // destroys itself
)

const c08Gas = 1000000

func c08Alloc() map[account.Recipient]config.Allocation {
	code := func(s string, v int64) config.Allocation {
		m := map[string]*big.Int{}
		if v != 0 {
			m["QKC"] = big.NewInt(v)
		}
		return config.Allocation{Balances: m, Code: ethcommon.FromHex(s)}
	}
	return map[account.Recipient]config.Allocation{
		vRecipient(0): {Balances: map[string]*big.Int{"QKC": big.NewInt(20000000), "TOK": big.NewInt(100)}},
		vRecipient(1): vQkcBal(200000000), vRecipient(2): vQkcBal(200000000),
		c08Logger:  code("602a60005260aa60206000a1436000550000", 0),
		c08Reverts: code("600160005560006000fd", 0),
		c08Loops:   code("5b600056", 0),
		c08Toggle:  code("6000541560005500", 0),
		c08Dies:    code("6004ff", 77),
	}
}

func c08Shard(evmTime uint64, posw bool) *vShard {
	return vNew(vOpt{key: fmt.Sprint("c08", evmTime, posw), gasLimit: c08Gas, alloc: c08Alloc(), tune: func(q *config.QuarkChainConfig) {
		q.EnableEvmTimeStamp = evmTime
		for _, id := range vIDs(q) {
			p := q.GetShardConfigByFullShardID(id).PoswConfig
			p.Enabled = posw
			p.WindowSize = 3
			p.DiffDivider = 10
			p.TotalStakePerBlock = big.NewInt(5000000)
			q.GetShardConfigByFullShardID(id).CoinbaseAmount = big.NewInt(1000)
		}
	}})
}

// c08World: a node that builds, and one that only verifies.
type c08World struct {
	c     *kit.Case
	a     *vPool
	b     *vShard
	root  *types.RootBlock
	roots int
	kinds string
	evmT  uint64
	names map[ethcommon.Hash]string
}

type c08Tx struct {
	name string
	v    vTx
	gap  bool
}

func c08Txs() []c08Tx {
	x := func(name string, v vTx) c08Tx { return c08Tx{name: name, v: v} }
	l := []c08Tx{
		x("0 sends most", vTx{from: 0, to: vRecipient(4), value: 10000000, gasPrice: 100}),
		x("0 sends", vTx{from: 0, to: vRecipient(4), value: 10, gasPrice: 100}),
		x("0 all tokens", vTx{from: 0, to: vRecipient(4), value: 100, xferTok: vTok, gasPrice: 100}),
		x("0 no tokens", vTx{from: 0, to: vRecipient(4), value: 0, xferTok: vTok, gasPrice: 100}),
		x("0 for free", vTx{from: 0, to: vRecipient(4), value: 1}),
		x("1 other shard", vTx{from: 1, to: vRecipient(4), toKey: 1 << 16, value: 5, gas: 31000, gasPrice: 90}),
		x("1 calls other shard", vTx{from: 1, to: c08Logger, toKey: 1, gas: 400000, gasPrice: 90, data: []byte{1}}),
		x("1 creates over there", vTx{from: 1, create: true, toKey: 1 << 16, gas: 200000, gasPrice: 90, data: ethcommon.FromHex("6001600055")}),
		x("1 creates", vTx{from: 1, create: true, gas: 200000, gasPrice: 90, data: ethcommon.FromHex("600160005560016000f3")}),
		x("1 loops", vTx{from: 1, to: c08Loops, gas: 300000, gasPrice: 90}),
		x("1 reverts", vTx{from: 1, to: c08Reverts, gas: 300000, gasPrice: 90, value: 3}),
		x("2 logs", vTx{from: 2, to: c08Logger, gas: 100000, gasPrice: 80}),
		x("2 toggles", vTx{from: 2, to: c08Toggle, gas: 100000, gasPrice: 80}),
		x("2 destroys", vTx{from: 2, to: c08Dies, gas: 100000, gasPrice: 80}),
		x("2 reserves", vTx{from: 2, to: vRecipient(4), gas: 450000, gasPrice: 80}),
		x("2 pays 0", vTx{from: 2, to: vRecipient(0), value: 1000000, gasPrice: 80}),
	}
	g := x("1 gap", vTx{from: 1, to: vRecipient(4), gasPrice: 90})
	g.gap = true
	return append(l, g)
}

var c08Roots = []string{"one arrival", "many arrivals", "calls", "creation"}

func newC08World(c *kit.Case, evmTime uint64, posw bool) *c08World {
	w := &c08World{c: c, a: vWithPool(c08Shard(evmTime, posw), DefaultTxPoolConfig), b: c08Shard(evmTime, posw), evmT: evmTime, names: map[ethcommon.Hash]string{}}
	w.root = w.a.root0
	w.addRoot("empty")
	return w
}

func (w *c08World) close() { w.a.close(); w.b.close() }

// addRoot: a root block confirms a block of a neighbour, whose transfers to this shard have arrived.
func (w *c08World) addRoot(kind string) {
	w.roots++
	w.kinds += kind + ","
	var hs []*types.MinorBlockHeader
	if kind != "empty" {
		h := vHeader(3, uint64(w.roots), w.root.Hash(), w.roots)
		l := types.CrossShardTransactionDepositList{}
		add := func(i int, to account.Recipient, value, price, gas int64, data []byte, create bool) {
			l.TXList = append(l.TXList, vDeposit(w.roots*100+i, vAddr(6, 1), account.Address{Recipient: to, FullShardKey: 0}, value, vQKC, price, gas, data, create))
		}
		switch kind {
		case "one arrival":
			add(0, vRecipient(0), 7, 2, 0, nil, false)
		case "many arrivals":
			for i := 0; i < 60; i++ {
				add(i, vRecipient(5), 1, 0, 0, nil, false)
			}
		case "calls":
			add(0, c08Logger, 0, 3, 90000, nil, false)
			add(1, c08Loops, 1, 2, 150000, nil, false)
			add(2, c08Reverts, 1, 1, 150000, nil, false)
			add(3, c08Toggle, 1, 1, 50000, nil, false)
			add(4, c08Dies, 1, 1, 50000, nil, false)
		case "creation":
			add(0, ethcommon.BytesToAddress([]byte{9, byte(w.roots)}), 4, 1, 100000, ethcommon.FromHex("600160005560016000f3"), true)
			add(1, vRecipient(1), 0, 0, 0, nil, false)
		}
		for _, s := range []*vShard{w.a.vShard, w.b} {
			s.s.AddCrossShardTxListByMinorBlockHash(h.Hash(), l)
		}
		hs = append(hs, h)
	}
	r := vRoot(w.root, 5, vAddr(2, 0), 7, byte(w.roots), hs...)
	for _, s := range []*vShard{w.a.vShard, w.b} {
		if _, err := s.s.AddRootBlock(vCopyRoot(r)); err != nil {
			panic(err)
		}
	}
	w.root = r
}

func (w *c08World) addTx(t c08Tx) bool {
	v := t.v
	v.nonce = w.a.s.txPool.Nonce(vRecipient(v.from))
	if t.gap {
		v.nonce++
	}
	tx := v.sign()
	w.names[tx.Hash()] = t.name
	return w.a.s.AddTx(tx) == nil
}

func (w *c08World) list(l types.Transactions) string {
	var r []string
	for _, t := range l {
		r = append(r, w.names[t.Hash()])
	}
	return strings.Join(r, ",")
}

func vReceipts(s *vShard, h ethcommon.Hash) string {
	var r []string
	for _, x := range s.s.GetReceiptsByHash(h) {
		var logs []string
		for _, l := range x.Logs {
			logs = append(logs, fmt.Sprintf("%x%x%x/%d.%d.%d.%x", l.Recipient, l.Topics, l.Data, l.BlockNumber, l.TxIndex, l.Index, l.TxHash))
		}
		r = append(r, fmt.Sprintf("%x st%d cum%d gas%d ca%x key%d logs%v bloom%x", x.TxHash, x.Status, x.CumulativeGasUsed, x.GasUsed, x.ContractAddress, x.ContractFullShardKey, logs, x.Bloom))
	}
	return strings.Join(r, "\n")
}

// mine builds, checks and adds a block.
func (w *c08World) mine(miner int) {
	c := w.c
	head := w.a.s.CurrentBlock()
	t := head.Time() + 10
	addr := vAddr(miner, 0)
	pend, _ := w.a.s.txPool.Content()
	var before []string
	for _, l := range pend {
		before = append(before, w.list(l))
	}
	sort.Strings(before)
	build := func() *types.MinorBlock {
		b, err := w.a.s.CreateBlockToMine(&t, &addr, nil, nil, nil)
		c.Check(err == nil, "build", "building from %q failed: %v", before, err)
		return b
	}
	b := build()
	c.Step()
	txs := w.list(b.Transactions())
	c.Logf("mine for %d from %q: [%s] gas %v xshard %v", miner, before, txs, b.GasUsed(), b.CrossShardGasUsed())
	b2 := build()
	c.Check(b.Hash() == b2.Hash(), "reproducible", "building twice from %q gives different blocks: [%s] %x and [%s] %x", before, txs, b.Hash(), w.list(b2.Transactions()), b2.Hash())
	c.Check(w.a.s.CurrentBlock().Hash() == head.Hash(), "build moved", "building moved the head")
	pend2, _ := w.a.s.txPool.Content()
	n1, n2 := 0, 0
	for _, l := range pend {
		n1 += len(l)
	}
	for _, l := range pend2 {
		n2 += len(l)
	}
	c.Check(n1 == n2, "build moved", "building changed the pool from %d to %d executable transactions", n1, n2)

	// limits
	c.Check(b.GasUsed().Uint64() <= c08Gas, "gas limit", "the block uses %v gas of %d", b.GasUsed(), c08Gas)
	in := new(big.Int).Sub(b.GasUsed(), b.CrossShardGasUsed()).Uint64()
	c.Check(in <= c08Gas/2 || b.CrossShardGasUsed().Uint64() >= c08Gas/2, "in-shard limit", "the block uses %d gas for its transactions, %v for arrivals, with %d reserved for arrivals", in, b.CrossShardGasUsed(), c08Gas/2)

	// both accept it
	_, xa, err := w.a.s.InsertChainForDeposits([]types.IBlock{vCopyMinor(b)}, false)
	c.Check(err == nil, "refused", "the builder refuses its own block [%s]: %v", txs, err)
	_, xb, err := w.b.s.InsertChainForDeposits([]types.IBlock{vCopyMinor(b)}, false)
	c.Check(err == nil, "refused", "another node refuses the block [%s]: %v", txs, err)
	for n, s := range map[string]*vShard{"builder": w.a.vShard, "verifier": w.b} {
		c.Check(s.s.CurrentBlock().Hash() == b.Hash(), "head", "the %s's head is not the new block", n)
		_, err := s.s.StateAt(b.Root())
		c.Check(err == nil, "state", "the %s lacks the state: %v", n, err)
	}
	ra, rb := vReceipts(w.a.vShard, b.Hash()), vReceipts(w.b, b.Hash())
	c.Check(ra == rb, "receipts", "receipts differ:\n%s\n--\n%s", ra, rb)
	c.Check(c08Lists(xa) == c08Lists(xb), "xshard", "transfers to other shards differ: %s / %s", c08Lists(xa), c08Lists(xb))
	want := 0
	for _, tx := range b.Transactions() {
		if tx.EvmTx.ToFullShardKey() != 0 {
			want++
		}
	}
	got := 0
	for _, l := range xa {
		got += len(l)
	}
	c.Check(got <= want, "xshard", "%d transfers to other shards from %d such transactions", got, want)

	// whatever could still run was included
	st, err := w.a.s.StateAt(b.Root())
	c.Check(err == nil, "state", "%v", err)
	left := c08Gas/2 - in
	// a transaction to another shard takes its whole gas out of the block's gas, what it uses here or not
	pool := uint64(c08Gas)
	for _, tx := range b.Transactions() {
		if _, _, r := w.a.s.GetTransactionReceipt(tx.Hash()); r != nil && tx.EvmTx.ToFullShardKey() == 0 {
			pool -= r.GasUsed
		} else {
			pool -= tx.EvmTx.Gas()
		}
	}
	if left > pool {
		left = pool
	}
	if all := c08Gas - b.GasUsed().Uint64(); left > all {
		left = all // arrivals may exceed their half by the last one's gas
	}
	for _, l := range pend {
		for _, tx := range l {
			from, _ := types.Sender(types.MakeSigner(vNetworkID), tx.EvmTx)
			if tx.EvmTx.Nonce() != st.GetNonce(from) || tx.EvmTx.Gas() > left || b.Time() < w.evmT {
				continue
			}
			fee := new(big.Int).Mul(tx.EvmTx.GasPrice(), new(big.Int).SetUint64(tx.EvmTx.Gas()))
			if tx.EvmTx.TransferTokenID() == vQKC {
				fee.Add(fee, tx.EvmTx.Value())
			} else if bal := st.GetBalance(from, tx.EvmTx.TransferTokenID()); bal.Sign() == 0 || bal.Cmp(tx.EvmTx.Value()) < 0 {
				continue
			}
			if strings.Contains(txs, "2 pays 0") && from == vRecipient(0) {
				continue // it was not affordable when its turn came
			}
			c.Check(st.GetBalance(from, vQKC).Cmp(fee) < 0 || miner < 3, "left out", "[%s] was built from %q although %q could run with %d gas left", txs, before, w.names[tx.Hash()], left)
		}
	}
	w.a.sync()
	c.Outcome("%d transactions, arrivals %v", len(b.Transactions()), b.CrossShardGasUsed().Sign() > 0)
}

func c08Lists(x [][]*types.CrossShardTransactionDeposit) string {
	var r []string
	for _, l := range x {
		for _, d := range l {
			if d == nil {
				r = append(r, "nil")
				continue
			}
			s, _ := serialize.SerializeToBytes(d)
			r = append(r, kit.Hex(s))
		}
	}
	return strings.Join(r, " ")
}

func (w *c08World) key() string {
	p, q := w.a.s.txPool.Content()
	var l []string
	for a, x := range p {
		for _, t := range x {
			l = append(l, fmt.Sprint("p", a.Hex(), t.Hash().Hex()))
		}
	}
	for a, x := range q {
		for _, t := range x {
			l = append(l, fmt.Sprint("q", a.Hex(), t.Hash().Hex()))
		}
	}
	sort.Strings(l)
	return fmt.Sprint(w.a.s.CurrentBlock().Hash().Hex(), w.root.Hash().Hex(), w.kinds, l)
}

func TestVerifC08(t *testing.T) {
	h := kit.New("C08", "builder")
	defer h.Done()
	txs := c08Txs()
	h.Bound("transactions", len(txs))
	h.Bound("arrivals", strings.Join(c08Roots, ", "))
	run := func(name string, depth int, evmTime uint64, posw bool, miners []int) {
		h.Bound("operations, "+name, depth)
		h.Explore(name, kit.Opt{MaxDev: -1}, func(c *kit.Case) {
			w := newC08World(c, evmTime, posw)
			defer w.close()
			for d := 0; d < depth; d++ {
				i := c.Choose(len(txs)+len(c08Roots)+len(miners)+1, "operation")
				switch {
				case i < len(txs):
					c.Logf("add %q", txs[i].name)
					if !w.addTx(txs[i]) {
						c.Stop()
					}
				case i < len(txs)+len(c08Roots):
					k := c08Roots[i-len(txs)]
					c.Logf("root block with %s", k)
					w.addRoot(k)
				case i < len(txs)+len(c08Roots)+len(miners):
					if d == 0 || d == depth-1 {
						c.Stop() // blocks are mined at the end anyway
					}
					w.mine(miners[i-len(txs)-len(c08Roots)])
				default:
					if d == 0 {
						c.Stop()
					}
					c.Logf("the verifier restarts")
					w.b.close()
					if err := w.b.open(); err != nil {
						panic(err)
					}
					if err := w.b.s.InitFromRootBlock(w.root); err != nil {
						panic(err)
					}
				}
				c.Visit(w.key(), depth-d-1)
			}
			w.mine(miners[len(miners)-1])
			w.mine(5)
		})
	}
	run("blocks", kit.Tier(3, 4), 1, false, []int{5})
	run("staking", kit.Tier(3, 3), 1, true, []int{5, 0})
	run("before contracts", kit.Tier(3, 4), 1<<60, false, []int{5})
	run("contracts start at the second block", kit.Tier(3, 4), uint64(c08Shard(1, false).s.CurrentBlock().Time()+20), false, []int{5})
}

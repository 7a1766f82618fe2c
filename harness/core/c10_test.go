package core

import (
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkccommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/event"
)

// vTok is a second token some accounts hold; nobody exchanges it, so fees cannot be paid in it.
var vTok = qkccommon.TokenIDEncode("TOK")

// vPoolChain lets a harness know when the pool has taken a head event from its channel.
type vPoolChain struct {
	*MinorBlockChain
	ch chan<- MinorChainHeadEvent
}

func (p *vPoolChain) SubscribeChainHeadEvent(ch chan<- MinorChainHeadEvent) event.Subscription {
	p.ch = ch
	return p.MinorBlockChain.SubscribeChainHeadEvent(ch)
}

// vPool gives the shard a pool with the given limits.
type vPool struct {
	*vShard
	chain *vPoolChain
	dummy *types.Transaction
	lost  bool
}

func vWithPool(w *vShard, limits TxPoolConfig) *vPool {
	p := &vPool{vShard: w, chain: &vPoolChain{MinorBlockChain: w.s}}
	w.s.txPool.Stop()
	w.s.txPool = NewTxPool(limits, p.chain)
	p.dummy = vTx{from: 0, to: vRecipient(4), networkID: vNetworkID + 1}.sign()
	p.sync()
	return p
}

// sync returns once the pool has dealt with every head event sent so far.
func (p *vPool) sync() {
	p.chain.ch <- MinorChainHeadEvent{}
	for i := 0; len(p.chain.ch) > 0; i++ {
		if i > 1000 {
			time.Sleep(20 * time.Microsecond)
		}
		runtime.Gosched()
	}
	// a promotion request is served after every reset request taken before it
	p.s.txPool.AddRemotesSync([]*types.Transaction{p.dummy})
}

type c10Tx struct {
	name string
	tx   *types.Transaction
	from int
	n    uint64
	gas  uint64
	p    int64
	cost map[uint64]*big.Int
	hash ethcommon.Hash
}

func c10Mk(name string, v vTx) c10Tx {
	tx := v.sign()
	v.gas = tx.EvmTx.Gas()
	if v.xferTok == 0 {
		v.xferTok = vQKC
	}
	t := c10Tx{name: name, tx: tx, from: v.from, n: v.nonce, gas: v.gas, p: v.gasPrice, hash: tx.Hash()}
	t.cost = map[uint64]*big.Int{vQKC: big.NewInt(v.gasPrice * int64(v.gas))}
	if t.cost[v.xferTok] == nil {
		t.cost[v.xferTok] = new(big.Int)
	}
	t.cost[v.xferTok].Add(t.cost[v.xferTok], big.NewInt(v.value))
	return t
}

const c10Fund = 10000000

func c10Shard() *vShard {
	alloc := map[account.Recipient]config.Allocation{
		vRecipient(0): {Balances: map[string]*big.Int{"QKC": big.NewInt(c10Fund), "TOK": big.NewInt(100)}},
		vRecipient(1): vQkcBal(c10Fund), vRecipient(2): vQkcBal(c10Fund), vRecipient(3): vQkcBal(c10Fund),
	}
	return vNew(vOpt{key: "c10", gasLimit: 1000000, alloc: alloc, tune: func(q *config.QuarkChainConfig) {
		for _, id := range vIDs(q) {
			q.GetShardConfigByFullShardID(id).PoswConfig.Enabled = false
		}
	}})
}

var (
	c10Once sync.Once
	c10Adds [][]c10Tx // each is a batch given to the pool in one call
	c10All  map[ethcommon.Hash]c10Tx
	c10Lim  [][]c10Tx
)

func c10Init() {
	c10Once.Do(func() {
		r4 := vRecipient(4)
		one := func(name string, v vTx) {
			v.to = r4
			c10Adds = append(c10Adds, []c10Tx{c10Mk(name, v)})
		}
		one("a0", vTx{nonce: 0, gasPrice: 100})
		one("a0p109", vTx{nonce: 0, gasPrice: 109, value: 1})
		one("a0p110", vTx{nonce: 0, gasPrice: 110})
		one("a0big", vTx{nonce: 0, gasPrice: 110, value: 6000000})
		one("a1", vTx{nonce: 1, gasPrice: 100})
		one("a1big", vTx{nonce: 1, gasPrice: 100, value: 6000000})
		one("a1tok", vTx{nonce: 1, gasPrice: 100, value: 60, xferTok: vTok})
		one("a2", vTx{nonce: 2, gasPrice: 100})
		one("a2tok", vTx{nonce: 2, gasPrice: 120, value: 60, xferTok: vTok})
		one("b0", vTx{from: 1, nonce: 0, gasPrice: 105})
		one("b1", vTx{from: 1, nonce: 1, gasPrice: 50, value: 7000000})
		one("a0few gas", vTx{nonce: 0, gasPrice: 300, gas: 20999})
		one("a1rich", vTx{nonce: 1, gasPrice: 300, value: 9000000})
		one("a1gas", vTx{nonce: 1, gasPrice: 1, gas: 1000001})
		one("a1tokens", vTx{nonce: 1, gasPrice: 300, value: 101, xferTok: vTok})
		batch := func(vs ...vTx) {
			var b []c10Tx
			for i, v := range vs {
				v.to = r4
				b = append(b, c10Mk(fmt.Sprintf("batch%d.%d", len(c10Adds), i), v))
			}
			c10Adds = append(c10Adds, b)
		}
		batch(vTx{nonce: 0, gasPrice: 120}, vTx{nonce: 1, gasPrice: 120, value: 9500000}, vTx{nonce: 2, gasPrice: 130})
		batch(vTx{nonce: 0, gasPrice: 119, value: 9999999}, vTx{nonce: 1, gasPrice: 119}, vTx{nonce: 1, gasPrice: 119}, vTx{from: 1, nonce: 0, gasPrice: 119})
		for _, b := range c10Adds {
			for _, t := range b {
				c10Reg(t)
			}
		}
		// for the phase with tiny limits
		for s := 0; s < 3; s++ {
			for n := uint64(0); n < 3; n++ {
				t := c10Mk(fmt.Sprintf("%c%d", 'x'+s, n), vTx{from: s, nonce: n, to: r4, gasPrice: 100 + int64(s)*10 + int64(n)*5})
				c10Reg(t)
				c10Lim = append(c10Lim, []c10Tx{t})
			}
		}
	})
}

func c10Reg(t c10Tx) {
	if c10All == nil {
		c10All = map[ethcommon.Hash]c10Tx{}
	}
	c10All[t.hash] = t
}

// c10Model is the pool as the property describes it: a set of transactions, at most one per sender and nonce.
type c10Model struct {
	txs   map[int]map[uint64]c10Tx
	nonce map[int]uint64
	bal   map[int]map[uint64]*big.Int
	gasL  uint64
}

func newC10Model() *c10Model {
	return &c10Model{txs: map[int]map[uint64]c10Tx{0: {}, 1: {}, 2: {}}, nonce: map[int]uint64{}, bal: map[int]map[uint64]*big.Int{}}
}

// head makes the model use the balances and nonces of the given block.
func (m *c10Model) head(w *vShard, b *types.MinorBlock) {
	st, err := w.s.StateAt(b.Root())
	if err != nil {
		panic(err)
	}
	for s := range m.txs {
		m.nonce[s] = st.GetNonce(vRecipient(s))
		m.bal[s] = st.GetBalances(vRecipient(s)).GetBalanceMap()
	}
	m.gasL = b.GasLimit().Uint64()
}

func (m *c10Model) pays(t c10Tx) bool {
	for k, v := range t.cost {
		if b := m.bal[t.from][k]; v.Sign() > 0 && (b == nil || b.Cmp(v) < 0) {
			return false
		}
	}
	return t.gas <= m.gasL
}

func (m *c10Model) add(t c10Tx) bool {
	old, ok := m.txs[t.from][t.n]
	if ok && old.hash == t.hash {
		return false
	}
	if t.n < m.nonce[t.from] || t.gas < 21000 || !m.pays(t) {
		return false
	}
	if ok && (t.p <= old.p || t.p < old.p*110/100) {
		return false
	}
	m.txs[t.from][t.n] = t
	return true
}

// moved: the head changed; the transactions of the abandoned blocks come back, what cannot be executed any more goes.
func (m *c10Model) moved(back []c10Tx) {
	for _, t := range back {
		m.add(t)
	}
	for s, l := range m.txs {
		for n, t := range l {
			if n < m.nonce[s] || !m.pays(t) {
				delete(l, n)
			}
		}
	}
}

func (m *c10Model) run(s int) uint64 {
	n := m.nonce[s]
	for {
		if _, ok := m.txs[s][n]; !ok {
			return n
		}
		n++
	}
}

func c10List(l types.Transactions) string {
	var r []string
	for _, t := range l {
		n := c10All[t.Hash()].name
		if n == "" {
			n = vShort(t.Hash())
		}
		r = append(r, n)
	}
	return strings.Join(r, ",")
}

func c10Str(m map[ethcommon.Address]types.Transactions) string {
	var r []string
	for a, l := range m {
		if len(l) == 0 {
			continue
		}
		n := a.Hex()[2:8]
		for i := 0; i < 4; i++ {
			if a == vRecipient(i) {
				n = string(rune('a' + i))
			}
		}
		r = append(r, n+":"+c10List(l))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func (m *c10Model) want() (pend, queue map[ethcommon.Address]types.Transactions) {
	pend, queue = map[ethcommon.Address]types.Transactions{}, map[ethcommon.Address]types.Transactions{}
	for s, l := range m.txs {
		end := m.run(s)
		var ns []uint64
		for n := range l {
			ns = append(ns, n)
		}
		sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
		for _, n := range ns {
			if n < end {
				pend[vRecipient(s)] = append(pend[vRecipient(s)], l[n].tx)
			} else {
				queue[vRecipient(s)] = append(queue[vRecipient(s)], l[n].tx)
			}
		}
	}
	return
}

// check compares everything the pool reports with the model.
func (m *c10Model) check(c *kit.Case, p *vPool, what string) {
	pool := p.s.txPool
	wp, wq := m.want()
	gp, gq := pool.Content()
	c.Check(c10Str(gp) == c10Str(wp), "executable", "after %s the pool offers [%s], executable are [%s]", what, c10Str(gp), c10Str(wp))
	c.Check(c10Str(gq) == c10Str(wq), "queued", "after %s the pool queues [%s], want [%s]", what, c10Str(gq), c10Str(wq))
	g2, err := pool.Pending()
	c.Check(err == nil && c10Str(g2) == c10Str(wp), "pending", "after %s Pending says [%s] (%v), want [%s]", what, c10Str(g2), err, c10Str(wp))
	np, nq := 0, 0
	member := map[ethcommon.Hash]TxStatus{}
	for _, l := range wp {
		np += len(l)
		for _, t := range l {
			member[t.Hash()] = TxStatusPending
		}
	}
	for _, l := range wq {
		nq += len(l)
		for _, t := range l {
			member[t.Hash()] = TxStatusQueued
		}
	}
	sp, sq := pool.Stats()
	c.Check(sp == np && sq == nq, "stats", "after %s Stats says %d/%d, want %d/%d", what, sp, sq, np, nq)
	c.Check(pool.PendingCount() == np+nq && p.s.GetPendingCount() == np+nq, "count", "after %s the pool counts %d transactions, it holds %d", what, pool.PendingCount(), np+nq)
	for s := range m.txs {
		c.Check(pool.Nonce(vRecipient(s)) == m.run(s), "nonce", "after %s the next nonce of %c is %d, want %d", what, 'a'+s, pool.Nonce(vRecipient(s)), m.run(s))
	}
	all := map[ethcommon.Hash]bool{}
	for _, t := range pool.GetAllTxInPool() {
		all[t.Hash()] = true
	}
	c.Check(len(all) == len(member), "lookup", "after %s the pool's lookup holds %d transactions, its lists %d", what, len(all), len(member))
	var hs []ethcommon.Hash
	for h := range c10All {
		hs = append(hs, h)
	}
	st := pool.Status(hs)
	for i, h := range hs {
		want, ok := member[h]
		c.Check((pool.Get(h) != nil) == ok && all[h] == ok, "lookup", "after %s transaction %s is found: %v, it is in the pool: %v", what, c10All[h].name, pool.Get(h) != nil, ok)
		c.Check(st[i] == want, "status", "after %s transaction %s has status %d, want %d", what, c10All[h].name, st[i], want)
	}
}

// c10Back says which transactions of the abandoned branch old are not on the branch of new.
func c10Back(w *c10World, old, new *types.MinorBlock) []c10Tx {
	in := map[ethcommon.Hash]bool{}
	var out []c10Tx
	a, b := old, new
	var rem []*types.Transaction
	for a.Hash() != b.Hash() {
		if a.NumberU64() >= b.NumberU64() {
			rem = append(rem, a.Transactions()...)
			a = w.s.GetMinorBlock(a.ParentHash())
		} else {
			for _, t := range b.Transactions() {
				in[t.Hash()] = true
			}
			b = w.s.GetMinorBlock(b.ParentHash())
		}
	}
	for _, t := range rem {
		if in[t.Hash()] {
			continue
		}
		if x, ok := c10All[t.Hash()]; ok {
			out = append(out, x)
		} else {
			out = append(out, w.out[t.Hash()])
		}
	}
	return out
}

// c10World is a pool and a chain moving along.
type c10World struct {
	*vPool
	m     *c10Model
	root  *types.RootBlock
	conf  uint64 // number of the last block a root block confirms
	forks int
	roots int
	out   map[ethcommon.Hash]c10Tx // transactions other nodes put into blocks
}

func newC10World(limits TxPoolConfig) *c10World {
	w := &c10World{vPool: vWithPool(c10Shard(), limits), m: newC10Model(), out: map[ethcommon.Hash]c10Tx{}}
	w.root = w.root0
	w.m.head(w.vShard, w.s.CurrentBlock())
	return w
}

// mined adds a block made elsewhere on parent.
func (w *c10World) outside(c *kit.Case, parent *types.MinorBlock, tag byte, txs ...*types.Transaction) *types.MinorBlock {
	b, _, err := w.mine(w.block(parent, w.root, vAddr(5, 0), tag, txs...))
	if err != nil {
		panic(fmt.Sprint("outside block: ", err))
	}
	return b
}

func (w *c10World) headMoved(old *types.MinorBlock) {
	now := w.s.CurrentBlock()
	back := c10Back(w, old, now)
	w.m.head(w.vShard, now)
	w.m.moved(back)
	w.sync()
}

func (w *c10World) key() string {
	p, q := w.s.txPool.Content()
	l := append([]ethcommon.Address{}, w.s.txPool.Locals()...)
	sort.Slice(l, func(i, j int) bool { return l[i].Hex() < l[j].Hex() })
	return fmt.Sprint(w.s.CurrentBlock().Hash().Hex(), "|", c10Str(p), "|", c10Str(q), "|", l, w.forks, w.roots, w.conf)
}

// spend is a transaction of sender 0 that empties most of the account, with the nonce of the given state.
func (w *c10World) spend(at *types.MinorBlock, from int, value int64, to int) *types.Transaction {
	st, err := w.s.StateAt(at.Root())
	if err != nil {
		panic(err)
	}
	return w.other(vTx{from: from, to: vRecipient(to), nonce: st.GetNonce(vRecipient(from)), value: value, gasPrice: 1})
}

func (w *c10World) other(v vTx) *types.Transaction {
	t := c10Mk("", v)
	w.out[t.hash] = t
	return t.tx
}

var c10ChainOps = []string{"mine own", "outside empty", "outside drain", "outside tokens", "outside pays", "fork", "fork with drain", "root switches"}

// chainOp performs one movement of the chain; false when it does not apply here.
func (w *c10World) chainOp(c *kit.Case, op string) bool {
	head := w.s.CurrentBlock()
	st, _ := w.s.StateAt(head.Root())
	bal := func(s int, k uint64) int64 { return st.GetBalance(vRecipient(s), k).Int64() }
	switch op {
	case "mine own":
		t := head.Time() + 10
		a := vAddr(5, 0)
		b, err := w.s.CreateBlockToMine(&t, &a, nil, nil, nil)
		c.Check(err == nil, "build", "building a block failed: %v", err)
		err = w.add(b)
		c.Check(err == nil && w.s.CurrentBlock().Hash() == b.Hash(), "build", "the block built from [%s] is not the new head: %v", c10List(b.Transactions()), err)
	case "outside empty":
		w.outside(c, head, 1)
	case "outside drain":
		if bal(0, vQKC) < 9000000 {
			return false
		}
		w.outside(c, head, 1, w.spend(head, 0, bal(0, vQKC)-5000000, 4))
	case "outside tokens":
		if bal(0, vTok) < 60 {
			return false
		}
		tx := w.other(vTx{from: 0, to: vRecipient(4), nonce: st.GetNonce(vRecipient(0)), value: 50, gasPrice: 1, xferTok: vTok})
		w.outside(c, head, 1, tx)
	case "outside pays":
		if bal(2, vQKC) < 5000000 {
			return false
		}
		w.outside(c, head, 1, w.spend(head, 2, 4000000, 0))
	case "fork", "fork with drain":
		if head.NumberU64() <= w.conf || w.forks >= 2 {
			return false
		}
		w.forks++
		p := w.s.GetMinorBlock(head.ParentHash())
		tag := byte(10 + w.forks)
		var b1 *types.MinorBlock
		if op == "fork" {
			b1 = w.outside(c, p, tag)
		} else {
			pst, _ := w.s.StateAt(p.Root())
			v := pst.GetBalance(vRecipient(0), vQKC).Int64() - 5000000
			if v <= 100000 {
				return false
			}
			b1 = w.outside(c, p, tag, w.spend(p, 0, v, 4))
		}
		c.Check(w.s.CurrentBlock().Hash() == head.Hash(), "fork", "an equally high block became the head")
		w.outside(c, b1, tag)
	case "deep fork":
		if head.NumberU64() <= w.conf+1 || w.forks >= 2 {
			return false
		}
		w.forks++
		tag := byte(10 + w.forks)
		b := w.s.GetMinorBlock(w.s.GetMinorBlock(head.ParentHash()).ParentHash())
		for i := 0; i < 3; i++ {
			b = w.outside(c, b, tag)
		}
	case "root switches":
		if head.NumberU64() <= w.conf || w.roots >= 2 {
			return false
		}
		w.roots++
		s := w.outside(c, w.s.GetMinorBlock(head.ParentHash()), byte(20+w.roots))
		hs := []*types.MinorBlockHeader{s.Header()}
		for b := s; b.NumberU64() > w.conf+1 || (w.roots == 1 && b.NumberU64() > 0); {
			b = w.s.GetMinorBlock(b.ParentHash())
			hs = append([]*types.MinorBlockHeader{b.Header()}, hs...)
		}
		r := vRoot(w.root, 5, vAddr(2, 0), 7, byte(w.roots), hs...)
		if _, err := w.s.AddRootBlock(r); err != nil {
			panic(err)
		}
		w.root, w.conf = r, s.NumberU64()
		c.Check(w.s.CurrentBlock().Hash() == s.Hash(), "fork", "the block a root block confirms is not the head")
	}
	w.headMoved(head)
	return true
}

func (w *c10World) addOp(c *kit.Case, b []c10Tx, local bool) {
	var txs []*types.Transaction
	var names []string
	for _, t := range b {
		txs = append(txs, t.tx)
		names = append(names, t.name)
	}
	var errs []error
	if local {
		if len(txs) == 1 {
			errs = []error{w.s.AddTx(txs[0])}
		} else {
			errs = w.s.AddTxList(txs)
		}
	} else {
		errs = w.s.txPool.AddRemotesSync(txs)
	}
	c.Check(len(errs) == len(b), "result", "%d results for %d transactions", len(errs), len(b))
	for i, t := range b {
		ok := w.m.add(t)
		c.Check((errs[i] == nil) == ok, "accept", "adding %v: %s accepted=%v (%v), want %v", names, t.name, errs[i] == nil, errs[i], ok)
	}
}

func TestVerifC10(t *testing.T) {
	c10Init()
	h := kit.New("C10", "pool")
	defer h.Done()
	depth := kit.Tier(4, 5)
	h.Bound("operations", depth)
	h.Bound("additions", len(c10Adds))
	h.Bound("chain movements", strings.Join(c10ChainOps, ", "))
	h.Explore("operations", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		w := newC10World(DefaultTxPoolConfig)
		defer w.close()
		w.m.check(c, w.vPool, "start")
		for d := 0; d < depth; d++ {
			i := c.Choose(len(c10Adds)+len(c10ChainOps), "operation")
			c.Step()
			var what string
			if i < len(c10Adds) {
				what = "adding " + c10Adds[i][0].name
				c.Logf("add %s", c10Adds[i][0].name)
				w.addOp(c, c10Adds[i], true)
			} else {
				what = c10ChainOps[i-len(c10Adds)]
				c.Logf("%s", what)
				if !w.chainOp(c, what) {
					c.Stop()
				}
			}
			if c.Frontier() {
				w.m.check(c, w.vPool, what)
				p, q := w.s.txPool.Stats()
				c.Outcome("%d executable %d queued", p, q)
			}
			c.Visit(w.key(), depth-d-1)
		}
	})
	c10Limits(h)
}

// c10Limits: tiny limits; whatever is dropped, the lists stay consistent, within the limits, and local senders lose nothing.
func c10Limits(h *kit.Harness) {
	depth := kit.Tier(5, 6)
	h.Bound("operations with tiny limits", depth)
	lim := DefaultTxPoolConfig
	lim.AccountSlots, lim.GlobalSlots, lim.AccountQueue, lim.GlobalQueue = 1, 2, 1, 1
	fair := lim
	fair.GlobalSlots = 4
	var two [][]c10Tx
	for _, t := range c10Lim {
		if t[0].from < 2 {
			two = append(two, t)
		}
	}
	moves := []string{"mine own", "fork", "deep fork"}
	for _, nlocal := range []int{0, 1} {
		c10LimitsOf(h, fmt.Sprintf("tiny limits, %d local senders", nlocal), depth, nlocal, lim, c10Lim, moves)
	}
	c10LimitsOf(h, "fair shares", depth, 0, fair, two, []string{"mine own"})
}

func c10LimitsOf(h *kit.Harness, name string, depth, nlocal int, lim TxPoolConfig, c10Lim [][]c10Tx, moves []string) {
	{
		h.Explore(name, kit.Opt{MaxDev: -1}, func(c *kit.Case) {
			w := newC10World(lim)
			defer w.close()
			held := map[ethcommon.Hash]c10Tx{} // accepted from a local sender
			for d := 0; d < depth; d++ {
				i := c.Choose(len(c10Lim)+len(moves), "operation")
				c.Step()
				what := ""
				if i < len(c10Lim) {
					t := c10Lim[i][0]
					what = "adding " + t.name
					c.Logf("add %s", t.name)
					local := t.from < nlocal
					var err error
					full := w.s.txPool.PendingCount() >= int(lim.GlobalSlots+lim.GlobalQueue)
					if local {
						err = w.s.AddTx(t.tx)
					} else {
						err = w.s.txPool.AddRemotesSync([]*types.Transaction{t.tx})[0]
					}
					known := w.m.nonce[t.from] > t.n
					if local {
						_, dup := held[t.hash]
						c.Check((err == nil) == (!known && !dup), "local", "adding the local transaction %s: %v", t.name, err)
						if err == nil {
							held[t.hash] = t
						}
					} else if !full && !known {
						c.Check(err == nil || strings.Contains(err.Error(), "known"), "room", "adding %s with room in the pool: %v", t.name, err)
					}
				} else {
					head := w.s.CurrentBlock()
					what = moves[i-len(c10Lim)]
					c.Logf("%s", what)
					if !w.chainOp(c, what) {
						c.Stop()
					}
					for _, t := range held {
						if t.n < w.m.nonce[t.from] {
							delete(held, t.hash)
						}
					}
					for _, t := range c10Back(w, head, w.s.CurrentBlock()) {
						if t.from < nlocal && t.n >= w.m.nonce[t.from] {
							held[t.hash] = t
						}
					}
				}
				if c.Frontier() {
					c10Consistent(c, w, lim, nlocal, held, what)
				}
				c.Visit(w.key(), depth-d-1)
			}
		})
	}
}

func c10Consistent(c *kit.Case, w *c10World, lim TxPoolConfig, nlocal int, held map[ethcommon.Hash]c10Tx, what string) {
	pool := w.s.txPool
	pend, queue := pool.Content()
	local := func(a ethcommon.Address) bool { return nlocal == 1 && a == vRecipient(0) }
	in := map[ethcommon.Hash]bool{}
	np, nq, big, lq := 0, 0, false, 0
	for s := 0; s < 3; s++ {
		a := vRecipient(s)
		n := w.m.nonce[s]
		for _, t := range pend[a] {
			c.Check(t.EvmTx.Nonce() == n, "gap", "after %s the executable transactions of %c are [%s], the account's nonce is %d", what, 'x'+s, c10List(pend[a]), w.m.nonce[s])
			in[t.Hash()] = true
			n++
		}
		c.Check(pool.Nonce(a) == n, "nonce", "after %s the next nonce of %c is %d, want %d", what, 'x'+s, pool.Nonce(a), n)
		last := int64(-1)
		for _, t := range queue[a] {
			c.Check(int64(t.EvmTx.Nonce()) > last && t.EvmTx.Nonce() > n, "queue", "after %s [%s] of %c are queued, [%s] executable, account nonce %d", what, c10List(queue[a]), 'x'+s, c10List(pend[a]), w.m.nonce[s])
			last = int64(t.EvmTx.Nonce())
			c.Check(!in[t.Hash()], "both", "after %s a transaction is executable and queued", what)
			in[t.Hash()] = true
		}
		np += len(pend[a])
		nq += len(queue[a])
		if local(a) {
			lq = len(queue[a])
		} else {
			c.Check(len(queue[a]) <= int(lim.AccountQueue), "account limit", "after %s %d transactions of %c are queued", what, len(queue[a]), 'x'+s)
			if len(pend[a]) > int(lim.AccountSlots) {
				big = true
			}
		}
	}
	c.Check(np <= int(lim.GlobalSlots) || !big, "slots", "after %s %d transactions are executable and an account holds more than its share: %s", what, np, c10Str(pend))
	c.Check(nq <= int(lim.GlobalQueue) || nq == lq, "global queue", "after %s %d transactions are queued: %s", what, nq, c10Str(queue))
	c.Check(len(pool.GetAllTxInPool()) == len(in) && pool.PendingCount() == len(in), "lookup", "after %s the lookup holds %d transactions, the lists %d", what, len(pool.GetAllTxInPool()), len(in))
	for _, t := range c10Lim {
		c.Check((pool.Get(t[0].hash) != nil) == in[t[0].hash], "lookup", "after %s %s is found: %v, listed: %v", what, t[0].name, pool.Get(t[0].hash) != nil, in[t[0].hash])
	}
	for hh, t := range held {
		c.Check(in[hh], "local dropped", "after %s the local transaction %s is gone", what, t.name)
	}
}

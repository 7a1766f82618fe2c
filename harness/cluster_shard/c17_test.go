package shard

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/params"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/event"
	ethparams "github.com/ethereum/go-ethereum/params"
)

var _ = params.NEW_TRANSACTION_LIST_LIMIT

type c17Crash struct{}

// c17DB: a store that can stop the process before any write; what a stopped process still does is lost.
type c17DB struct {
	*ethdb.MemDatabase
	before func() bool
	dead   bool
}

func (d *c17DB) lost() bool {
	if !d.dead && d.before != nil && d.before() {
		d.dead = true
		panic(c17Crash{})
	}
	return d.dead
}

func (d *c17DB) Put(k, v []byte) error {
	if d.lost() {
		return nil
	}
	return d.MemDatabase.Put(k, v)
}

func (d *c17DB) Delete(k []byte) error {
	if d.lost() {
		return nil
	}
	return d.MemDatabase.Delete(k)
}

func (d *c17DB) NewBatch() ethdb.Batch { return &c17Batch{Batch: d.MemDatabase.NewBatch(), d: d} }

type c17Batch struct {
	ethdb.Batch
	d *c17DB
}

func (b *c17Batch) Write() error {
	if b.d.lost() {
		return nil
	}
	return b.Batch.Write()
}

// c17Conn stands for the neighbours and the master: what they have been told, and what goes wrong on the way.
type c17Conn struct {
	w      *c17World
	mu     sync.Mutex
	shared map[common.Hash]string // block -> its list
	told   map[common.Hash]bool
	order  string // a header the master heard of before its parent
}

func c17List(l []*types.CrossShardTransactionDeposit) string {
	var r []string
	for _, d := range l {
		b, err := serialize.SerializeToBytes(d)
		if err != nil {
			panic(err)
		}
		r = append(r, kit.Hex(b))
	}
	return strings.Join(r, ",")
}

var errC17 = errors.New("not delivered")

func (f *c17Conn) call(what string, effect func()) error {
	k := 0
	if f.w.db.dead {
		return errC17
	}
	if f.w.faults != nil {
		k = f.w.faults(what)
	}
	switch k {
	case 1:
		return errC17
	case 2:
		effect()
		return errC17
	case 3:
		f.w.db.dead = true
		panic(c17Crash{})
	case 4:
		effect()
		f.w.db.dead = true
		panic(c17Crash{})
	}
	effect()
	return nil
}

func (f *c17Conn) tell(h *types.MinorBlockHeader) {
	if h.Number > 0 && !f.told[h.ParentHash] {
		f.order = f.w.name(h.Hash())
	}
	f.told[h.Hash()] = true
}

func (f *c17Conn) BroadcastXshardTxList(b *types.MinorBlock, l []*types.CrossShardTransactionDeposit, height uint32) error {
	s := c17List(l)
	return f.call("neighbours", func() { f.mu.Lock(); f.shared[b.Hash()] = s; f.mu.Unlock() })
}

func (f *c17Conn) BatchBroadcastXshardTxList(m map[common.Hash]*XshardListTuple, br account.Branch) error {
	n := map[common.Hash]string{}
	for h, t := range m {
		n[h] = c17List(t.XshardTxList)
	}
	return f.call("neighbours", func() {
		f.mu.Lock()
		for h, s := range n {
			f.shared[h] = s
		}
		f.mu.Unlock()
	})
}

func (f *c17Conn) SendMinorBlockHeaderToMaster(r *rpc.AddMinorBlockHeaderRequest) error {
	return f.call("master", func() { f.mu.Lock(); f.tell(r.MinorBlockHeader); f.mu.Unlock() })
}

func (f *c17Conn) SendMinorBlockHeaderListToMaster(r *rpc.AddMinorBlockHeaderListRequest) error {
	return f.call("master", func() {
		f.mu.Lock()
		for _, h := range r.MinorBlockHeaderList {
			f.tell(h)
		}
		f.mu.Unlock()
	})
}

func (f *c17Conn) BroadcastNewTip([]*types.MinorBlockHeader, *types.RootBlockHeader, uint32) error {
	return f.call("peers", func() {})
}
func (f *c17Conn) BroadcastTransactions(string, uint32, []*types.Transaction) error { return nil }
func (f *c17Conn) BroadcastMinorBlock(string, *types.MinorBlock) error              { return nil }
func (f *c17Conn) GetMinorBlocks([]common.Hash, string, uint32) ([]*types.MinorBlock, error) {
	return nil, errC17
}
func (f *c17Conn) GetMinorBlockHeaderList(*rpc.GetMinorBlockHeaderListWithSkipRequest) ([]*types.MinorBlockHeader, error) {
	return nil, errC17
}

const c17ID = 2

type c17Fixture struct {
	cfg    *config.ClusterConfig
	root0  *types.RootBlock
	root1  *types.RootBlock
	blocks []*types.MinorBlock
	names  []string
	lists  map[common.Hash]string
}

// c17World: one shard with its store and surroundings.
type c17World struct {
	f      *c17Fixture
	db     *c17DB
	conn   *c17Conn
	s      *ShardBackend
	faults func(string) int
}

func (w *c17World) name(h common.Hash) string {
	for i, b := range w.f.blocks {
		if b.Hash() == h {
			return w.f.names[i]
		}
	}
	return h.Hex()[:8]
}

func c17New(f *c17Fixture) *c17World {
	w := &c17World{f: f, db: &c17DB{MemDatabase: ethdb.NewMemDatabase()}}
	w.conn = &c17Conn{w: w, shared: map[common.Hash]string{}, told: map[common.Hash]bool{}}
	return w
}

// open starts the shard on whatever the store holds.
func (w *c17World) open() {
	s := w.s
	if s == nil {
		s = c17Backend(w.f)
		s.conn = w.conn
	}
	s.chainDb = w.db
	s.mBPool = newBlockPool{BlockPool: make(map[common.Hash]bool)}
	if _, _, err := core.SetupGenesisMinorBlock(w.db, core.NewGenesis(w.f.cfg.Quarkchain), w.f.root0, c17ID); err != nil {
		panic(err)
	}
	var err error
	s.MinorBlockChain, err = core.NewMinorBlockChain(w.db, &core.CacheConfig{TrieDirtyLimit: 256, TrieTimeLimit: time.Hour, Disabled: w.f.cfg.NoPruning}, &ethparams.ChainConfig{}, w.f.cfg, s.engine, vm.Config{}, nil, c17ID)
	if err != nil {
		panic(err)
	}
	s.MinorBlockChain.SetBroadcastMinorBlockFunc(s.AddMinorBlock)
	w.s = s
}

// c17Idle: shards that are not in use; what they hold is replaced when they are opened.
var c17Idle = struct {
	sync.Mutex
	l map[*c17Fixture][]*ShardBackend
}{l: map[*c17Fixture][]*ShardBackend{}}

func c17Backend(f *c17Fixture) *ShardBackend {
	c17Idle.Lock()
	defer c17Idle.Unlock()
	if l := c17Idle.l[f]; len(l) > 0 {
		c17Idle.l[f] = l[:len(l)-1]
		return l[len(l)-1]
	}
	s, err := New(&service.ServiceContext{EventMux: new(event.TypeMux)}, f.root0, nil, f.cfg, c17ID)
	if err != nil {
		panic(err)
	}
	s.MinorBlockChain.Stop()
	return s
}

func (w *c17World) close() {
	w.db.before, w.faults, w.db.dead = nil, nil, true
	w.s.MinorBlockChain.Stop()
	c17Idle.Lock()
	c17Idle.l[w.f] = append(c17Idle.l[w.f], w.s)
	c17Idle.Unlock()
}

// restart abandons the running shard as it is and starts another one on its store.
func (w *c17World) restart(root *types.RootBlock) {
	w.s.MinorBlockChain.SetBroadcastMinorBlockFunc(func(*types.MinorBlock) error { return nil })
	w.db.dead = true
	if inside := w.db.before != nil; inside {
		// it stopped inside the chain, which still holds its locks
		go func(m *core.MinorBlockChain) {
			defer func() { recover() }()
			m.Stop()
		}(w.s.MinorBlockChain)
	} else {
		w.s.MinorBlockChain.Stop()
	}
	fresh := &c17DB{MemDatabase: ethdb.NewMemDatabase()} // whatever the old one still does must not matter
	for _, k := range w.db.Keys() {
		v, _ := w.db.Get(k)
		fresh.MemDatabase.Put(k, v)
	}
	w.db = fresh
	w.open()
	if err := w.s.InitFromRootBlock(root); err != nil {
		panic(fmt.Sprint("restart: ", err))
	}
}

func c17Copy(b *types.MinorBlock) *types.MinorBlock {
	d, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	n := new(types.MinorBlock)
	if err := serialize.DeserializeFromBytes(d, n); err != nil {
		panic(err)
	}
	return n
}

var c17Fix = map[bool]*c17Fixture{}

func c17Setup(pruning bool) *c17Fixture {
	if f := c17Fix[pruning]; f != nil {
		return f
	}
	c := config.NewClusterConfig()
	c.NoPruning = !pruning
	q := c.Quarkchain
	q.NetworkID = 3
	q.Update(2, 2, 10, 1)
	q.SkipMinorDifficultyCheck = true
	q.SkipRootCoinbaseCheck = true
	q.SkipRootDifficultyCheck = true
	q.MinMiningGasPrice = new(big.Int)
	q.MinTXPoolGasPrice = new(big.Int)
	q.EnableEvmTimeStamp = 1
	kb := make([]byte, 32)
	kb[31] = 9
	key, err := crypto.ToECDSA(kb)
	if err != nil {
		panic(err)
	}
	rich := crypto.PubkeyToAddress(key.PublicKey)
	for _, id := range q.GetGenesisShardIds() {
		sc := q.GetShardConfigByFullShardID(id)
		sc.ConsensusType = config.PoWSimulate
		sc.Genesis.Alloc = map[account.Address]config.Allocation{{Recipient: rich, FullShardKey: id}: {Balances: map[string]*big.Int{"QKC": big.NewInt(1e15)}}}
	}
	f := &c17Fixture{cfg: c, lists: map[common.Hash]string{}}
	f.root0 = core.NewGenesis(q).CreateRootBlock()
	w := c17New(f)
	w.open()
	defer w.close()
	if err := w.s.InitFromRootBlock(f.root0); err != nil {
		panic(err)
	}
	m := w.s.MinorBlockChain
	g := m.CurrentBlock()
	cb := account.CreatEmptyAddress(0)
	f.root1 = f.root0.Header().CreateBlockToAppend(nil, nil, &cb, nil, []byte{1})
	f.root1.AddMinorBlockHeader(g.Header())
	f.root1.Finalize(types.NewTokenBalancesWithMap(map[uint64]*big.Int{q.GetDefaultChainTokenID(): big.NewInt(1)}), &cb, common.Hash{})
	if _, err := w.s.AddRootBlock(f.root1); err != nil {
		panic(err)
	}
	tok := q.GetDefaultChainTokenID()
	gl, err := q.GasLimit(c17ID)
	if err != nil {
		panic(err)
	}
	xgl := new(big.Int).Div(gl, big.NewInt(2))
	make1 := func(name string, parent *types.MinorBlock, tag byte, nonce, xtxs int) *types.MinorBlock {
		h := f.root1.Hash()
		addr := account.Address{Recipient: common.Address{tag}, FullShardKey: 0}
		b := parent.CreateBlockToAppend(nil, nil, &addr, nil, gl, xgl, []byte{tag}, nil, &h)
		for i := 0; i < xtxs; i++ {
			to := uint32(1)
			if i == 1 {
				to = 1 << 16
			}
			e := types.NewEvmTransaction(uint64(nonce+i), common.Address{7}, big.NewInt(int64(tag)+1), 40000, big.NewInt(1), 0, to, 3, 0, nil, tok, tok)
			e, err := types.SignTx(e, types.MakeSigner(3), key)
			if err != nil {
				panic(err)
			}
			b.AddTx(&types.Transaction{TxType: types.EvmTx, EvmTx: e})
		}
		b, _, err := m.FinalizeAndAddBlock(b)
		if err != nil {
			panic(err)
		}
		_, l, err := m.InsertChainForDeposits([]types.IBlock{b}, true)
		if err != nil || len(l) != 1 {
			panic(fmt.Sprint(len(l), err))
		}
		if len(l[0]) != xtxs {
			panic(fmt.Sprint("deposits ", len(l[0]), " of ", xtxs))
		}
		f.lists[b.Hash()] = c17List(l[0])
		f.blocks = append(f.blocks, c17Copy(b))
		f.names = append(f.names, name)
		return b
	}
	a1 := make1("A1", g, 1, 0, 2)
	a2 := make1("A2", a1, 2, 2, 1)
	make1("A3", a2, 3, 3, 0)
	b1 := make1("B1", g, 4, 0, 1)
	b2 := make1("B2", b1, 5, 1, 0)
	make1("B3", b2, 6, 1, 1)
	c17Fix[pruning] = f
	return f
}

type c17Op struct {
	name  string
	idx   []int
	batch bool
	kind  string
}

func (w *c17World) run(o c17Op) (err error, crashed bool) {
	defer func() {
		if w.db.dead {
			recover() // a stopped process has no way to go wrong
			crashed = true
		}
	}()
	switch {
	case o.batch:
		var l []*types.MinorBlock
		for _, i := range o.idx {
			l = append(l, c17Copy(w.f.blocks[i]))
		}
		err = w.s.AddBlockListForSync(l)
	case o.kind == "announced":
		err = w.s.NewMinorBlock("peer", c17Copy(w.f.blocks[o.idx[0]]))
	default:
		err = w.s.AddMinorBlock(c17Copy(w.f.blocks[o.idx[0]]))
	}
	return
}

// check: what counts as added is known to everybody.
func (w *c17World) check(c *kit.Case, when string) {
	w.conn.mu.Lock()
	defer w.conn.mu.Unlock()
	c.Check(w.conn.order == "", "parent first", "%s: the master heard of %s before its parent", when, w.conn.order)
	for i, b := range w.f.blocks {
		h := b.Hash()
		if l, ok := w.conn.shared[h]; ok {
			c.Check(l == w.f.lists[h], "list", "%s: the neighbours got another list for %s: %s instead of %s", when, w.f.names[i], l, w.f.lists[h])
		}
		if w.conn.told[h] {
			_, ok := w.conn.shared[h]
			c.Check(ok, "order", "%s: the master knows %s, the neighbours do not have its transactions", when, w.f.names[i])
		}
		if w.s.getBlockCommitStatusByHash(h) == BLOCK_COMMITTED {
			_, ok := w.conn.shared[h]
			c.Check(ok && w.conn.told[h], "committed", "%s: %s counts as committed; neighbours have its list: %v, the master knows it: %v", when, w.f.names[i], ok, w.conn.told[h])
		}
	}
}

func (w *c17World) acked(c *kit.Case, o c17Op, when string) {
	if o.kind == "announced" {
		return // nil also means that it was not interested
	}
	w.conn.mu.Lock()
	defer w.conn.mu.Unlock()
	for _, i := range o.idx {
		h := w.f.blocks[i].Hash()
		_, ok := w.conn.shared[h]
		c.Check(ok && w.conn.told[h], "acknowledged", "%s was acknowledged%s; neighbours have %s's list: %v, the master knows it: %v", o.name, when, w.f.names[i], ok, w.conn.told[h])
		c.Check(w.s.MinorBlockChain.HasBlock(h), "acknowledged", "%s was acknowledged%s, but %s is not there", o.name, when, w.f.names[i])
	}
}

func c17Start(f *c17Fixture) *c17World {
	w := c17New(f)
	w.open()
	if err := w.s.InitFromRootBlock(f.root0); err != nil {
		panic(err)
	}
	if _, err := w.s.AddRootBlock(f.root1); err != nil {
		panic(err)
	}
	return w
}

func (w *c17World) finish(c *kit.Case) {
	// without faults every block can be added, parent first, and is then known to everybody
	for i, b := range w.f.blocks {
		err := w.s.AddMinorBlock(c17Copy(b))
		c.Check(err == nil, "retry", "adding %s again without faults fails: %v", w.f.names[i], err)
		w.acked(c, c17Op{name: "again " + w.f.names[i], idx: []int{i}}, "")
		w.check(c, "after retrying "+w.f.names[i])
	}
	for i, b := range w.f.blocks {
		c.Check(w.s.getBlockCommitStatusByHash(b.Hash()) == BLOCK_COMMITTED, "retry", "%s does not count as committed after it was added", w.f.names[i])
	}
	c.Check(w.s.MinorBlockChain.CurrentBlock().NumberU64() == 3, "retry", "the head is %s at the end", w.name(w.s.MinorBlockChain.CurrentBlock().Hash()))
}

func TestVerifC17(t *testing.T) {
	h := kit.New("C17", "shard")
	defer h.Done()
	one := func(i int, n string) c17Op { return c17Op{name: "add " + n, idx: []int{i}} }
	ops := []c17Op{one(0, "A1"), one(1, "A2"), one(2, "A3"), one(3, "B1"), one(4, "B2"), one(5, "B3"),
		{name: "sync [A1 A2]", idx: []int{0, 1}, batch: true},
		{name: "sync [A2 A3]", idx: []int{1, 2}, batch: true},
		{name: "sync [B1 B2 B3]", idx: []int{3, 4, 5}, batch: true},
		{name: "sync [B3]", idx: []int{5}, batch: true},
		{name: "A1 announced", idx: []int{0}, kind: "announced"},
		{name: "B1 announced", idx: []int{3}, kind: "announced"},
	}
	var ns []string
	for _, o := range ops {
		ns = append(ns, o.name)
	}
	h.Bound("operations", strings.Join(ns, ", "))
	faults := []string{"arrives", "fails", "arrives but fails", "crash before", "crash after"}

	explore := func(name string, depth, dev int, pruning, dbCrash bool) {
		f := c17Setup(pruning)
		h.Bound("depth, "+name, depth)
		h.Bound("faults, "+name, dev)
		h.Explore(name, kit.Opt{MaxDev: dev}, func(c *kit.Case) {
			w := c17Start(f)
			defer w.close()
			w.faults = func(what string) int {
				if dbCrash {
					return 0
				}
				k := c.Dev(len(faults), what)
				if k > 0 {
					c.Logf("  telling the %s: %s", what, faults[k])
				}
				return k
			}
			for d := 0; d < depth; d++ {
				k := c.Choose(len(ops)+1, "operation")
				if k == len(ops) {
					if d == 0 {
						c.Stop()
					}
					c.Logf("restart")
					w.restart(f.root1)
					w.check(c, "after a restart")
					c.Visit(fmt.Sprint(c.Devs(), w.key()), depth-d-1)
					continue
				}
				o := ops[k]
				c.Logf("%s", o.name)
				if dbCrash {
					n := 0
					w.db.before = func() bool {
						n++
						if c.Dev(2, "write") == 1 {
							c.Logf("  crash before write %d", n)
							return true
						}
						return false
					}
				}
				err, crashed := w.run(o)
				if !crashed {
					w.db.before = nil
				}
				c.Step()
				if crashed {
					c.Logf("  restart")
					w.restart(f.root1)
				} else if err == nil {
					w.acked(c, o, "")
				} else {
					c.Logf("  -> %v", err)
				}
				w.check(c, "after "+o.name)
				c.Visit(fmt.Sprint(c.Devs(), w.key()), depth-d-1)
			}
			w.faults = nil
			w.finish(c)
			c.Outcome("done")
		})
	}
	explore("faults", kit.Tier(3, 4), kit.Tier(2, 3), false, false)
	explore("pruning node", 3, kit.Tier(1, 2), true, false)
	explore("crash at a write", kit.Tier(2, 3), kit.Tier(1, 2), false, true)

	// overlapping calls: a second call starts while the first one talks to its surroundings
	f := c17Setup(false)
	h.Explore("overlap", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		w := c17Start(f)
		defer w.close()
		pre := c.Choose(3, "before")
		for i := 0; i < pre; i++ {
			if err := w.s.AddMinorBlock(c17Copy(f.blocks[i])); err != nil {
				panic(err)
			}
		}
		a := ops[c.Choose(len(ops), "first")]
		b := ops[c.Choose(len(ops), "second")]
		at := c.Choose(3, "when")
		fail := c.Choose(3, "fault")
		c.Logf("%d blocks; %s; at its call %d, which %s, %s", pre, a.name, at, faults[fail], b.name)
		n, used := 0, false
		done := make(chan error, 1)
		var bad string
		w.faults = func(what string) int {
			if used {
				return 0
			}
			if n++; n != at+1 {
				return 0
			}
			used = true
			go func() {
				err, _ := w.run(b)
				if err == nil && b.kind == "" {
					w.conn.mu.Lock()
					for _, i := range b.idx {
						if hh := f.blocks[i].Hash(); !w.conn.told[hh] {
							bad = fmt.Sprintf("%s was acknowledged before the master knew %s", b.name, f.names[i])
						}
					}
					w.conn.mu.Unlock()
				}
				done <- err
			}()
			select {
			case err := <-done:
				done <- err
			case <-time.After(2 * time.Millisecond):
			}
			return fail
		}
		err, _ := w.run(a)
		if !used {
			c.Stop()
		}
		<-done
		w.faults = nil
		c.Step()
		c.Check(bad == "", "acknowledged", "%s", bad)
		if err == nil {
			w.acked(c, a, "")
		}
		w.check(c, "in the end")
		w.finish(c)
		c.Outcome("done")
	})
}

// key: the store, and what the surroundings know.
func (w *c17World) key() string {
	ks := w.db.Keys()
	sort.Slice(ks, func(i, j int) bool { return string(ks[i]) < string(ks[j]) })
	var sb strings.Builder
	for _, k := range ks {
		v, _ := w.db.Get(k)
		sb.WriteString(string(k))
		sb.WriteString("=")
		sb.WriteString(string(v))
		sb.WriteString(";")
	}
	var l []string
	for h := range w.conn.shared {
		l = append(l, "s"+h.Hex())
	}
	for h := range w.conn.told {
		l = append(l, "t"+h.Hex())
	}
	sort.Strings(l)
	l = append(l, w.s.MinorBlockChain.CurrentBlock().Hash().Hex())
	for _, b := range w.f.blocks {
		l = append(l, fmt.Sprint(w.s.mBPool.getBlockInPool(b.Hash())))
	}
	return sb.String() + strings.Join(l, ",")
}

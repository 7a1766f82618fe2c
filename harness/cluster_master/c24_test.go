package master

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/event"
)

type c24Crash struct{}

var errC24 = errors.New("not delivered")

// c24DB: a store that can stop the process before any write; what a stopped process still does is lost.
type c24DB struct {
	*ethdb.MemDatabase
	mu     sync.Mutex
	writes int
	stopAt int // stop before this write (1 = the next one); 0 = never
	dead   bool
	notify func()
}

func (d *c24DB) lost() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.dead {
		return true
	}
	d.writes++
	if d.notify != nil {
		d.notify()
	}
	if d.stopAt > 0 && d.writes == d.stopAt {
		d.dead = true
		panic(c24Crash{})
	}
	return false
}

func (d *c24DB) Put(k, v []byte) error {
	if d.lost() {
		return nil
	}
	return d.MemDatabase.Put(k, v)
}

func (d *c24DB) Delete(k []byte) error {
	if d.lost() {
		return nil
	}
	return d.MemDatabase.Delete(k)
}

func (d *c24DB) Close() {}

func (d *c24DB) NewBatch() ethdb.Batch { return &c24Batch{Batch: d.MemDatabase.NewBatch(), d: d} }

type c24Batch struct {
	ethdb.Batch
	d *c24DB
}

func (b *c24Batch) Write() error {
	if b.d.lost() {
		return nil
	}
	return b.Batch.Write()
}

// c24Slave stands for a slave with its shards: it takes a root block if it has its parent.
type c24Slave struct {
	w      *c24World
	id     string
	shards []uint32
	has    map[common.Hash]bool
	order  []string
	fault  int // 0 none, 1 the next call is lost, 2 down, 3 down but still carries calls out
	report []*rpc.HeadersInfo
	refuse bool
}

type c24World struct {
	f      *c24Fixture
	id     string
	db     *c24DB
	m      *QKCMasterBackend
	mu     sync.Mutex
	slaves []*c24Slave
	bad    string
	inCall func(s *c24Slave, b *types.RootBlock)
}

func (w *c24World) failed(format string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func (s *c24Slave) GetOpName(op uint32) string { return "S" }
func (s *c24Slave) Close()                     {}

func c24Bytes(v interface{}) *rpc.Response {
	d, err := serialize.SerializeToBytes(v)
	if err != nil {
		panic(err)
	}
	return &rpc.Response{Data: d}
}

func (s *c24Slave) take(b *types.RootBlock) error {
	if s.has[b.Hash()] {
		return nil
	}
	if b.NumberU64() > 0 && !s.has[b.ParentHash()] {
		return fmt.Errorf("slave %s does not have the parent of %s", s.id, s.w.f.name(b.Hash()))
	}
	s.has[b.Hash()] = true
	s.order = append(s.order, s.w.f.name(b.Hash()))
	return nil
}

func (s *c24Slave) Call(target string, req *rpc.Request) (*rpc.Response, error) {
	w := s.w
	switch req.Op {
	case rpc.OpHeartBeat:
		return &rpc.Response{}, nil
	case rpc.OpPing:
		return c24Bytes(&rpc.Pong{Id: []byte(s.id), FullShardList: s.shards}), nil
	case rpc.OpGetUnconfirmedHeaderList:
		if s.refuse {
			return nil, errC24
		}
		return c24Bytes(&rpc.GetUnconfirmedHeadersResponse{HeadersInfoList: s.report}), nil
	case rpc.OpMasterInfo, rpc.OpAddRootBlock:
		var b *types.RootBlock
		if req.Op == rpc.OpMasterInfo {
			var r rpc.MasterInfo
			if err := serialize.DeserializeFromBytes(req.Data, &r); err != nil {
				panic(err)
			}
			b = r.RootTip
		} else {
			var r rpc.AddRootBlockRequest
			if err := serialize.DeserializeFromBytes(req.Data, &r); err != nil {
				panic(err)
			}
			b = r.RootBlock
		}
		if w.inCall != nil && req.Op == rpc.OpAddRootBlock {
			w.inCall(s, b)
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.db.dead {
			return nil, errC24
		}
		if !rawdb.HasBlock(w.db.MemDatabase, b.Hash()) {
			w.failed("%s is delivered before it is stored", w.f.name(b.Hash()))
		}
		if req.Op == rpc.OpAddRootBlock && rawdb.ReadRbCommittingHash(w.db.MemDatabase) != b.Hash() {
			w.failed("%s is delivered without its intention being recorded", w.f.name(b.Hash()))
		}
		switch s.fault {
		case 1:
			s.fault = 0
			return nil, errC24
		case 2:
			return nil, errC24
		}
		if err := s.take(b); err != nil {
			w.failed("%v", err)
			return nil, err
		}
		if s.fault == 3 {
			return nil, errC24
		}
		return c24Bytes(&rpc.AddRootBlockResponse{}), nil
	}
	return nil, errC24
}

type c24Block struct {
	name   string
	blk    *types.RootBlock
	parent int // -1: genesis
	valid  bool
}

type c24Fixture struct {
	gen    *types.RootBlock
	blocks []*c24Block
	heads  map[string]*types.MinorBlockHeader
	ids    []uint32
}

func (f *c24Fixture) name(h common.Hash) string {
	if h == f.gen.Hash() {
		return "G"
	}
	for _, b := range f.blocks {
		if b.blk.Hash() == h {
			return b.name
		}
	}
	return h.Hex()[:8]
}

func c24Config(late bool) *config.ClusterConfig {
	c := config.NewClusterConfig()
	q := c.Quarkchain
	q.Update(2, 2, 10, 1)
	q.SkipRootDifficultyCheck = true
	q.Root.ConsensusType = config.PoWSimulate
	q.Root.Genesis.Difficulty = 1000
	q.Root.Genesis.Timestamp = 1000
	q.Root.PoSWConfig.Enabled = false
	q.GuardianPublicKey = nil
	if late {
		ids := c24IDs(c)
		q.GetShardConfigByFullShardID(ids[3]).Genesis.RootHeight = 5
	}
	return c
}

func c24IDs(c *config.ClusterConfig) []uint32 {
	ids := append([]uint32{}, c.Quarkchain.GetGenesisShardIds()...)
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

// the stores and slaves of the masters being started, by name
var c24Worlds sync.Map
var c24Setup sync.Once
var c24Next struct {
	sync.Mutex
	n int
}

func c24Stub() {
	c24Setup.Do(func() {
		createDB = func(ctx *service.ServiceContext, name string, clean, ro bool) (ethdb.Database, error) {
			w, _ := c24Worlds.Load(ctx)
			return w.(*c24World).db, nil
		}
		NewSlaveConn = func(target string, list []uint32, id string) *SlaveConnection {
			w, _ := c24Worlds.Load(strings.SplitN(target, ":", 2)[0])
			for _, s := range w.(*c24World).slaves {
				if s.id == id {
					return &SlaveConnection{target: target, client: s, shardMaskList: list, slaveID: id}
				}
			}
			panic("no such slave")
		}
	})
}

func c24New(f *c24Fixture, hosts [][]uint32) *c24World {
	c24Stub()
	c24Next.Lock()
	c24Next.n++
	n := c24Next.n
	c24Next.Unlock()
	w := &c24World{f: f, id: fmt.Sprintf("w%d", n), db: &c24DB{MemDatabase: ethdb.NewMemDatabase()}}
	for i, l := range hosts {
		s := &c24Slave{w: w, id: fmt.Sprintf("S%d", i), shards: l, has: map[common.Hash]bool{}}
		s.has[f.gen.Hash()] = true
		w.slaves = append(w.slaves, s)
	}
	return w
}

// open starts a master on whatever the store holds.
func (w *c24World) open(late bool) error {
	cfg := c24Config(late)
	cfg.SlaveList = nil
	for _, s := range w.slaves {
		sc := config.NewDefaultSlaveConfig()
		sc.IP, sc.ID, sc.FullShardList = w.id, s.id, s.shards
		cfg.SlaveList = append(cfg.SlaveList, sc)
	}
	ctx := &service.ServiceContext{EventMux: new(event.TypeMux)}
	c24Worlds.Store(ctx, w)
	c24Worlds.Store(w.id, w)
	defer c24Worlds.Delete(ctx)
	defer c24Worlds.Delete(w.id)
	m, err := New(ctx, cfg)
	if err != nil {
		return err
	}
	w.m = m
	for _, name := range []string{"a0", "a1", "a2", "a3", "b0", "b1", "x1", "c0"} {
		if h := w.f.heads[name]; h != nil {
			m.rootBlockChain.AddValidatedMinorBlockHeader(h.Hash(), h.CoinbaseAmount)
		}
	}
	return m.Init(nil)
}

func (w *c24World) stop(inside bool) {
	w.db.mu.Lock()
	w.db.dead = true
	w.db.mu.Unlock()
	m := w.m
	if m == nil {
		return
	}
	w.m = nil
	if inside { // it stopped inside the chain, whose locks it still holds
		go func() {
			defer func() { recover() }()
			m.Stop()
		}()
		return
	}
	m.Stop()
}

// restart leaves the master as it is and opens another one on its store.
func (w *c24World) restart(inside bool) {
	w.stop(inside)
	fresh := &c24DB{MemDatabase: ethdb.NewMemDatabase()}
	for _, k := range w.db.Keys() {
		v, _ := w.db.Get(k)
		fresh.MemDatabase.Put(k, v)
	}
	w.db = fresh
	for _, s := range w.slaves {
		s.fault = 0
	}
}

func c24Copy(b *types.RootBlock) *types.RootBlock {
	d, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	n := new(types.RootBlock)
	if err := serialize.DeserializeFromBytes(d, n); err != nil {
		panic(err)
	}
	return n
}

func c24Header(last *types.MinorBlockHeader, shard uint32, root common.Hash, tag string) *types.MinorBlockHeader {
	h := &types.MinorBlockHeader{Branch: account.Branch{Value: shard}, PrevRootBlockHash: root, Difficulty: big.NewInt(10), GasLimit: &serialize.Uint256{Value: big.NewInt(12000000)},
		Coinbase: account.CreatEmptyAddress(shard), CoinbaseAmount: types.NewEmptyTokenBalances(), Extra: []byte(tag), Time: 1000}
	if last != nil {
		h.Number, h.ParentHash = last.Number+1, last.Hash()
	}
	return h
}

func c24Build() *c24Fixture {
	cfg := c24Config(false)
	q := cfg.Quarkchain
	f := &c24Fixture{heads: map[string]*types.MinorBlockHeader{}, ids: c24IDs(cfg)}
	db := ethdb.NewMemDatabase()
	f.gen = core.NewGenesis(q).MustCommitRootBlock(db)
	engine, err := createConsensusEngine(q.Root, nil, 0)
	if err != nil {
		panic(err)
	}
	r, err := core.NewRootBlockChain(db, q, engine)
	if err != nil {
		panic(err)
	}
	defer r.Stop()
	hd := func(name string, last string, shard int, root common.Hash) *types.MinorBlockHeader {
		h := c24Header(f.heads[last], f.ids[shard], root, name)
		f.heads[name] = h
		r.AddValidatedMinorBlockHeader(h.Hash(), h.CoinbaseAmount)
		return h
	}
	g := f.gen.Hash()
	hd("a0", "", 0, g)
	hd("a1", "a0", 0, g)
	hd("a2", "a1", 0, g)
	hd("a3", "a2", 0, g)
	hd("b0", "", 1, g)
	hd("b1", "b0", 1, g)
	hd("x1", "a0", 0, g) // another child of a0
	hd("c0", "", 2, g)
	add := func(name string, parent int, diff int64, ok bool, headers ...string) {
		p := f.gen
		if parent >= 0 {
			p = f.blocks[parent].blk
		}
		ts := p.Time() + 1
		addr := account.CreatEmptyAddress(0)
		b := p.Header().CreateBlockToAppend(&ts, big.NewInt(diff), &addr, nil, []byte(name))
		var l []*types.MinorBlockHeader
		for _, n := range headers {
			l = append(l, f.heads[n])
		}
		b.ExtendMinorBlockHeaderList(l, ts)
		cb, err := r.CalculateRootBlockCoinBase(b)
		if err != nil {
			panic(err)
		}
		if !ok {
			cb = types.NewEmptyTokenBalances()
		}
		b.Finalize(cb, &addr, common.Hash{})
		if _, err := r.InsertChain([]types.IBlock{c24Copy(b)}); (err == nil) != ok {
			panic(fmt.Sprint(name, ": ", err))
		}
		f.blocks = append(f.blocks, &c24Block{name, b, parent, ok})
	}
	add("A1", -1, 1000, true, "a0", "b0")
	add("A2", 0, 1000, true, "a1")
	add("A3", 1, 1000, true)
	add("B1", -1, 900, true, "a0")
	add("B2", 3, 5000, true, "b0")
	add("X", 0, 1000, false) // its reward is wrong
	return f
}

func (w *c24World) has(b *c24Block) bool {
	ok := true
	for _, s := range w.slaves {
		ok = ok && s.has[b.blk.Hash()]
	}
	return ok
}

// whole: everything the master has is with every slave, and nothing is left to be done.
func (w *c24World) whole(c *kit.Case, when string) {
	for _, b := range w.f.blocks {
		if w.m.rootBlockChain.HasBlock(b.blk.Hash()) {
			for _, s := range w.slaves {
				c.Check(s.has[b.blk.Hash()], "undelivered", "%s: the master has %s, slave %s was never given it", when, b.name, s.id)
			}
		}
	}
	cur := w.m.rootBlockChain.CurrentBlock()
	for _, s := range w.slaves {
		c.Check(s.has[cur.Hash()], "head", "%s: slave %s does not have the head", when, s.id)
	}
}

// model of the root chain: what is in it and its head.
type c24Model struct {
	in   map[int]bool
	head int
}

func (f *c24Fixture) td(i int) int64 {
	if i < 0 {
		return 1000
	}
	return f.blocks[i].blk.Difficulty().Int64() + f.td(f.blocks[i].parent)
}

func (m *c24Model) accepts(f *c24Fixture, i int) bool {
	b := f.blocks[i]
	return b.valid && (b.parent < 0 || m.in[b.parent])
}

func (m *c24Model) add(f *c24Fixture, i int) {
	m.in[i] = true
	if f.td(i) > f.td(m.head) {
		m.head = i
	}
}

func (w *c24World) headName() string { return w.f.name(w.m.rootBlockChain.CurrentBlock().Hash()) }

func (f *c24Fixture) at(i int) string {
	if i < 0 {
		return "G"
	}
	return f.blocks[i].name
}

func c24Hosts(f *c24Fixture) [][]uint32 {
	return [][]uint32{{f.ids[0], f.ids[1]}, {f.ids[2], f.ids[3]}}
}

func TestVerifC24(t *testing.T) {
	h := kit.New("C24", "root blocks on all shards")
	defer h.Done()
	f := c24Build()
	ops, devs := kit.Tier(4, 5), kit.Tier(1, 2)
	h.Bound("root block additions per history", ops)
	h.Bound("faults per history", devs)

	h.Explore("deliveries", kit.Opt{MaxDev: devs}, func(c *kit.Case) {
		w := c24New(f, c24Hosts(f))
		if err := w.open(false); err != nil {
			panic(err)
		}
		inside := false
		defer func() { w.stop(inside) }()
		mod := &c24Model{in: map[int]bool{}, head: -1}
		unsure := -1 // the block a fault interrupted
		recover := func() {
			for try := 0; ; try++ {
				w.restart(inside)
				inside = false
				var err error
				plan := 0
				if try < 2 {
					plan = c.Dev(6, "fault while restarting")
				}
				switch plan {
				case 1, 2:
					w.slaves[plan-1].fault = 2
				case 3:
					w.slaves[0].fault = 3
				case 4:
					w.db.stopAt = 1 + c.Choose(8, "before write")
				case 5:
					w.slaves[1].fault = 1
				}
				site, v := kit.Try(func() { err = w.open(false) })
				if v != nil {
					_, crash := v.(c24Crash)
					inside = crash
					if !crash {
						c.Check(plan != 0, "restart-panic", "restarting panics at %s: %v", site, v)
					}
					continue
				}
				c.Check(w.bad == "", "deliver", "%s", w.bad)
				if plan == 0 {
					c.Check(err == nil, "restart", "the master cannot be started again: %v", err)
				}
				if err == nil {
					break
				}
			}
			w.whole(c, "after a restart")
			c.Check(rawdb.ReadRbCommittingHash(w.db.MemDatabase) == common.Hash{}, "mark", "after a restart a root block is still marked as being delivered")
			if unsure >= 0 {
				if w.m.rootBlockChain.HasBlock(f.blocks[unsure].blk.Hash()) {
					mod.add(f, unsure)
				}
				unsure = -1
			}
			c.Check(w.headName() == f.at(mod.head), "restart-head", "after a restart the head is %s instead of %s", w.headName(), f.at(mod.head))
			c.Logf("restarted, head %s", w.headName())
		}
		for i := 0; i < ops; i++ {
			key := fmt.Sprintf("%v %d %d %v", mod.in, mod.head, c.Devs(), rawdb.ReadRbCommittingHash(w.db.MemDatabase))
			for _, s := range w.slaves {
				key += fmt.Sprint(" ", s.order)
			}
			c.Visit(key, ops-i)
			k := c.Choose(len(f.blocks), "block")
			b := f.blocks[k]
			plan := c.Dev(10, "fault")
			down := true
			switch plan {
			case 0:
				down = false
			case 1, 2:
				w.slaves[plan-1].fault = 1
				down = false
			case 3, 4:
				w.slaves[plan-3].fault = 2
			case 5, 6:
				w.slaves[plan-5].fault = 3
			case 7:
				w.slaves[0].fault, w.slaves[1].fault = 2, 2
			case 8:
				w.slaves[0].fault, w.slaves[1].fault = 2, 3
			case 9:
				w.db.mu.Lock()
				w.db.writes, w.db.stopAt = 0, 1+c.Choose(16, "before write")
				w.db.mu.Unlock()
			}
			var err error
			how := "mined"
			site, v := kit.Try(func() {
				if plan == 0 && c.Bool("by synchronisation") {
					how = "synchronised"
					err = w.m.rootBlockChain.AddBlock(c24Copy(b.blk))
				} else {
					err = w.m.InsertMinedBlock(c24Copy(b.blk))
				}
			})
			c.Logf("%s %s (fault %d): err %v panic %v %s", b.name, how, plan, err, v, site)
			c.Step()
			c.Check(w.bad == "", "deliver", "adding %s: %s", b.name, w.bad)
			if plan == 9 && v == nil && w.db.writes < w.db.stopAt {
				c.Stop() // it makes fewer writes
			}
			if v != nil {
				_, inside = v.(c24Crash)
				c.Check(inside || down, "panic", "adding %s panics at %s: %v", b.name, site, v)
				unsure = k
				recover()
				continue
			}
			for _, s := range w.slaves {
				s.fault = 0
			}
			if !mod.accepts(f, k) {
				c.Check(err != nil, "accepted", "adding %s succeeded though it is invalid or unlinked", b.name)
				continue
			}
			if err != nil {
				c.Check(down, "refused", "adding %s: %v", b.name, err)
				if w.m.rootBlockChain.HasBlock(b.blk.Hash()) {
					mod.add(f, k)
				}
				continue
			}
			mod.add(f, k)
			c.Check(w.has(b), "undelivered", "%s is reported as added, not every slave was given it", b.name)
			c.Check(rawdb.ReadRbCommittingHash(w.db.MemDatabase) == common.Hash{}, "mark", "%s is added and delivered but still marked as being delivered", b.name)
			c.Check(w.headName() == f.at(mod.head), "head", "after %s the head is %s instead of %s", b.name, w.headName(), f.at(mod.head))
		}
		// whatever happened, a master started now makes up for it
		recover()
		for k := range f.blocks {
			if mod.accepts(f, k) {
				err := w.m.InsertMinedBlock(c24Copy(f.blocks[k].blk))
				c.Check(err == nil, "stuck", "in the end adding %s fails: %v", f.blocks[k].name, err)
				mod.add(f, k)
			}
		}
		c.Check(w.bad == "", "deliver", "in the end: %s", w.bad)
		c.Check(w.headName() == f.at(mod.head), "final-head", "in the end the head is %s instead of %s", w.headName(), f.at(mod.head))
		w.whole(c, "in the end")
		c.Outcome("head %s", w.headName())
	})

	h.Explore("overlapping", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		w := c24New(f, c24Hosts(f))
		if err := w.open(false); err != nil {
			panic(err)
		}
		defer func() { w.stop(false) }()
		mod := &c24Model{in: map[int]bool{}, head: -1}
		for i, n := 0, c.Choose(3, "blocks before"); i < n; i++ {
			if err := w.m.InsertMinedBlock(c24Copy(f.blocks[i].blk)); err != nil {
				panic(err)
			}
			mod.add(f, i)
		}
		k := c.Choose(len(f.blocks), "first")
		l := c.Choose(len(f.blocks), "second")
		if !mod.accepts(f, k) || mod.in[k] {
			c.Stop()
		}
		at := c.Choose(2, "during the delivery to slave")
		var other chan error
		var began string
		w.inCall = func(s *c24Slave, b *types.RootBlock) {
			if s != w.slaves[at] || other != nil {
				return
			}
			other = make(chan error, 1)
			wrote := make(chan struct{}, 1)
			w.db.mu.Lock()
			w.db.notify = func() {
				select {
				case wrote <- struct{}{}:
				default:
				}
			}
			w.db.mu.Unlock()
			go func() {
				var e error
				if site, v := kit.Try(func() { e = w.m.rootBlockChain.AddBlock(c24Copy(f.blocks[l].blk)) }); v != nil {
					e = fmt.Errorf("panic at %s: %v", site, v)
				}
				other <- e
			}()
			select {
			case <-wrote:
				began = f.blocks[l].name
			case <-time.After(12 * time.Millisecond):
			}
			w.db.mu.Lock()
			w.db.notify = nil
			w.db.mu.Unlock()
		}
		var err error
		site, v := kit.Try(func() { err = w.m.InsertMinedBlock(c24Copy(f.blocks[k].blk)) })
		c.Check(other != nil, "undelivered", "%s is not delivered to every slave", f.blocks[k].name)
		err2 := <-other
		c.Check(v == nil, "panic", "adding %s while another one is added panics at %s: %v", f.blocks[k].name, site, v)
		c.Check(err == nil, "refused", "adding %s: %v", f.blocks[k].name, err)
		mod.add(f, k)
		err = err2
		c.Check(began == "", "overlap", "adding %s began while %s was still being delivered", began, f.blocks[k].name)
		if mod.accepts(f, l) {
			c.Check(err == nil, "refused", "adding %s: %v", f.blocks[l].name, err)
			mod.add(f, l)
		} else {
			c.Check(err != nil, "accepted", "adding %s succeeded", f.blocks[l].name)
		}
		c.Check(w.bad == "", "deliver", "%s", w.bad)
		c.Check(w.headName() == f.at(mod.head), "head", "the head is %s instead of %s", w.headName(), f.at(mod.head))
		w.whole(c, "after both")
		c.Outcome("%s then %s", f.blocks[k].name, f.blocks[l].name)
	})

	h.Explore("proposals", kit.Opt{MaxDev: -1}, func(c *kit.Case) { c24Propose(c, f) })
}

type c24List struct {
	names []string
}

// c24Propose: every combination of lists the slaves may report; what the proposed block holds.
func c24Propose(c *kit.Case, f *c24Fixture) {
	late := c.Bool("the last shard starts later")
	hosts := c24Hosts(f)
	twice := c.Bool("a shard run by two slaves")
	if twice {
		hosts[1] = append([]uint32{f.ids[0]}, hosts[1]...)
	}
	w := c24New(f, hosts)
	if err := w.open(late); err != nil {
		panic(err)
	}
	defer func() { w.stop(false) }()
	m := w.m
	if err := m.InsertMinedBlock(c24Copy(f.blocks[0].blk)); err != nil {
		panic(err)
	}
	root := f.blocks[0].blk.Hash()
	fresh := map[string]*types.MinorBlockHeader{}
	mk := func(name string, last *types.MinorBlockHeader, shard int, ok bool) *types.MinorBlockHeader {
		h := c24Header(last, f.ids[shard], root, name)
		fresh[name] = h
		if ok {
			m.rootBlockChain.AddValidatedMinorBlockHeader(h.Hash(), h.CoinbaseAmount)
		}
		return h
	}
	a1 := mk("p1", f.heads["a0"], 0, true)
	a2 := mk("p2", a1, 0, true)
	mk("p3", a2, 0, false) // not known to be validated
	u1 := mk("u1", f.heads["a0"], 0, false)
	mk("u2", u1, 0, true)
	mk("q1", f.heads["b0"], 1, true)
	mk("d0", nil, 3, true)
	fresh["c0"] = f.heads["c0"]
	lists := [][]string{nil, {"p1"}, {"p1", "p2"}, {"p1", "p2", "p3"}, {"u1", "u2"}, {"p1", "p3"}}
	la := c.Choose(len(lists), "list of the first shard")
	lb := c.Choose(2, "list of the second shard")
	lc := c.Choose(2, "list of the third shard")
	ld := c.Choose(2, "list of the last shard")
	info := func(shard int, l []string) *rpc.HeadersInfo {
		r := &rpc.HeadersInfo{Branch: f.ids[shard]}
		for _, n := range l {
			r.HeaderList = append(r.HeaderList, fresh[n])
		}
		return r
	}
	pick := func(k int, name string) []string {
		if k == 0 {
			return nil
		}
		return []string{name}
	}
	reported := map[uint32][][]string{}
	put := func(s int, shard int, l []string) {
		w.slaves[s].report = append(w.slaves[s].report, info(shard, l))
		reported[f.ids[shard]] = append(reported[f.ids[shard]], l)
	}
	order := c.Bool("in the other order")
	s0 := []func(){func() { put(0, 0, lists[la]) }, func() { put(0, 1, pick(lb, "q1")) }}
	s1 := []func(){func() { put(1, 2, pick(lc, "c0")) }, func() { put(1, 3, pick(ld, "d0")) }}
	if twice {
		l2 := lists[c.Choose(4, "list of the first shard on the other slave")]
		s1 = append(s1, func() { put(1, 0, l2) })
	}
	for _, s := range [][]func(){s0, s1} {
		for i := range s {
			if order {
				i = len(s) - 1 - i
			}
			s[i]()
		}
	}
	fail := 0
	if !twice {
		fail = c.Choose(3, "a slave does not answer")
		if fail > 0 {
			w.slaves[fail-1].refuse = true
		}
	}
	addr := account.CreatEmptyAddress(0)
	var blk types.IBlock
	var err error
	site, v := kit.Try(func() { blk, _, _, err = m.CreateBlockToMine(&addr) })
	c.Step()
	c.Check(v == nil, "panic", "panic at %s: %v", site, v)
	gap := la == 5
	if fail > 0 {
		if err == nil {
			for _, h := range blk.(*types.RootBlock).MinorBlockHeaders() {
				for _, id := range w.slaves[fail-1].shards {
					c.Check(h.Branch.Value != id, "unreported", "a header of shard %x is proposed though nobody reported it", id)
				}
			}
		}
		return
	}
	if gap && twice {
		return // whichever list came first counts
	}
	if gap {
		c.Check(err != nil, "gap", "a list with a gap is proposed")
		return
	}
	c.Check(err == nil, "refused", "no block is proposed: %v", err)
	got := map[uint32][]string{}
	lastShard := uint32(0)
	for _, h := range blk.(*types.RootBlock).MinorBlockHeaders() {
		c.Check(h.Branch.Value >= lastShard, "order", "the shards of the proposed block are not in order")
		lastShard = h.Branch.Value
		name := "?"
		for n, x := range fresh {
			if x.Hash() == h.Hash() {
				name = n
			}
		}
		got[h.Branch.Value] = append(got[h.Branch.Value], name)
	}
	good := map[string]bool{"p1": true, "p2": true, "u2": true, "q1": true, "d0": true, "c0": true}
	for i, id := range f.ids {
		var want []string
		for _, l := range reported[id] {
			var r []string
			for _, n := range l {
				if !good[n] {
					break
				}
				r = append(r, n)
			}
			if late && i == 3 {
				r = nil
			}
			want = append(want, strings.Join(r, ","))
		}
		g := strings.Join(got[id], ",")
		ok := len(want) == 0 && g == ""
		for _, x := range want {
			ok = ok || x == g
		}
		c.Check(ok, "headers", "the block proposed holds [%s] of shard %x, reported and valid is %q", g, id, want)
	}
	c.Check(blk.ParentHash() == root, "parent", "the proposed block does not extend the head")
	err = m.InsertMinedBlock(c24Copy(blk.(*types.RootBlock)))
	c.Check(err == nil, "invalid", "the proposed block %v is refused: %v", got, err)
	c.Check(w.bad == "", "deliver", "%s", w.bad)
	c.Outcome("%d headers", len(blk.(*types.RootBlock).MinorBlockHeaders()))
}

package master

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	qkcsync "github.com/QuarkChain/goquarkchain/cluster/sync"
	qkcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/event"
	"github.com/ethereum/go-ethereum/p2p/enode"
)

// c18Wire is the connection to a peer: what it sends next, and what it was sent.
type c18Wire struct {
	in  p2p.Msg
	out chan p2p.QKCMsg
}

func (w *c18Wire) ReadMsg() (p2p.Msg, error) { return w.in, nil }
func (w *c18Wire) WriteMsg(m p2p.Msg) error {
	b, err := ioutil.ReadAll(m.Payload)
	if err != nil {
		panic(err)
	}
	q, err := p2p.DecodeQKCMsg(b)
	if err != nil {
		panic(err)
	}
	w.out <- q
	return nil
}

type c18Slave struct {
	rpc.ISlaveConn // anything else is not expected
	id             string
	calls          chan string
	fail           bool
}

func (s *c18Slave) note(op string, branch uint32, peer string, data []byte) ([]byte, error) {
	s.calls <- fmt.Sprintf("%s %s %d %s %s", s.id, op, branch, peer, kit.Hex(data))
	if s.fail {
		return nil, errors.New("refused")
	}
	return []byte(op), nil
}
func (s *c18Slave) AddTransactions(r *rpc.P2PRedirectRequest) error {
	_, err := s.note("txs", r.Branch, r.PeerID, r.Data)
	return err
}
func (s *c18Slave) HandleNewMinorBlock(r *rpc.P2PRedirectRequest) error {
	_, err := s.note("block", r.Branch, r.PeerID, r.Data)
	return err
}
func (s *c18Slave) GetMinorBlocks(r *rpc.P2PRedirectRequest) ([]byte, error) {
	return s.note("blocks", r.Branch, r.PeerID, r.Data)
}
func (s *c18Slave) GetMinorBlockHeaderList(r *rpc.P2PRedirectRequest) ([]byte, error) {
	return s.note("headers", r.Branch, "", r.Data)
}
func (s *c18Slave) GetMinorBlockHeaderListWithSkip(r *rpc.P2PRedirectRequest) ([]byte, error) {
	return s.note("headersSkip", r.Branch, r.PeerID, r.Data)
}
func (s *c18Slave) HandleNewTip(r *rpc.HandleNewTipRequest) error {
	_, err := s.note("tip", r.MinorBlockHeaderList[0].Branch.Value, r.PeerID, []byte(fmt.Sprint(r.MinorBlockHeaderList[0].Number)))
	return err
}

type c18Conns struct{ m map[uint32][]rpc.ISlaveConn }

func (m *c18Conns) GetOneSlaveConnById(id uint32) rpc.ISlaveConn {
	if l := m.m[id]; len(l) > 0 {
		return l[0]
	}
	return nil
}
func (m *c18Conns) GetSlaveConnsById(id uint32) []rpc.ISlaveConn { return m.m[id] }
func (m *c18Conns) GetSlaveConns() []rpc.ISlaveConn {
	return append(append([]rpc.ISlaveConn{}, m.m[2]...), m.m[3]...)
}
func (m *c18Conns) ConnCount() int { return 2 }

type c18Sync struct{ tasks int }

func (s *c18Sync) AddTask(qkcsync.Task) error { s.tasks++; return nil }
func (s *c18Sync) Close() error               { return nil }
func (s *c18Sync) IsSyncing() bool            { return false }
func (s *c18Sync) SubscribeSyncEvent(ch chan<- *qkcsync.SyncingResult) event.Subscription {
	return event.NewSubscription(func(q <-chan struct{}) error { <-q; return nil })
}

type c18World struct {
	pm     *ProtocolManager
	chain  *core.RootBlockChain
	main   []*types.RootBlock // the canonical chain
	fork   []*types.RootBlock // from main[2]
	sync   *c18Sync
	calls  chan string
	slaves map[uint32]*c18Slave
	cc     *config.ClusterConfig
}

func c18New(n int) *c18World {
	cc := config.NewClusterConfig()
	q := cc.Quarkchain
	q.SkipRootCoinbaseCheck = true
	db := ethdb.NewMemDatabase()
	g := core.NewGenesis(q).MustCommitRootBlock(db)
	engine := new(consensus.FakeEngine)
	chain, err := core.NewRootBlockChain(db, q, engine)
	if err != nil {
		panic(err)
	}
	w := &c18World{chain: chain}
	w.main = append([]*types.RootBlock{g}, core.GenerateRootBlockChain(g, engine, n, nil)...)
	for _, b := range w.main[1:] {
		if _, err := chain.InsertChain([]types.IBlock{b}); err != nil {
			panic(err)
		}
	}
	w.fork = core.GenerateRootBlockChain(w.main[2], engine, 2, func(i int, b *core.RootBlockGen) { b.SetExtra([]byte("fork")) })
	for _, b := range w.fork {
		if _, err := chain.InsertChain([]types.IBlock{b}); err != nil {
			panic(err)
		}
	}
	if chain.CurrentBlock().Hash() != w.main[n].Hash() {
		panic("not the expected head")
	}
	w.cc = cc
	return w
}

// own gives an execution a protocol manager, shards and records of its own.
func (w *c18World) own() *c18World {
	n := &c18World{chain: w.chain, main: w.main, fork: w.fork, cc: w.cc, sync: new(c18Sync), calls: make(chan string, 10000), slaves: map[uint32]*c18Slave{}}
	conns := &c18Conns{m: map[uint32][]rpc.ISlaveConn{}}
	for id, name := range map[uint32]string{2: "A", 3: "B"} {
		s := &c18Slave{id: name, calls: n.calls}
		conns.m[id], n.slaves[id] = []rpc.ISlaveConn{s}, s
	}
	var err error
	n.pm, err = NewProtocolManager(*n.cc, n.chain, nil, n.sync, conns)
	if err != nil {
		panic(err)
	}
	return n
}

func c18Peer(name byte) (*Peer, *c18Wire) {
	wire := &c18Wire{out: make(chan p2p.QKCMsg, 100)}
	var id enode.ID
	id[0] = name
	return newPeer(1, p2p.NewPeer(id, "peer", nil), wire), wire
}

func c18Data(v interface{}) []byte {
	d, err := serialize.SerializeToBytes(v)
	if err != nil {
		panic(err)
	}
	return d
}

// c18Give has the peer send a message; it reports the handler's verdict, or that it never ends.
func (w *c18World) give(p *Peer, wire *c18Wire, op p2p.P2PCommandOp, rpcID uint64, branch uint32, data []byte) (error, bool) {
	body, err := p2p.Encrypt(p2p.Metadata{Branch: branch}, op, rpcID, data)
	if err != nil {
		panic(err)
	}
	wire.in = p2p.Msg{Size: uint32(len(body)), Payload: bytes.NewReader(body)}
	type end struct {
		err  error
		site string
		val  interface{}
	}
	done := make(chan end, 1)
	go func() {
		var e end
		e.site, e.val = kit.Try(func() { e.err = w.pm.handleMsg(p) })
		done <- e
	}()
	select {
	case e := <-done:
		if e.val != nil {
			panic(fmt.Sprintf("a message of type %d crashes the handler at %s: %v", op, e.site, e.val))
		}
		return e.err, true
	case <-time.After(20 * time.Second):
		return nil, false
	}
}

func c18Wait(ch chan string) string {
	select {
	case s := <-ch:
		return s
	case <-time.After(20 * time.Second):
		return "nothing"
	}
}

func TestVerifC18Root(t *testing.T) {
	h := kit.New("C18", "root")
	defer h.Done()
	n := kit.Tier(6, 9)
	w := c18New(n)
	h.Bound("root blocks", n)
	canonical := map[common.Hash]int{}
	byHash := map[common.Hash]*types.RootBlock{}
	for i, b := range w.main {
		canonical[b.Hash()] = i
		byHash[b.Hash()] = b
	}
	for _, b := range w.fork {
		byHash[b.Hash()] = b
	}
	var hashes []common.Hash
	for _, b := range w.main {
		hashes = append(hashes, b.Hash())
	}
	hashes = append(hashes, w.fork[0].Hash(), w.fork[1].Hash(), common.Hash{7}, common.Hash{})
	var heights []*big.Int
	for i := -1; i <= n+2; i++ {
		if i >= 0 {
			heights = append(heights, big.NewInt(int64(i)))
		}
	}
	for _, s := range []uint{31, 32, 33, 63, 64, 255} {
		p := new(big.Int).Lsh(big.NewInt(1), s)
		heights = append(heights, new(big.Int).Sub(p, big.NewInt(1)), p, new(big.Int).Add(p, big.NewInt(1)), new(big.Int).Add(p, big.NewInt(int64(n))))
	}
	max := uint32(qkcsync.RootBlockHeaderListLimit)
	limits := []uint32{0, 1, 2, 3, uint32(n), uint32(n) + 1, uint32(n) + 2, max - 1, max, max + 1, 2 * max, 2*max + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	skips := []uint32{0, 1, 2, 3, uint32(n) - 1, uint32(n), uint32(n) + 1, 1<<31 - 1, 1 << 31, 1<<32 - 2 - uint32(n), 1<<32 - 3, 1<<32 - 2, 1<<32 - 1}
	read := func(c *kit.Case, wire *c18Wire, op p2p.P2PCommandOp, v interface{}) bool {
		select {
		case q := <-wire.out:
			c.Check(q.Op == op && q.RpcID == 77, "answer-header", "the answer has type %d and id %d", q.Op, q.RpcID)
			c.Check(len(wire.out) == 0, "answer-count", "there is more than one answer")
			if err := serialize.DeserializeFromBytes(q.Data, v); err != nil {
				c.Fail("answer-unreadable", "the answer is not readable: %v", err)
			}
			return true
		default:
			return false
		}
	}
	show := func(l []*types.RootBlockHeader) string {
		var r string
		for _, x := range l {
			if b := byHash[x.Hash()]; b == nil {
				r += " unknown"
			} else if _, ok := canonical[b.Hash()]; ok {
				r += fmt.Sprint(" ", b.NumberU64())
			} else {
				r += fmt.Sprint(" f", b.NumberU64())
			}
		}
		return r
	}
	h.Explore("headers with skip", kit.Opt{}, func(c *kit.Case) {
		typ := c.Choose(3, "type")
		req := &p2p.GetRootBlockHeaderListWithSkipRequest{Type: uint8(typ)}
		var start *big.Int
		known := true
		if typ == int(qkcom.SkipHash) {
			req.Data = hashes[c.Choose(len(hashes), "hash")]
			i, ok := canonical[req.Data]
			known, start = ok, big.NewInt(int64(i))
		} else {
			start = heights[c.Choose(len(heights), "height")]
			req.Data = common.BytesToHash(start.Bytes())
		}
		dir := c.Choose(3, "direction")
		req.Direction = uint8(dir)
		req.Limit = limits[c.Choose(len(limits), "limit")]
		req.Skip = skips[c.Choose(len(skips), "skip")]
		w := w.own()
		p, wire := c18Peer(1)
		err, ended := w.give(p, wire, p2p.GetRootBlockHeaderListWithSkipRequestMsg, 77, 0, c18Data(req))
		c.Check(ended, "hang", "the handler never ends")
		var res p2p.GetRootBlockHeaderListResponse
		answered := read(c, wire, p2p.GetRootBlockHeaderListWithSkipResponseMsg, &res)
		c.Check((err == nil) == answered, "answer", "error %v, answered %v", err, answered)
		valid := typ < 2 && dir < 2 && req.Limit > 0 && req.Limit <= 2*max
		if valid && req.Limit <= max {
			c.Check(answered, "refused", "a proper request is refused: %v", err)
		}
		if !valid {
			c.Check(!answered, "accepted", "an improper request is answered with%s", show(res.BlockHeaderList))
		}
		c.Outcome("answered=%v", answered)
		if !answered {
			return
		}
		c.Check(res.RootTip.Hash() == w.main[n].Hash(), "tip", "the tip in the answer is wrong")
		var want []*types.RootBlockHeader
		at := new(big.Int).Set(start)
		for known && len(want) < int(req.Limit) && at.Sign() >= 0 && at.Cmp(big.NewInt(int64(n))) <= 0 {
			want = append(want, w.main[at.Int64()].Header())
			step := new(big.Int).Add(big.NewInt(int64(req.Skip)), big.NewInt(1))
			if dir == int(qkcom.DirectionToGenesis) {
				at.Sub(at, step)
			} else {
				at.Add(at, step)
			}
		}
		c.Check(show(res.BlockHeaderList) == show(want), "headers", "type %d start %v direction %d limit %d skip %d: the answer has%s, not%s", typ, start, dir, req.Limit, req.Skip, show(res.BlockHeaderList), show(want))
	})
	h.Explore("headers", kit.Opt{}, func(c *kit.Case) {
		req := &p2p.GetRootBlockHeaderListRequest{BlockHash: hashes[c.Choose(len(hashes), "hash")]}
		dir := c.Choose(3, "direction")
		req.Direction = uint8(dir)
		req.Limit = limits[c.Choose(len(limits), "limit")]
		w := w.own()
		p, wire := c18Peer(1)
		err, ended := w.give(p, wire, p2p.GetRootBlockHeaderListRequestMsg, 77, 0, c18Data(req))
		c.Check(ended, "hang", "the handler never ends")
		var res p2p.GetRootBlockHeaderListResponse
		answered := read(c, wire, p2p.GetRootBlockHeaderListResponseMsg, &res)
		c.Check((err == nil) == answered, "answer", "error %v, answered %v", err, answered)
		b := byHash[req.BlockHash]
		valid := b != nil && dir == int(qkcom.DirectionToGenesis) && req.Limit > 0 && req.Limit <= 2*max
		c.Check(answered == valid || (valid && req.Limit > max), "headers-verdict", "answered: %v (%v)", answered, err)
		c.Outcome("answered=%v", answered)
		if !answered {
			return
		}
		var want []*types.RootBlockHeader
		for b != nil && len(want) < int(req.Limit) {
			want = append(want, b.Header())
			b = byHash[b.ParentHash()]
		}
		c.Check(show(res.BlockHeaderList) == show(want), "headers-hash", "the answer has%s, not%s", show(res.BlockHeaderList), show(want))
	})
	most := kit.Tier(3, 4)
	h.Bound("blocks asked for", most)
	h.Explore("blocks", kit.Opt{}, func(c *kit.Case) {
		req := &p2p.GetRootBlockListRequest{}
		k := c.Choose(most+1, "count")
		for i := 0; i < k; i++ {
			req.RootBlockHashList = append(req.RootBlockHashList, hashes[c.Choose(len(hashes), "hash")])
		}
		var want string
		for _, x := range req.RootBlockHashList {
			if b := byHash[x]; b != nil {
				want += kit.Hex(c18Data(b))
			}
		}
		w := w.own()
		p, wire := c18Peer(1)
		err, ended := w.give(p, wire, p2p.GetRootBlockListRequestMsg, 77, 0, c18Data(req))
		c.Check(ended, "hang", "the handler never ends")
		var res p2p.GetRootBlockListResponse
		answered := read(c, wire, p2p.GetRootBlockListResponseMsg, &res)
		c.Check(err == nil && answered, "blocks-refused", "a proper request is refused: %v", err)
		var got string
		for _, b := range res.RootBlockList {
			got += kit.Hex(c18Data(b))
		}
		c.Check(got == want, "blocks", "the blocks of the answer are not those asked for")
	})
	h.Explore("many blocks", kit.Opt{}, func(c *kit.Case) {
		max := int(qkcsync.RootBlockBatchSize)
		k := []int{max - 1, max, 2 * max, 2*max + 1, 10 * max}[c.Choose(5, "count")]
		req := &p2p.GetRootBlockListRequest{}
		for i := 0; i < k; i++ {
			req.RootBlockHashList = append(req.RootBlockHashList, w.main[i%n].Hash())
		}
		w := w.own()
		p, wire := c18Peer(1)
		err, ended := w.give(p, wire, p2p.GetRootBlockListRequestMsg, 77, 0, c18Data(req))
		c.Check(ended, "hang", "the handler never ends")
		var res p2p.GetRootBlockListResponse
		answered := read(c, wire, p2p.GetRootBlockListResponseMsg, &res)
		c.Check((err == nil) == answered, "answer", "error %v, answered %v", err, answered)
		c.Check(answered || k > max, "blocks-refused", "a request for %d blocks is refused", k)
		c.Check(!answered || (k <= 2*max && len(res.RootBlockList) == k), "blocks-limit", "%d blocks are given", len(res.RootBlockList))
	})
}

// c18Tip is an announcement: of a root block, or of a minor block with the root block it follows.
type c18Tip struct {
	name   string
	branch uint32 // of the message
	data   []byte
	root   *types.RootBlockHeader
	minor  *types.MinorBlockHeader
	proper bool
}

func TestVerifC18Tips(t *testing.T) {
	h := kit.New("C18", "tips")
	defer h.Done()
	w := c18New(4)
	root := func(td, number int64, tag string) *types.RootBlockHeader {
		x := types.CopyRootBlockHeader(w.main[1].Header())
		x.Number, x.ToTalDifficulty, x.Extra = uint32(number), big.NewInt(td), []byte(tag)
		return x
	}
	minor := func(branch uint32, number uint64, tag string) *types.MinorBlockHeader {
		x := c24Header(nil, branch, common.Hash{}, tag)
		x.Number = number
		return x
	}
	roots := []*types.RootBlockHeader{root(100, 3, "a"), root(100, 3, "b"), root(101, 9, "a"), root(102, 4, "a"), root(99, 9, "a"), root(101, 2, "c")}
	rootName := []string{"100#3a", "100#3b", "101#9a", "102#4a", "99#9a", "101#2c"}
	var tips []c18Tip
	for i, r := range roots {
		tips = append(tips, c18Tip{name: "root " + rootName[i], data: c18Data(&p2p.Tip{RootBlockHeader: r}), root: r, proper: true})
	}
	for i, r := range roots[:kit.Tier(4, 6)] {
		for _, b := range []uint32{2, 3} {
			for _, nr := range []uint64{5, 6} {
				m := minor(b, nr, "x")
				tips = append(tips, c18Tip{name: fmt.Sprintf("shard %d #%d root %s", b, nr, rootName[i]), branch: b, data: c18Data(&p2p.Tip{RootBlockHeader: r, MinorBlockHeaderList: []*types.MinorBlockHeader{m}}), root: r, minor: m, proper: true})
			}
		}
	}
	// a missing header travels as an empty one
	var none p2p.Tip
	if err := serialize.DeserializeFromBytes(c18Data(&p2p.Tip{}), &none); err != nil {
		panic(err)
	}
	zero := none.RootBlockHeader
	m2, m3, m9 := minor(2, 6, "x"), minor(3, 6, "x"), minor(9, 6, "x")
	tips = append(tips,
		c18Tip{name: "root with minor", data: c18Data(&p2p.Tip{RootBlockHeader: roots[3], MinorBlockHeaderList: []*types.MinorBlockHeader{m2}})},
		c18Tip{name: "empty root", data: c18Data(&p2p.Tip{}), root: zero, proper: true},
		c18Tip{name: "minor with empty root", branch: 2, data: c18Data(&p2p.Tip{MinorBlockHeaderList: []*types.MinorBlockHeader{m2}}), root: zero, minor: m2, proper: true},
		c18Tip{name: "no minor", branch: 2, data: c18Data(&p2p.Tip{RootBlockHeader: roots[3]})},
		c18Tip{name: "two minor", branch: 2, data: c18Data(&p2p.Tip{RootBlockHeader: roots[3], MinorBlockHeaderList: []*types.MinorBlockHeader{m2, m2}})},
		c18Tip{name: "other branch", branch: 2, data: c18Data(&p2p.Tip{RootBlockHeader: roots[3], MinorBlockHeaderList: []*types.MinorBlockHeader{m3}})},
		c18Tip{name: "no such branch", branch: 9, data: c18Data(&p2p.Tip{RootBlockHeader: roots[3], MinorBlockHeaderList: []*types.MinorBlockHeader{m9}})},
	)
	depth := kit.Tier(4, 6)
	h.Bound("announcements", len(tips))
	h.Bound("length", depth)
	own := int64(w.chain.CurrentBlock().NumberU64())
	h.Explore("announcements", kit.Opt{}, func(c *kit.Case) {
		w := w.own()
		p, wire := c18Peer(1)
		var head *types.RootBlockHeader
		heads := map[uint32]*c18Tip{}
		for step := 0; step < depth; step++ {
			key := "none"
			if head != nil {
				key = head.Hash().Hex()
			}
			for _, b := range []uint32{2, 3} {
				if x := heads[b]; x != nil {
					key += "|" + x.name
				} else {
					key += "|none"
				}
			}
			c.Visit(key, depth-step)
			i := c.Choose(len(tips), "announcement")
			x := &tips[i]
			fail := x.proper && x.minor != nil && c.Bool("the shard refuses")
			for _, s := range w.slaves {
				s.fail = fail
			}
			c.Logf("%s", x.name)
			tasks := w.sync.tasks
			err, ended := w.give(p, wire, p2p.NewTipMsg, 0, x.branch, x.data)
			c.Check(ended, "hang", "the handler never ends")
			ok := x.proper
			task := false
			if ok && x.minor == nil {
				if head != nil {
					d := x.root.ToTalDifficulty.Cmp(head.ToTalDifficulty)
					ok = d > 0 || (d == 0 && x.root.Hash() == head.Hash())
				}
				if ok {
					head = x.root
					task = int64(x.root.Number) > own
				}
			} else if ok {
				if o := heads[x.branch]; o != nil {
					d := x.root.ToTalDifficulty.Cmp(o.root.ToTalDifficulty)
					ok = d > 0 || (d == 0 && x.root.Hash() == o.root.Hash() && x.minor.Number >= o.minor.Number)
				}
				if ok {
					heads[x.branch] = x
				}
			}
			call := ""
			select {
			case call = <-w.calls:
			default:
			}
			if ok && x.minor != nil {
				want := fmt.Sprintf("%s tip %d %s %s", w.slaves[x.branch].id, x.branch, p.PeerID(), kit.Hex([]byte(fmt.Sprint(x.minor.Number))))
				c.Check(call == want, "tip-shard", "%s: the shard is told %q, not %q", x.name, call, want)
			} else {
				c.Check(call == "", "tip-shard", "%s: a shard is told %q", x.name, call)
			}
			c.Check((err == nil) == (ok && !fail), "tip-verdict", "%s: %v", x.name, err)
			c.Check(w.sync.tasks-tasks == map[bool]int{true: 1}[task], "tip-task", "%s: %d synchronisations are started", x.name, w.sync.tasks-tasks)
			c.Check((p.RootHead() == nil) == (head == nil) && (head == nil || p.RootHead().Hash() == head.Hash()), "tip-head", "%s: the peer's recorded root head is wrong", x.name)
			for _, b := range []uint32{2, 3} {
				got := p.MinorHead(b)
				o := heads[b]
				c.Check((got == nil) == (o == nil) && (o == nil || (got.RootBlockHeader.Hash() == o.root.Hash() && got.MinorBlockHeaderList[0].Hash() == o.minor.Hash())), "tip-minor-head", "%s: the peer's recorded head for shard %d is wrong", x.name, b)
			}
			if err != nil { // the peer is dropped
				return
			}
		}
		c.Frontier()
	})
	h.Explore("best peer", kit.Opt{}, func(c *kit.Case) {
		ps := newPeerSet()
		type reg struct {
			p  *Peer
			td int64
		}
		var in []*reg
		for i := 0; i < 3; i++ {
			k := c.Choose(len(roots)+2, "head")
			if k == 0 {
				continue
			}
			p, _ := c18Peer(byte(i + 1))
			r := &reg{p, -1}
			if k > 1 {
				p.SetRootHead(roots[k-2])
				r.td = roots[k-2].ToTalDifficulty.Int64()
			}
			in = append(in, r)
			c.Check(ps.Register(p) == nil, "register", "a new peer is refused")
			c.Check(ps.Register(p) != nil, "register-twice", "a peer is registered twice")
		}
		if len(in) > 0 && c.Bool("leave") {
			c.Check(ps.Unregister(in[0].p.PeerID()) == nil, "unregister", "a registered peer cannot leave")
			c.Check(ps.Unregister(in[0].p.PeerID()) != nil, "unregister-twice", "a peer leaves twice")
			in = in[1:]
		}
		c.Check(ps.Len() == len(in) && len(ps.Peers()) == len(in), "peers", "%d peers, not %d", ps.Len(), len(in))
		best := int64(-1)
		for _, r := range in {
			c.Check(ps.Peer(r.p.PeerID()) == r.p, "peer", "a registered peer is not found")
			if r.td > best {
				best = r.td
			}
		}
		b := ps.BestPeer()
		if best < 0 {
			c.Check(b == nil, "best", "there is no best peer")
		} else {
			c.Check(b != nil && b.RootHead().ToTalDifficulty.Int64() == best, "best", "the best peer is not the one with the most difficulty")
		}
		for _, r := range in {
			ps.Unregister(r.p.PeerID())
		}
	})
}

// c18Payloads: a proper payload for every type of message.
func c18Payloads(w *c18World) map[p2p.P2PCommandOp][]byte {
	r := w.main[3]
	m := c24Header(nil, 2, r.Hash(), "x")
	m.Number = 5
	mb := types.NewMinorBlockWithHeader(m, &types.MinorBlockMeta{GasUsed: &serialize.Uint256{Value: big.NewInt(1)}, CrossShardGasUsed: &serialize.Uint256{Value: big.NewInt(1)}, XShardTxCursorInfo: &types.XShardTxCursorInfo{}, XShardGasLimit: &serialize.Uint256{Value: big.NewInt(1)}})
	tx := types.NewEvmTransaction(1, account.Recipient{3}, big.NewInt(4), 100000, big.NewInt(5), 0, 1, 0, 1, []byte{1, 2}, 7, 8)
	hello := p2p.HelloCmd{Version: 1, NetWorkID: 3, RootBlockHeader: r.Header(), GenesisRootBlockHash: w.main[0].Hash()}
	hash := r.Hash()
	rh := &p2p.GetRootBlockHeaderListResponse{RootTip: r.Header(), BlockHeaderList: []*types.RootBlockHeader{w.main[2].Header()}}
	mh := &p2p.GetMinorBlockHeaderListResponse{RootTip: r.Header(), ShardTip: m, BlockHeaderList: []*types.MinorBlockHeader{m}}
	return map[p2p.P2PCommandOp][]byte{
		p2p.Hello:                                      c18Data(hello),
		p2p.NewTipMsg:                                  c18Data(&p2p.Tip{RootBlockHeader: r.Header(), MinorBlockHeaderList: []*types.MinorBlockHeader{m}}),
		p2p.NewTransactionListMsg:                      c18Data(&p2p.NewTransactionList{TransactionList: []*types.Transaction{{TxType: types.EvmTx, EvmTx: tx}}}),
		p2p.GetPeerListRequestMsg:                      c18Data(&p2p.GetPeerListRequest{MaxPeers: 3}),
		p2p.GetPeerListResponseMsg:                     c18Data(&p2p.GetPeerListResponse{}),
		p2p.GetRootBlockHeaderListRequestMsg:           c18Data(&p2p.GetRootBlockHeaderListRequest{BlockHash: hash, Limit: 2}),
		p2p.GetRootBlockHeaderListResponseMsg:          c18Data(rh),
		p2p.GetRootBlockListRequestMsg:                 c18Data(&p2p.GetRootBlockListRequest{RootBlockHashList: []common.Hash{hash}}),
		p2p.GetRootBlockListResponseMsg:                c18Data(&p2p.GetRootBlockListResponse{RootBlockList: []*types.RootBlock{r}}),
		p2p.GetMinorBlockListRequestMsg:                c18Data(&p2p.GetMinorBlockListRequest{MinorBlockHashList: []common.Hash{hash}}),
		p2p.GetMinorBlockListResponseMsg:               c18Data(&p2p.GetMinorBlockListResponse{MinorBlockList: []*types.MinorBlock{mb}}),
		p2p.GetMinorBlockHeaderListRequestMsg:          c18Data(&p2p.GetMinorBlockHeaderListRequest{BlockHash: hash, Branch: account.Branch{Value: 2}, Limit: 2}),
		p2p.GetMinorBlockHeaderListResponseMsg:         c18Data(mh),
		p2p.NewBlockMinorMsg:                           c18Data(&p2p.NewBlockMinor{Block: mb}),
		p2p.Ping:                                       c18Data(&p2p.PingPongCommand{}),
		p2p.Pong:                                       c18Data(&p2p.PingPongCommand{}),
		p2p.GetRootBlockHeaderListWithSkipRequestMsg:   c18Data(&p2p.GetRootBlockHeaderListWithSkipRequest{Data: hash, Limit: 2}),
		p2p.GetRootBlockHeaderListWithSkipResponseMsg:  c18Data(rh),
		p2p.NewRootBlockMsg:                            c18Data(&p2p.NewRootBlockCommand{Block: r}),
		p2p.GetMinorBlockHeaderListWithSkipRequestMsg:  c18Data(&p2p.GetMinorBlockHeaderListWithSkipRequest{Data: hash, Branch: account.Branch{Value: 2}, Limit: 2}),
		p2p.GetMinorBlockHeaderListWithSkipResponseMsg: c18Data(mh),
	}
}

func TestVerifC18Messages(t *testing.T) {
	h := kit.New("C18", "messages")
	defer h.Done()
	w := c18New(4)
	pay := c18Payloads(w)
	// whatever the bytes, the handler ends without a crash
	values := []int{-1, 0, 1, 2, 0x7f, 0x80, 0xff} // -1: cut here
	h.Bound("values per byte", len(values)-1)
	branches := []uint32{0, 2, 9}
	h.Explore("any message", kit.Opt{}, func(c *kit.Case) {
		op := p2p.P2PCommandOp(c.Choose(256, "type"))
		data := pay[op]
		if data == nil {
			data = pay[p2p.NewTipMsg]
		}
		branch := branches[c.Choose(len(branches), "branch")]
		w := w.own()
		p, wire := c18Peer(1)
		try := func(d []byte) {
			_, ended := w.give(p, wire, op, 77, branch, d)
			c.Check(ended, "hang", "the handler of a message of type %d never ends", op)
			for len(wire.out) > 10 {
				<-wire.out
			}
			for len(w.calls) > 1000 {
				<-w.calls
			}
			c.Step()
		}
		try(nil)
		try(data)
		if pay[op] == nil {
			return
		}
		for at := 0; at <= len(data); at++ {
			for _, v := range values {
				d := append([]byte{}, data[:at]...)
				if v >= 0 {
					if at == len(data) || data[at] == byte(v) {
						continue
					}
					d = append(append(d, byte(v)), data[at+1:]...)
				}
				try(d)
			}
		}
		for _, other := range []p2p.P2PCommandOp{p2p.GetRootBlockListResponseMsg, p2p.GetRootBlockHeaderListWithSkipRequestMsg, p2p.GetPeerListResponseMsg} {
			try(pay[other])
		}
	})
	time.Sleep(200 * time.Millisecond) // for the handlers which go on by themselves

	// requests for shards go to the shard, with what the peer sent; and its answer goes back
	asks := []struct {
		op, answer p2p.P2PCommandOp
		name       string
		peer       bool
	}{
		{p2p.GetMinorBlockHeaderListRequestMsg, p2p.GetMinorBlockHeaderListResponseMsg, "headers", false},
		{p2p.GetMinorBlockListRequestMsg, p2p.GetMinorBlockListResponseMsg, "blocks", true},
		{p2p.GetMinorBlockHeaderListWithSkipRequestMsg, p2p.GetMinorBlockHeaderListWithSkipResponseMsg, "headersSkip", true},
		{p2p.NewTransactionListMsg, 0, "txs", true},
		{p2p.NewBlockMinorMsg, 0, "block", true},
	}
	h.Explore("requests for shards", kit.Opt{}, func(c *kit.Case) {
		a := asks[c.Choose(len(asks), "request")]
		branch := []uint32{0, 2, 3, 9}[c.Choose(4, "branch")]
		fail := c.Bool("the shard refuses")
		w := w.own()
		for _, s := range w.slaves {
			s.fail = fail
		}
		p, wire := c18Peer(1)
		err, ended := w.give(p, wire, a.op, 77, branch, pay[a.op])
		c.Check(ended && err == nil, "shard-request", "the handler fails: %v", err)
		peer := ""
		if a.peer {
			peer = p.PeerID()
		}
		want := map[string]bool{}
		for _, id := range []uint32{2, 3} {
			if id == branch || (branch == 0 && a.name == "txs") {
				want[fmt.Sprintf("%s %s %d %s %s", w.slaves[id].id, a.name, branch, peer, kit.Hex(pay[a.op]))] = true
			}
		}
		if a.answer != 0 {
			select {
			case q := <-wire.out:
				good := len(want) == 1 && !fail
				c.Check(q.Op == a.answer && q.RpcID == 77 && q.MetaData.Branch == branch, "shard-answer", "the answer has type %d, id %d, branch %d", q.Op, q.RpcID, q.MetaData.Branch)
				c.Check(string(q.Data) == map[bool]string{true: a.name}[good], "shard-answer", "the answer is %q", q.Data)
			case <-time.After(20 * time.Second):
				c.Fail("shard-no-answer", "there is no answer")
			}
		}
		for len(want) > 0 {
			got := c18Wait(w.calls)
			c.Check(want[got], "shard-call", "%s: a shard is asked %q", a.name, got)
			delete(want, got)
		}
		time.Sleep(2 * time.Millisecond)
		select {
		case got := <-w.calls:
			c.Fail("shard-call", "%s: a shard is asked too %q", a.name, got)
		default:
		}
	})
}

func TestVerifC18Answers(t *testing.T) {
	h := kit.New("C18", "answers")
	defer h.Done()
	w := c18New(4)
	pay := c18Payloads(w)
	ops := []p2p.P2PCommandOp{p2p.GetRootBlockHeaderListWithSkipResponseMsg, p2p.GetRootBlockListResponseMsg, p2p.GetMinorBlockHeaderListResponseMsg,
		p2p.GetMinorBlockHeaderListWithSkipResponseMsg, p2p.GetMinorBlockListResponseMsg, p2p.GetRootBlockHeaderListResponseMsg}
	rh2 := &p2p.GetRootBlockHeaderListResponse{RootTip: w.main[4].Header(), BlockHeaderList: []*types.RootBlockHeader{w.main[1].Header(), w.main[4].Header()}}
	second := map[p2p.P2PCommandOp][]byte{ops[0]: c18Data(rh2), ops[5]: c18Data(rh2), ops[1]: c18Data(&p2p.GetRootBlockListResponse{RootBlockList: []*types.RootBlock{w.main[1], w.main[2]}}),
		ops[2]: {1}, ops[3]: {2}, ops[4]: {3}}
	headers := func(b []byte) string {
		var r p2p.GetRootBlockHeaderListResponse
		if err := serialize.DeserializeFromBytes(b, &r); err != nil {
			panic(err)
		}
		return kit.Hex(c18Data(&r))
	}
	red := &rpc.P2PRedirectRequest{Branch: 2, PeerID: "p", Data: []byte("ask")}
	calls := []struct {
		name   string
		ask    p2p.P2PCommandOp
		branch uint32
		answer []p2p.P2PCommandOp // the kinds which may answer it
		call   func(p *Peer) (string, error)
		read   func(b []byte) string
	}{
		{"root headers", p2p.GetRootBlockHeaderListWithSkipRequestMsg, 0, []p2p.P2PCommandOp{ops[0], ops[5]}, func(p *Peer) (string, error) {
			r, err := p.GetRootBlockHeaderList(&p2p.GetRootBlockHeaderListWithSkipRequest{Limit: 1})
			if err != nil {
				return "", err
			}
			return kit.Hex(c18Data(r)), nil
		}, headers},
		{"root blocks", p2p.GetRootBlockListRequestMsg, 0, ops[1:2], func(p *Peer) (string, error) {
			l, err := p.GetRootBlockList([]common.Hash{{1}})
			if err != nil {
				return "", err
			}
			return kit.Hex(c18Data(&p2p.GetRootBlockListResponse{RootBlockList: l})), nil
		}, func(b []byte) string { return kit.Hex(b) }},
		{"minor headers", p2p.GetMinorBlockHeaderListRequestMsg, 2, ops[2:3], func(p *Peer) (string, error) {
			r, err := p.GetMinorBlockHeaderList(red)
			return kit.Hex(r), err
		}, func(b []byte) string { return kit.Hex(b) }},
		{"minor headers with skip", p2p.GetMinorBlockHeaderListWithSkipRequestMsg, 2, ops[3:4], func(p *Peer) (string, error) {
			r, err := p.GetMinorBlockHeaderListWithSkip(red)
			return kit.Hex(r), err
		}, func(b []byte) string { return kit.Hex(b) }},
		{"minor blocks", p2p.GetMinorBlockListRequestMsg, 2, ops[4:5], func(p *Peer) (string, error) {
			r, err := p.GetMinorBlockList(red)
			return kit.Hex(r), err
		}, func(b []byte) string { return kit.Hex(b) }},
	}
	minorOps := map[p2p.P2PCommandOp]bool{ops[2]: true, ops[3]: true, ops[4]: true}
	depth := kit.Tier(2, 3)
	h.Bound("responses before the proper one", depth)
	h.Explore("answers", kit.Opt{}, func(c *kit.Case) {
		k := calls[c.Choose(len(calls), "request")]
		w := w.own()
		p, wire := c18Peer(1)
		type end struct {
			v    string
			err  error
			site string
			val  interface{}
		}
		done := make(chan end, 1)
		go func() {
			var e end
			e.site, e.val = kit.Try(func() { e.v, e.err = k.call(p) })
			done <- e
		}()
		var q p2p.QKCMsg
		select {
		case q = <-wire.out:
		case <-time.After(20 * time.Second):
			c.Fail("no-request", "%s: nothing is sent", k.name)
		}
		c.Check(q.Op == k.ask && q.MetaData.Branch == k.branch, "request", "%s: the request has type %d, branch %d", k.name, q.Op, q.MetaData.Branch)
		// what the request is answered with: -1 nothing yet, 0 it must fail, 1 the value
		state, value := -1, ""
		send := func(op p2p.P2PCommandOp, data []byte, id uint64) bool {
			err, ended := w.give(p, wire, op, id, k.branch, data)
			c.Check(ended, "hang", "%s: the handler of a response never ends", k.name)
			if err != nil {
				return false
			}
			if id != q.RpcID || state >= 0 {
				return true
			}
			fits := false
			for _, o := range k.answer {
				fits = fits || o == op
			}
			state = 0
			if fits {
				state, value = 1, k.read(data)
			} else if minorOps[op] && minorOps[k.answer[0]] {
				state, value = 2, kit.Hex(data) // the shard which asked finds out
			}
			return true
		}
		for i := 0; i < depth; i++ {
			if c.Bool("enough") {
				break
			}
			op := ops[c.Choose(len(ops), "response")]
			data := pay[op]
			switch c.Choose(3, "content") {
			case 1:
				data = second[op]
			case 2:
				data = data[:len(data)-1]
			}
			id := q.RpcID
			if c.Bool("other id") {
				id++
			}
			if !send(op, data, id) {
				c.Check(len(data) == len(pay[op])-1 || (op != ops[2] && op != ops[3] && op != ops[4]), "response-refused", "a proper response is refused")
				// the peer is dropped; its request is left to time out
				select {
				case e := <-done:
					c.Check(e.val == nil, "answer-crash", "%s: crash at %s: %v", k.name, e.site, e.val)
				default:
				}
				return
			}
		}
		if state < 0 {
			send(k.answer[0], pay[k.answer[0]], q.RpcID)
		}
		select {
		case e := <-done:
			c.Check(e.val == nil, "answer-crash", "%s: crash at %s: %v", k.name, e.site, e.val)
			c.Outcome("state=%d err=%v", state, e.err != nil)
			switch state {
			case 1:
				c.Check(e.err == nil && e.v == value, "answer-value", "%s: the request does not end with what was answered (%v)", k.name, e.err)
			case 0:
				c.Check(e.err != nil, "answer-type", "%s: a response of another kind is taken", k.name)
			case 2:
				c.Check(e.err != nil || e.v == value, "answer-type", "%s: the request does not end with what was answered", k.name)
			}
		case <-time.After(20 * time.Second):
			c.Fail("answer-lost", "%s: the request was answered, but does not end", k.name)
		}
	})
}

func TestVerifC18Handshake(t *testing.T) {
	h := kit.New("C18", "handshake")
	defer h.Done()
	w := c18New(4)
	head := w.main[4].Header()
	gen := w.main[0].Hash()
	h.Explore("hello", kit.Opt{}, func(c *kit.Case) {
		hello := p2p.HelloCmd{Version: 1, NetWorkID: 3, RootBlockHeader: w.main[2].Header(), GenesisRootBlockHash: gen, ChainMaskList: []uint32{1}}
		ok := true
		if c.Bool("version") {
			hello.Version, ok = 2, false
		}
		if c.Bool("network") {
			hello.NetWorkID, ok = 4, false
		}
		if c.Bool("genesis") {
			hello.GenesisRootBlockHash, ok = w.main[1].Hash(), false
		}
		want := w.main[2].Hash()
		if c.Bool("other header") {
			hello.RootBlockHeader = w.main[3].Header()
			want = w.main[3].Hash()
		}
		data := c18Data(hello)
		if c.Bool("cut") {
			data, ok = data[:c.Choose(len(data), "length")], false
		}
		op := p2p.Hello
		if c.Bool("other type") {
			op = p2p.NewTipMsg
			ok = false
		}
		p, wire := c18Peer(1)
		body, _ := p2p.Encrypt(p2p.Metadata{}, op, 0, data)
		// the type of a message on the wire is inside its body
		wire.in = p2p.Msg{Code: 0, Size: uint32(len(body)), Payload: bytes.NewReader(body)}
		var err error
		site, val := kit.Try(func() { err = p.Handshake(1, 3, common.Hash{}, 1, head, gen) })
		c.Check(val == nil, "hello-crash", "crash at %s: %v", site, val)
		c.Outcome("ok=%v", err == nil)
		c.Logf("%+v length %d type %d", hello, len(data), op)
		if op == p2p.Hello { // what a first message of another type means is left open
			c.Check((err == nil) == ok, "hello", "the verdict is %v", err)
		}
		if err == nil {
			c.Check(p.RootHead() != nil && p.RootHead().Hash() == want, "hello-head", "the peer's head is not recorded")
		} else if p.RootHead() != nil {
			c.Fail("hello-head", "a refused peer's head is recorded")
		}
	})
}

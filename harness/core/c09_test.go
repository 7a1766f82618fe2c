package core

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	qkcCommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

// ---- a database that remembers its writes ---------------------------------------------------------

type vWrite struct{ kv []vKV } // one atomic write: a single put or delete, or a whole batch
type vKV struct {
	k, v []byte
	del  bool
}

type vLogDB struct {
	*ethdb.MemDatabase
	log []vWrite
}

type vLogBatch struct {
	db *vLogDB
	ethdb.Batch
	kv []vKV
}

func vCp(b []byte) []byte { return append([]byte{}, b...) }
func (d *vLogDB) Put(k, v []byte) error {
	d.log = append(d.log, vWrite{[]vKV{{vCp(k), vCp(v), false}}})
	return d.MemDatabase.Put(k, v)
}
func (d *vLogDB) Delete(k []byte) error {
	d.log = append(d.log, vWrite{[]vKV{{vCp(k), nil, true}}})
	return d.MemDatabase.Delete(k)
}
func (d *vLogDB) NewBatch() ethdb.Batch { return &vLogBatch{db: d, Batch: d.MemDatabase.NewBatch()} }
func (b *vLogBatch) Put(k, v []byte) error {
	b.kv = append(b.kv, vKV{vCp(k), vCp(v), false})
	return b.Batch.Put(k, v)
}
func (b *vLogBatch) Delete(k []byte) error {
	b.kv = append(b.kv, vKV{vCp(k), nil, true})
	return b.Batch.Delete(k)
}
func (b *vLogBatch) Write() error {
	if len(b.kv) > 0 {
		b.db.log = append(b.db.log, vWrite{append([]vKV{}, b.kv...)})
	}
	return b.Batch.Write()
}
func (b *vLogBatch) Reset() { b.kv = nil; b.Batch.Reset() }

// prefix rebuilds the database as it was after its first n writes.
func (d *vLogDB) prefix(n int) *ethdb.MemDatabase {
	m := ethdb.NewMemDatabase()
	for _, w := range d.log[:n] {
		for _, e := range w.kv {
			if e.del {
				m.Delete(e.k)
			} else {
				m.Put(e.k, e.v)
			}
		}
	}
	return m
}

// ---- the root chain -------------------------------------------------------------------------------

func c09Root(h *kit.Harness) {
	k := kit.Tier(3, 4)
	works := []int64{1, 2, 3}
	h.Bound("root chain: blocks", k)
	h.Bound("root chain: work per block", fmt.Sprint(works))
	h.Explore("root chain", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		db := &vLogDB{MemDatabase: ethdb.NewMemDatabase()}
		w := vNewRoot(vOpt{key: "c05", db: db})
		defer w.r.Stop()
		ids := vIDs(w.q)
		gen := &cRoot{name: "G", blk: w.gen}
		blocks := []*cRoot{gen}
		desc := ""
		for i := 1; i <= k; i++ {
			p := blocks[c.Choose(i, "parent")]
			wk := works[c.Choose(len(works), "work")]
			x := &cRoot{name: fmt.Sprint("R", i), parent: p, td: p.td + wk}
			last := p.latest()
			for j := 0; j < i%3; j++ {
				id := ids[(i/2+j)%3]
				if j == 1 && id < ids[(i/2)%3] {
					break
				}
				x.headers = append(x.headers, cNextHeader(last[id], id, p.blk.Hash(), (i+j)%3, fmt.Sprint("b", i, j)))
			}
			for _, mh := range x.headers {
				w.r.AddValidatedMinorBlockHeader(mh.Hash(), types.NewEmptyTokenBalances())
			}
			x.blk = vRootBig(p.blk, big.NewInt(wk), vAddr(0, ids[0]), 1, byte(i), x.headers...)
			blocks = append(blocks, x)
			desc += fmt.Sprintf(" %s<-%s+%d", x.name, p.name, wk)
		}
		c.Logf("blocks%s", desc)
		known := map[*cRoot]bool{gen: true}
		head := gen
		for {
			if c.Frontier() {
				c.Visit(desc+cDump(w, blocks), 0)
			}
			x := blocks[1+c.Choose(k, "deliver")]
			c.Logf("deliver %s", x.name)
			c.Step()
			from := len(db.log)
			before := head
			w.add(x.blk)
			if !known[x] && known[x.parent] {
				known[x] = true
				if x.td > head.td || x.td == head.td && x.n() < head.n() {
					head = x
				}
			}
			if !c.Frontier() {
				continue
			}
			for n := from; n <= len(db.log); n++ {
				c09RootCrash(c, db, n, n-from, blocks, known, x, before, head)
			}
			c.Outcome("%d writes, head moves: %v", len(db.log)-from, before != head)
		}
	})
}

// above: b is an ancestor of x
func (b *cRoot) above(x *cRoot) bool {
	for ; x != nil; x = x.parent {
		if x == b {
			return true
		}
	}
	return false
}

func c09RootCrash(c *kit.Case, db *vLogDB, n, k int, blocks []*cRoot, known map[*cRoot]bool, x, before, after *cRoot) {
	at := fmt.Sprintf("stopped after %d of %d writes of adding %s", k, len(db.log)-n+k, x.name)
	w := &vRootChain{q: vSharedConfig(vOpt{key: "c05"}).Quarkchain, db: db.prefix(n), eng: vNewEngine()}
	var err error
	if p, v := kit.Try(func() { err = w.open() }); v != nil {
		c.Fail("reopen", "%s: reopening: %s", at, p)
	}
	c.Check(err == nil, "reopen", "%s: reopening: %v", at, err)
	defer w.r.Stop()
	c.Step()
	hd := w.r.CurrentBlock()
	ok := hd.Hash() == before.blk.Hash()
	for b := after; b != nil && !b.above(before); b = b.parent { // a reorganisation moves along the new branch
		ok = ok || hd.Hash() == b.blk.Hash()
	}
	c.Check(ok, "head", "%s: the head is neither the one before nor on the branch moved to", at)
	for _, b := range blocks {
		if w.r.HasBlock(b.blk.Hash()) {
			got := w.r.GetBlock(b.blk.Hash())
			c.Check(!qkcCommon.IsNil(got) && got.Hash() == b.blk.Hash() && len(got.(*types.RootBlock).MinorBlockHeaders()) == len(b.headers), "incomplete", "%s: %s is reported as known but is not readable", at, b.name)
			c.Check(known[b], "unknown", "%s: %s is reported as known", at, b.name)
		} else {
			c.Check(!known[b] || b == x, "lost", "%s: %s is no longer known", at, b.name)
		}
	}
	for _, b := range blocks {
		for _, mh := range b.headers {
			w.r.AddValidatedMinorBlockHeader(mh.Hash(), types.NewEmptyTokenBalances())
		}
	}
	if p, v := kit.Try(func() { w.add(x.blk) }); v != nil {
		c.Fail("resubmit", "%s: adding it again: %s", at, p)
	}
	c.Check(w.r.CurrentBlock().Hash() == after.blk.Hash(), "resubmit", "%s: after adding it again the head is %s, want %s", at, vShort(w.r.CurrentBlock().Hash()), after.name)
	m := after
	for i := int(after.n()) + 3; i >= 0; i-- {
		b := w.r.GetBlockByNumber(uint64(i))
		if uint64(i) > after.n() {
			c.Check(qkcCommon.IsNil(b), "number", "%s: after adding it again height %d above the head names a block", at, i)
			continue
		}
		c.Check(!qkcCommon.IsNil(b) && b.Hash() == m.blk.Hash(), "number", "%s: after adding it again height %d does not name %s", at, i, m.name)
		m = m.parent
	}
}

// ---- a shard --------------------------------------------------------------------------------------

func c09Shard(h *kit.Harness, phase string, g *dGraph, pruning, again bool, max int) {
	n := len(g.minors) + len(g.roots)
	h.Bound(phase+": blocks", n)
	h.Bound(phase+": deliveries", max)
	h.Explore(phase, kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		db := &vLogDB{MemDatabase: ethdb.NewMemDatabase()}
		o := g.opt
		o.db, o.pruning = db, pruning
		w := &dWorld{g: g, vShard: vNew(o)}
		for h, l := range g.lists {
			w.s.AddCrossShardTxListByMinorBlockHash(h, l)
		}
		defer w.end()
		d := newDModel(g)
		var hist []int
		for step := 0; step < max; step++ {
			if c.Frontier() {
				k := vDump(db.MemDatabase)
				c.Visit(k+w.s.CurrentBlock().Hash().Hex()+w.s.GetRootTip().Hash().Hex(), max-step)
			}
			i := c.Choose(n, "deliver")
			c.Step()
			c.Logf("%s", g.opName(i))
			from := len(db.log)
			before := *d
			if !c09Useful(g, d, i) {
				c.Stop()
			}
			c09Deliver(w, i)
			c09Model(g, d, i)
			hist = append(hist, i)
			if !c.Frontier() {
				continue
			}
			for k := from; k <= len(db.log); k++ {
				at := fmt.Sprintf("stopped after %d of %d writes of %s", k-from, len(db.log)-from, g.opName(hist[len(hist)-1]))
				c09Crash(c, g, o, db, k, hist, &before, d, at, again)
			}
			c.Outcome("%d writes head %s", len(db.log)-from, d.head.name)
		}
	})
}

func (g *dGraph) opName(i int) string {
	if i < len(g.minors) {
		return "minor " + g.minors[i].name
	}
	return "root " + g.roots[i-len(g.minors)].name
}

func c09Useful(g *dGraph, d *dModel, i int) bool {
	if i < len(g.minors) {
		m := g.minors[i]
		return !d.km[m] && d.km[m.parent] && d.kr[m.root]
	}
	r := g.roots[i-len(g.minors)]
	for _, m := range r.own {
		if !d.km[m] {
			return false
		}
	}
	return !d.kr[r] && d.kr[r.parent]
}

func c09Deliver(w *dWorld, i int) error {
	if i < len(w.g.minors) {
		return w.add(w.g.minors[i].blk)
	}
	_, err := w.s.AddRootBlock(vCopyRoot(w.g.roots[i-len(w.g.minors)].blk))
	return err
}

// c09Model: the model is shared between copies, so its maps are copied before they change.
func c09Model(g *dGraph, d *dModel, i int) {
	km, kr := map[*dMinor]bool{}, map[*dRoot]bool{}
	for k, v := range d.km {
		km[k] = v
	}
	for k, v := range d.kr {
		kr[k] = v
	}
	d.km, d.kr = km, kr
	if i < len(g.minors) {
		d.minor(g.minors[i])
	} else {
		d.root(g.roots[i-len(g.minors)])
	}
}

func c09Crash(c *kit.Case, g *dGraph, o vOpt, db *vLogDB, n int, hist []int, before, after *dModel, at string, again bool) {
	c.Step()
	ndb := &vLogDB{MemDatabase: db.prefix(n), log: append([]vWrite{}, db.log[:n]...)}
	o.db, o.engine = ndb, vNewEngine()
	if o.id == 0 {
		o.id = 2
	}
	w := &dWorld{g: g, vShard: &vShard{opt: o, cfg: vSharedConfig(o), db: o.db, root0: g.r0.blk}}
	var err error
	if p, v := kit.Try(func() { err = w.open() }); v != nil {
		c.Fail("reopen", "%s: reopening: %s", at, p)
	}
	c.Check(err == nil, "reopen", "%s: reopening: %v", at, err)
	defer w.close()
	hd := g.byHash[w.s.CurrentBlock().Hash()]
	c.Check(hd != nil && after.km[hd], "head", "%s: the head is not a known block", at)
	if !o.pruning {
		c09State(c, w, hd, at+": head")
	}
	c09Committed(c, w, before, after, at)
	// the master tells the shard the root chain's head
	w.s.txPool.Stop()
	tip := after.tip
	if p, v := kit.Try(func() {
		if tip == g.r0 {
			_, err = w.s.InitGenesisState(tip.blk)
		} else {
			err = w.s.InitFromRootBlock(vCopyRoot(tip.blk))
		}
	}); v != nil {
		c.Fail("recover", "%s: recovering: %s", at, p)
	}
	c.Check(err == nil, "recover", "%s: recovering: %v", at, err)
	if again {
		for k := n + 1; k <= len(ndb.log); k++ {
			c09Crash(c, g, o, ndb, k, hist, &dModel{}, after, fmt.Sprintf("%s and again after %d of %d writes of the recovery", at, k-n, len(ndb.log)-n), false)
		}
	}
	c.Check(w.s.GetRootTip().Hash() == tip.blk.Hash(), "recover", "%s: the shard follows root block %d, want %s", at, w.s.GetRootTip().Number(), tip.name)
	hd = g.byHash[w.s.CurrentBlock().Hash()]
	c.Check(hd != nil, "recover", "%s: the head is not a known block", at)
	cf := tip.conf()
	c.Check(cf == nil || hd.descends(cf), "recover", "%s: the head %s does not descend from the last confirmed block %s", at, hd.name, cf)
	c09State(c, w, hd, at+": head after recovery")
	c09Committed(c, w, nil, after, at+" and recovered")
	c09Current(c, w, hd, at+" and recovered")
	c09Number(c, w, hd, at+" and recovered")
	// everything is submitted again
	for _, i := range hist {
		if p, v := kit.Try(func() { err = c09Deliver(w, i) }); v != nil {
			c.Fail("resubmit", "%s: adding %s again: %s", at, g.opName(i), p)
		}
	}
	c.Check(w.s.GetRootTip().Hash() == after.tip.blk.Hash(), "resubmit", "%s: after adding everything again the shard follows root block %d, want %s", at, w.s.GetRootTip().Number(), after.tip.name)
	hd = g.byHash[w.s.CurrentBlock().Hash()]
	// in pruning mode a block whose state was lost is executed again, and may then extend the head
	c.Check(hd == after.head || o.pruning && after.km[hd] && hd.descends(after.head), "resubmit-head", "%s: after adding everything again the head is %s, want %s", at, hd.name, after.head.name)
	c09State(c, w, hd, at+": head at the end")
	c09Current(c, w, hd, at+" and everything added again")
	c09Number(c, w, hd, at+": after adding everything again")
}

// c09Number: the heights name the blocks of the head's chain, and its transactions are found.
func c09Number(c *kit.Case, w *dWorld, hd *dMinor, at string) {
	m := hd
	for i := int(hd.n()) + 3; i >= 0; i-- {
		b := w.s.GetBlockByNumber(uint64(i))
		if uint64(i) > hd.n() {
			c.Check(qkcCommon.IsNil(b), "number", "%s height %d above the head names a block", at, i)
			continue
		}
		c.Check(!qkcCommon.IsNil(b) && b.Hash() == m.blk.Hash(), "number", "%s height %d does not name %s", at, i, m.name)
		for j, t := range m.blk.Transactions() {
			bl, idx := w.s.GetTransactionByHash(t.Hash())
			c.Check(bl != nil && bl.Hash() == m.blk.Hash() && int(idx) == j, "tx", "%s: transaction %d of %s is not found there", at, j, m.name)
		}
		m = m.parent
	}
}

// c09Committed: a block reported as committed has all its data.
func c09Committed(c *kit.Case, w *dWorld, before, after *dModel, at string) {
	for _, m := range w.g.minors {
		if !w.s.IsMinorBlockCommittedByHash(m.blk.Hash()) {
			c.Check(before == nil || !before.km[m], "lost", "%s: %s is no longer committed", at, m.name)
			continue
		}
		c.Check(after.km[m], "commit", "%s: %s is reported as committed", at, m.name)
		b := w.s.GetMinorBlock(m.blk.Hash())
		c.Check(b != nil && b.Hash() == m.blk.Hash() && len(b.Transactions()) == len(m.blk.Transactions()), "commit", "%s: %s is reported as committed but its block is not readable", at, m.name)
		if !w.opt.pruning {
			c09State(c, w, m, at+": committed block")
		}
		rs := w.s.GetReceiptsByHash(m.blk.Hash())
		c.Check(len(rs) >= len(m.blk.Transactions()), "commit", "%s: %s is reported as committed but has %d receipts", at, m.name, len(rs))
	}
}

// c09Current: the state the node works with is the head's.
func c09Current(c *kit.Case, w *dWorld, m *dMinor, at string) {
	cur, err := w.s.State()
	c.Check(err == nil && cur != nil, "state", "%s: no current state: %v", at, err)
	st, _ := w.s.StateAt(m.blk.Root())
	for i := 0; i < 8; i++ {
		a, b := cur.GetBalance(vRecipient(i), vQKC), st.GetBalance(vRecipient(i), vQKC)
		c.Check(a.Cmp(b) == 0 && cur.GetNonce(vRecipient(i)) == st.GetNonce(vRecipient(i)), "current", "%s: account %d has %v in the current state, %v in that of the head %s", at, i, a, b, m.name)
	}
}

// c09State reads every account of a block's state.
func c09State(c *kit.Case, w *dWorld, m *dMinor, at string) {
	st, err := w.s.StateAt(m.blk.Root())
	c.Check(err == nil, "state", "%s %s: its state is not readable: %v", at, m.name, err)
	t := st.RawDump()
	c.Check(len(t.Accounts) > 0, "state", "%s %s: its state is empty", at, m.name)
	for i := 0; i < 3; i++ {
		c.Check(st.GetBalance(vRecipient(i), vQKC).Sign() > 0, "state", "%s %s: account %d is empty", at, m.name, i)
	}
}

var dSpecCrash = []string{
	"r Q R0 10 G",
	"r R1 Q 10 - nb",
	"m M1 G R1 a0,b0",
	"m M2 M1 R1 a1",
	"m N1 G R1 b0",
	"m N2 N1 R1 a0",
	"r R2 R1 10 M1",
	"r R2x R1 15 N1,N2 nc",
	"m M3 M2 R2 c0",
}

func TestVerifC09(t *testing.T) {
	h := kit.New("C09", "crash")
	defer h.Done()
	c09Root(h)
	g := dBuild("crash", dSpecCrash)
	for _, p := range []bool{false, true} {
		mode := []string{"archive", "pruning"}[map[bool]int{true: 1}[p]]
		c09Shard(h, mode+", two crashes", g, p, true, 1000)
		c09Shard(h, mode+", forks", dBuild("main", dSpecMain), p, false, kit.Tier(7, 1000))
		c09Shard(h, mode+", ties", dBuild("tie", dSpecTie), p, false, kit.Tier(6, 1000))
		c09Shard(h, mode+", deep", dBuild("deep", dSpecDeep), p, false, kit.Tier(6, 1000))
		c09Shard(h, mode+", deposits", dBuild("deposits", dSpecDeposits), p, false, kit.Tier(6, 1000))
	}
}

var _ = strings.Join
var _ ethcommon.Hash

func vNewEngine() consensus.Engine { return new(consensus.FakeEngine) }

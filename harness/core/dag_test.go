package core

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkcCommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/qkcdb"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

// ---- a block graph of one shard and its root chain, built once ------------------------------

type dRoot struct {
	name   string
	blk    *types.RootBlock
	parent *dRoot
	own    []*dMinor // headers of this shard it confirms
	td     int64
}

type dMinor struct {
	name     string
	blk      *types.MinorBlock
	parent   *dMinor
	root     *dRoot
	deposits []ethcommon.Hash // cross-shard deposits it received
}

type dGraph struct {
	opt    vOpt
	roots  []*dRoot
	minors []*dMinor
	gen    *dMinor
	r0     *dRoot
	lists  map[ethcommon.Hash]types.CrossShardTransactionDepositList
	byHash map[ethcommon.Hash]*dMinor
	txs    map[ethcommon.Hash]string
	deps   map[ethcommon.Hash]bool
}

func (r *dRoot) conf() *dMinor {
	for ; r != nil; r = r.parent {
		if len(r.own) > 0 {
			return r.own[len(r.own)-1]
		}
	}
	return nil
}
func (r *dRoot) onChainOf(tip *dRoot) bool {
	for ; tip != nil; tip = tip.parent {
		if tip == r {
			return true
		}
	}
	return false
}
func (m *dMinor) descends(a *dMinor) bool {
	for ; m != nil; m = m.parent {
		if m == a {
			return true
		}
	}
	return false
}
func (m *dMinor) n() uint64 { return m.blk.NumberU64() }

// dSpec: the graph in text. Minor: "m name parent root tx,tx"; root: "r name parent work own,own [nb]".
// A tx is "<sender><nonce>": a0 is nonce 0 of account 0. "nb" adds a neighbour header with the deposits x1, x2, "nc" one with the deposits x3, x4.
func dBuild(key string, spec []string) *dGraph {
	g := &dGraph{lists: map[ethcommon.Hash]types.CrossShardTransactionDepositList{}, byHash: map[ethcommon.Hash]*dMinor{}, txs: map[ethcommon.Hash]string{}, deps: map[ethcommon.Hash]bool{}}
	alloc := map[account.Recipient]config.Allocation{}
	for i := 0; i < 3; i++ {
		alloc[vRecipient(i)] = vQkcBal(10000000)
	}
	g.opt = vOpt{key: "dag" + key, alloc: alloc}
	w := vNew(g.opt)
	defer w.close()
	ms, rs := map[string]*dMinor{}, map[string]*dRoot{}
	g.r0 = &dRoot{name: "R0", blk: w.root0}
	rs["R0"] = g.r0
	g.gen = &dMinor{name: "G", blk: w.s.CurrentBlock(), root: g.r0}
	ms["G"] = g.gen
	g.byHash[g.gen.blk.Hash()] = g.gen
	var nb uint32
	for _, id := range vIDs(w.cfg.Quarkchain) {
		if id != w.opt.id && account.IsNeighbor(account.Branch{Value: id}, account.Branch{Value: w.opt.id}, uint32(len(vIDs(w.cfg.Quarkchain)))) {
			nb = id
			break
		}
	}
	for li, line := range spec {
		f := strings.Fields(line)
		switch f[0] {
		case "m", "m?":
			p, r := ms[f[2]], rs[f[3]]
			var txs []*types.Transaction
			if len(f) > 4 {
				for _, t := range strings.Split(f[4], ",") {
					from := int(t[0] - 'a')
					tx := vTx{from: from, nonce: uint64(t[1] - '0'), to: vRecipient(4 + int(t[1]-'0')%2), toKey: w.opt.id, fromKey: w.opt.id, value: int64(10 + li*0), gasPrice: 1}.sign()
					g.txs[tx.Hash()] = t
					txs = append(txs, tx)
				}
			}
			b, _, err := w.mine(w.block(p.blk, r.blk, vAddr(7, w.opt.id), byte(li), txs...))
			if err != nil && f[0] == "m?" { // not a valid block in this graph
				continue
			}
			if err != nil {
				panic(fmt.Sprint("building ", line, ": ", err))
			}
			m := &dMinor{name: f[1], blk: b, parent: p, root: r}
			ms[f[1]] = m
			g.minors = append(g.minors, m)
			g.byHash[b.Hash()] = m
		case "r":
			p := rs[f[2]]
			var work int64
			fmt.Sscan(f[3], &work)
			r := &dRoot{name: f[1], parent: p}
			var hs []*types.MinorBlockHeader
			if f[4] != "-" {
				for _, n := range strings.Split(f[4], ",") {
					r.own = append(r.own, ms[n])
					hs = append(hs, ms[n].blk.Header())
				}
			}
			if len(f) > 5 {
				h := vHeader(nb, uint64(p.blk.NumberU64()), p.blk.Hash(), 100+li)
				var l types.CrossShardTransactionDepositList
				for i := 0; i < 2; i++ {
					id := i
					if f[5] == "nc" {
						id += 2
					}
					d := vDeposit(id, vAddr(5, nb), vAddr(4, w.opt.id), int64(3+i), vQKC, 0, 0, nil, false)
					g.deps[d.TxHash] = true
					l.TXList = append(l.TXList, d)
				}
				g.lists[h.Hash()] = l
				w.s.AddCrossShardTxListByMinorBlockHash(h.Hash(), l)
				hs = append(hs, h)
			}
			bigWork := big.NewInt(work)
			if key == "main" { // totals beyond 64 bits
				bigWork.Lsh(bigWork, 62)
			}
			r.blk = vRootBig(p.blk, bigWork, vAddr(6, nb), 0, byte(100+li), hs...)
			r.td = p.td + work
			if _, err := w.s.AddRootBlock(vCopyRoot(r.blk)); err != nil {
				panic(fmt.Sprint("building ", line, ": ", err))
			}
			rs[f[1]] = r
			g.roots = append(g.roots, r)
		}
	}
	// the deposits each block received: those of the root blocks it refers to beyond its parent, each root block
	// counting as a deposit (of its reward) of its own
	for _, m := range g.minors {
		var rs []*dRoot
		for r := m.root; r != m.parent.root; r = r.parent {
			rs = append([]*dRoot{r}, rs...)
		}
		if m.parent == g.gen {
			rs = append([]*dRoot{g.r0}, rs...)
		}
		for _, r := range rs {
			m.deposits = append(m.deposits, r.blk.Hash())
			for _, h := range r.blk.MinorBlockHeaders() {
				for _, d := range g.lists[h.Hash()].TXList {
					m.deposits = append(m.deposits, d.TxHash)
				}
			}
		}
	}
	return g
}

var dSpecMain = []string{
	"m M1 G R0 a0,b0",
	"m M2 M1 R0 a1",
	"m M1b G R0 b0,a0",
	"m M2b M1b R0 c0",
	"r R1 R0 10 G,M1",
	"r R1x R0 15 G,M1b,M2b",
	"m M2d M1 R1 c0,a1",
	"m M3 M2 R1 b1",
	"m M3b M2b R1x b1,a1",
	"r R2 R1 10 M2 nb",
	"r R2x R1x 10 - nb",
	"m M4 M3 R2 a2",
	"m M4b M3b R2x",
}

// a long unconfirmed chain against a short confirmed one, and equal root work
var dSpecTie = []string{
	"m M1 G R0 a0",
	"m M2 M1 R0 a1",
	"m M3 M2 R0 a2",
	"m M1b G R0 a0,b0",
	"r R1 R0 10 G",
	"r R1t R0 10 G,M1b",
	"r R1u R0 10 -",
	"m M2b M1b R1t a1",
	"m M2u M1 R1u b0",
	"m M4 M3 R1 b0",
	"r R2 R1 5 M1,M2",
	"r R2t R1t 6 -",
	"r R3 R2 7 M3",
}

// three branches of minor blocks whose order of transactions differs, a root block that jumps over several heights,
// and a minor block of a losing root fork that refers to an old root block
var dSpecDeep = []string{
	"m A1 G R0 a0,b0,c0",
	"m A2 A1 R0 a1,b1",
	"m A3 A2 R0 a2",
	"m B1 G R0 c0,a0",
	"m B2 B1 R0 b0,a1",
	"m B3 B2 R0 a2,b1",
	"m C2 A1 R0 b1,a1,c1",
	"m C3 C2 R0 c2",
	"r R1 R0 10 G,A1,A2,A3",
	"r R1x R0 12 G,B1",
	"r R1y R0 14 G,A1,C2",
	"m B4 B3 R1x a3",
	"m C4 C3 R1y a2 ",
	"r R2 R1 5 - nb",
	"m A4 A3 R2 c1",
}

// blocks that receive deposits, with and without transactions of their own, dropped by forks of both chains
var dSpecDeposits = []string{
	"r Q R0 10 G",
	"r R1 Q 10 - nb",
	"m A1 G R1",
	"m B1 G R1 a0",
	"m A2 A1 R1 b0",
	"m B2 B1 R1",
	"r R1x Q 10 - nc",
	"r R2x R1x 5 - nb",
	"m X1 G R2x a0",
	"r R2 R1 12 B1 nc",
	"m B3 B2 R2",
}

// ---- one shard receiving the graph ----------------------------------------------------------------

type dWorld struct {
	g *dGraph
	*vShard
	ldb string
}

var dSeq int64
var dSeqMu sync.Mutex

func dNew(g *dGraph, disk bool) *dWorld {
	w := &dWorld{g: g}
	o := g.opt
	if disk {
		base := os.Getenv("VERIF_OUT")
		if base == "" {
			base = os.TempDir()
		}
		if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
			base = "/dev/shm"
		}
		d, err := os.MkdirTemp(base, "verifdag")
		if err != nil {
			panic(err)
		}
		w.ldb = d
		db, err := qkcdb.NewDatabase(d, false, false)
		if err != nil {
			panic(err)
		}
		o.db = db
	}
	w.vShard = vNew(o)
	for h, l := range g.lists {
		w.s.AddCrossShardTxListByMinorBlockHash(h, l)
	}
	return w
}

func (w *dWorld) end() {
	w.close()
	if w.ldb != "" {
		w.db.(*qkcdb.QKCDataBase).Close()
		os.RemoveAll(w.ldb)
	}
}

func vDump(db ethdb.Database) string {
	var l []string
	switch d := db.(type) {
	case *ethdb.MemDatabase:
		for _, k := range d.Keys() {
			v, _ := d.Get(k)
			l = append(l, string(k)+"="+string(v))
		}
	case *qkcdb.QKCDataBase:
		it := d.NewIterator()
		for ok := it.First(); ok; ok = it.Next() {
			l = append(l, string(it.Key())+"="+string(it.Value()))
		}
		it.Release()
	default:
		panic("dump")
	}
	sort.Strings(l)
	h := sha256.New()
	for _, s := range l {
		if strings.HasPrefix(s, "ethereum-config-") { // the configuration as JSON, in no fixed order
			continue
		}
		fmt.Fprintf(h, "%d,%s", len(s), s)
	}
	return string(h.Sum(nil))
}

func (w *dWorld) key() string {
	k := vDump(w.db) + w.s.CurrentBlock().Hash().Hex() + w.s.GetRootTip().Hash().Hex()
	for _, h := range w.s.GetUnconfirmedHeaderList() {
		k += h.Hash().Hex()
	}
	return k
}

// dModel is the reference fork choice.
type dModel struct {
	g    *dGraph
	km   map[*dMinor]bool
	kr   map[*dRoot]bool
	tip  *dRoot
	head *dMinor
}

func newDModel(g *dGraph) *dModel {
	return &dModel{g: g, km: map[*dMinor]bool{g.gen: true}, kr: map[*dRoot]bool{g.r0: true}, tip: g.r0, head: g.gen}
}

func (d *dModel) minor(m *dMinor) {
	if d.km[m] || !d.km[m.parent] || !d.kr[m.root] {
		return
	}
	d.km[m] = true
	if !m.root.onChainOf(d.tip) {
		return
	}
	c := d.tip.conf()
	switch {
	case m.parent == d.head:
		d.head = m
	case c != nil && !m.descends(c):
	case m.n() > d.head.n(), m.n() == d.head.n() && m.root.blk.NumberU64() > d.head.root.blk.NumberU64():
		d.head = m
	}
}

func (d *dModel) root(r *dRoot) {
	if d.kr[r] || !d.kr[r.parent] {
		return
	}
	for _, m := range r.own {
		if !d.km[m] {
			return
		}
	}
	d.kr[r] = true
	if r.td <= d.tip.td {
		return
	}
	d.tip = r
	if c := r.conf(); c != nil && !d.head.descends(c) {
		d.head = c
	}
	for !d.head.root.onChainOf(d.tip) {
		d.head = d.head.parent
	}
}

func (w *dWorld) checkC03(c *kit.Case, d *dModel) {
	g := w.g
	for _, m := range g.minors {
		c.Check(w.s.HasBlock(m.blk.Hash()) == d.km[m], "known-minor", "block %s stored=%v, expected %v", m.name, w.s.HasBlock(m.blk.Hash()), d.km[m])
	}
	for _, r := range g.roots {
		c.Check(w.s.ContainRootBlockByHash(r.blk.Hash()) == d.kr[r], "known-root", "root block %s stored=%v, expected %v", r.name, w.s.ContainRootBlockByHash(r.blk.Hash()), d.kr[r])
	}
	c.Check(w.s.GetRootTip().Hash() == d.tip.blk.Hash(), "root-tip", "followed root block is not %s", d.tip.name)
	hd := g.byHash[w.s.CurrentBlock().Hash()]
	c.Check(hd != nil, "head-unknown", "head is not a delivered block")
	if cf := d.tip.conf(); cf != nil {
		c.Check(hd.descends(cf), "head-not-on-confirmed", "head %s does not descend from the last confirmed block %s", hd.name, cf.name)
	}
	c.Check(hd.root.onChainOf(d.tip), "head-off-root-chain", "head %s refers to root block %s outside the chain of %s", hd.name, hd.root.name, d.tip.name)
	c.Check(hd == d.head, "head", "head is %s, expected %s (root tip %s)", hd.name, d.head.name, d.tip.name)
	if cf := d.tip.conf(); cf != nil {
		c.Check(w.s.GetMinorTip() != nil && w.s.GetMinorTip().Hash() == cf.blk.Hash(), "confirmed-tip", "last confirmed block is not reported as %s", cf.name)
	} else {
		c.Check(w.s.GetMinorTip() == nil, "confirmed-tip", "a block is reported as confirmed although none is")
	}
	var want []*dMinor
	for m := hd; m != nil && m != d.tip.conf(); m = m.parent {
		want = append([]*dMinor{m}, want...)
	}
	var ws, gs string
	for _, m := range want {
		ws += " " + m.name
	}
	for _, h := range w.s.GetUnconfirmedHeaderList() {
		if m := g.byHash[h.Hash()]; m != nil {
			gs += " " + m.name
		} else {
			gs += " ?"
		}
	}
	c.Check(ws == gs, "unconfirmed", "unconfirmed headers are [%s], expected [%s]", gs, ws)
}

// checkC04: everything that can be looked up agrees with the head's ancestry.
func (w *dWorld) checkC04(c *kit.Case) {
	g := w.g
	hd := g.byHash[w.s.CurrentBlock().Hash()]
	c.Check(hd != nil, "head-unknown", "head is not a delivered block")
	canon := map[uint64]*dMinor{}
	type pos struct {
		m *dMinor
		i int
	}
	txAt := map[ethcommon.Hash]pos{}
	for m := hd; m != nil; m = m.parent {
		canon[m.n()] = m
		for i, t := range m.blk.Transactions() {
			txAt[t.Hash()] = pos{m, i}
		}
		for i, h := range m.deposits {
			txAt[h] = pos{m, i + len(m.blk.Transactions())}
		}
	}
	for n := uint64(0); n < 8; n++ {
		b := w.s.GetBlockByNumber(n)
		hh := w.s.GetHeaderByNumber(n)
		if m := canon[n]; m == nil {
			c.Check(qkcCommon.IsNil(b), "stale-number", "height %d above the head %s still names a block", n, hd.name)
			c.Check(qkcCommon.IsNil(hh), "stale-number", "height %d above the head %s still names a header", n, hd.name)
		} else {
			c.Check(!qkcCommon.IsNil(b) && b.Hash() == m.blk.Hash(), "number", "height %d does not name %s (head %s)", n, m.name, hd.name)
			c.Check(!qkcCommon.IsNil(hh) && hh.Hash() == m.blk.Hash(), "number", "height %d does not name header %s (head %s)", n, m.name, hd.name)
			c.Check(b.ParentHash() == m.blk.ParentHash() && len(b.(*types.MinorBlock).Transactions()) == len(m.blk.Transactions()), "block-content", "block at height %d differs", n)
		}
	}
	all := map[ethcommon.Hash]string{}
	for h, n := range g.txs {
		all[h] = n
	}
	for h := range g.deps {
		all[h] = "deposit " + vShort(h)
	}
	for h, n := range all {
		b, i := w.s.GetTransactionByHash(h)
		rb, ri, rc := w.s.GetTransactionReceipt(h)
		p, on := txAt[h]
		if !on {
			c.Check(b == nil || g.byHash[b.Hash()] == nil, "stale-tx", "transaction %s is found in %s although the head is %s", n, g.nameOf(b), hd.name)
			c.Check(rc == nil && rb == nil, "stale-receipt", "a receipt is found for %s although the head is %s", n, hd.name)
			continue
		}
		c.Check(b != nil && b.Hash() == p.m.blk.Hash() && int(i) == p.i, "tx", "transaction %s is found at %s/%d, expected %s/%d (head %s)", n, g.nameOf(b), i, p.m.name, p.i, hd.name)
		if !g.deps[h] {
			c.Check(rc != nil && rb.Hash() == p.m.blk.Hash() && int(ri) == p.i && rc.TxHash == h, "receipt", "receipt of %s not found at %s/%d", n, p.m.name, p.i)
		}
	}
	if w.ldb == "" {
		return
	}
	// address histories
	want := map[account.Recipient][]string{}
	var wantAll []string
	for n := uint64(1); n <= hd.n(); n++ {
		m := canon[n]
		for i, h := range m.deposits {
			if g.deps[h] {
				s := fmt.Sprintf("%s@%d", vShort(h), n)
				want[vRecipient(4)] = append(want[vRecipient(4)], s)
				wantAll = append(wantAll, s)
			}
			_ = i
		}
		for _, t := range m.blk.Transactions() {
			s := fmt.Sprintf("%s@%d", vShort(t.Hash()), n)
			from, err := types.Sender(types.MakeSigner(vNetworkID), t.EvmTx)
			if err != nil {
				panic(err)
			}
			want[from] = append(want[from], s)
			if *t.EvmTx.To() != from {
				want[*t.EvmTx.To()] = append(want[*t.EvmTx.To()], s)
			}
			wantAll = append(wantAll, s)
		}
	}
	// pages of every size, newest first
	pages := func(what string, want []string, limit int, ask func(start []byte) ([]*rpc.TransactionDetail, []byte, error)) {
		var got []string
		var start []byte
		for n := 0; ; n++ {
			l, next, err := ask(start)
			c.Check(err == nil, "history-error", "%s, %d at a time: %v", what, limit, err)
			if len(l) == 0 {
				break
			}
			c.Check(len(l) <= limit && n <= len(want), "history-pages", "%s, %d at a time: %d in page %d, expected %d in all", what, limit, len(l), n, len(want))
			for _, d := range l {
				got = append([]string{fmt.Sprintf("%s@%d", vShort(d.TxHash), d.BlockHeight)}, got...)
				c.Check(d.Success, "history-status", "%s reports a failed transaction", what)
			}
			start = next
		}
		c.Check(fmt.Sprint(got) == fmt.Sprint(want), "history", "%s, %d at a time, is %v, expected %v (head %s)", what, limit, got, want, hd.name)
	}
	for _, limit := range []int{1, 2, 1000} {
		for i := 0; i < 7; i++ {
			i := i
			pages(fmt.Sprintf("history of account %d", i), want[vRecipient(i)], limit, func(start []byte) ([]*rpc.TransactionDetail, []byte, error) {
				return w.s.GetTransactionByAddress(vAddr(i, w.opt.id), nil, start, uint32(limit))
			})
		}
		pages("history of all", wantAll, limit, func(start []byte) ([]*rpc.TransactionDetail, []byte, error) { return w.s.GetAllTx(start, uint32(limit)) })
	}
}

func (g *dGraph) nameOf(b *types.MinorBlock) string {
	if b == nil {
		return "nothing"
	}
	if m := g.byHash[b.Hash()]; m != nil {
		return m.name
	}
	return "a pending block"
}

// dExplore delivers the graph's blocks in every order.
func dExplore(h *kit.Harness, phase string, g *dGraph, disk bool, max int, check func(c *kit.Case, w *dWorld, d *dModel)) {
	n := len(g.minors) + len(g.roots)
	h.Bound(phase+" blocks", n)
	h.Explore(phase, kit.Opt{MaxDev: -1}, func(c *kit.Case) { dDeliver(c, g, "", disk, max, check) })
}

var dGraphs sync.Map

// dGenerated: every tree of k minor blocks on the root genesis, two competing root blocks confirming any of its
// paths, a third root block on the lighter one, and a minor block on any block referring to the first root block.
func dGenerated(h *kit.Harness, check func(c *kit.Case, w *dWorld, d *dModel)) {
	k := kit.Tier(2, 3)
	h.Bound("generated: minor blocks in the tree", k)
	h.Explore("generated", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		parent := make([]int, k+1)
		var spec []string
		for i := 1; i <= k; i++ {
			parent[i] = c.Choose(i, "parent")
			depth := 0
			for j := parent[i]; j != 0; j = parent[j] {
				depth++
			}
			spec = append(spec, fmt.Sprintf("m m%d %s R0 a%d", i, dName(parent[i]), depth))
		}
		path := func(t int) string {
			if t == 0 {
				return "-"
			}
			s := ""
			for j := t - 1; j != 0; j = parent[j] {
				s = "," + dName(j) + s
			}
			return "G" + s
		}
		t1 := c.Choose(k+2, "confirmed by R1")
		t2 := c.Choose(k+2, "confirmed by R1x")
		on := c.Choose(k+1, "parent of the block on R1")
		depth := 0
		for j := on; j != 0; j = parent[j] {
			depth++
		}
		spec = append(spec, "r R1 R0 10 "+path(t1), "r R1x R0 "+[]string{"15", "25"}[c.Choose(2, "work of R1x")]+" "+path(t2), "r R2 R1 10 -", fmt.Sprintf("m? n %s %s a%d,b0", dName(on), []string{"R1", "R2"}[c.Choose(2, "root of n")], depth))
		key := strings.Join(spec, ";")
		g, ok := dGraphs.Load(key)
		if !ok {
			g, _ = dGraphs.LoadOrStore(key, dBuild("gen", spec))
		}
		dDeliver(c, g.(*dGraph), key, false, 1000, check)
	})
}

func dName(i int) string {
	if i == 0 {
		return "G"
	}
	return fmt.Sprintf("m%d", i)
}

func dDeliver(c *kit.Case, g *dGraph, prefix string, disk bool, max int, check func(c *kit.Case, w *dWorld, d *dModel)) {
	n := len(g.minors) + len(g.roots)
	{
		w := dNew(g, disk)
		defer w.end()
		d := newDModel(g)
		for step := 0; step < max; step++ {
			if c.Frontier() {
				c.Visit(prefix+w.key(), 0)
			}
			i := c.Choose(n, "deliver")
			c.Step()
			before := w.s.CurrentBlock().Hash()
			if i < len(g.minors) {
				m := g.minors[i]
				c.Logf("minor %s", m.name)
				if p, v := kit.Try(func() { w.add(m.blk) }); v != nil {
					c.Fail("panic", "adding %s: %s", m.name, p)
				}
				d.minor(m)
			} else {
				r := g.roots[i-len(g.minors)]
				c.Logf("root %s", r.name)
				if p, v := kit.Try(func() { w.s.AddRootBlock(vCopyRoot(r.blk)) }); v != nil {
					c.Fail("panic", "adding %s: %s", r.name, p)
				}
				d.root(r)
			}
			if !c.Frontier() {
				continue
			}
			check(c, w, d)
			if after := w.s.CurrentBlock().Hash(); after != before {
				c.Outcome("%s->%s", g.nameOf(w.s.GetMinorBlock(before)), g.nameOf(w.s.GetMinorBlock(after)))
			}
		}
	}
}

func TestVerifC03(t *testing.T) {
	h := kit.New("C03", "headchoice")
	ck := func(c *kit.Case, w *dWorld, d *dModel) { w.checkC03(c, d) }
	dExplore(h, "forks", dBuild("main", dSpecMain), false, 1000, ck)
	dExplore(h, "ties", dBuild("tie", dSpecTie), false, 1000, ck)
	dExplore(h, "deep", dBuild("deep", dSpecDeep), false, 1000, ck)
	dGenerated(h, ck)
	h.Done()
}

func TestVerifC04(t *testing.T) {
	h := kit.New("C04", "indexes")
	ck := func(c *kit.Case, w *dWorld, d *dModel) { w.checkC04(c) }
	dExplore(h, "forks", dBuild("main", dSpecMain), false, 1000, ck)
	dExplore(h, "ties", dBuild("tie", dSpecTie), false, 1000, ck)
	dExplore(h, "deep", dBuild("deep", dSpecDeep), false, 1000, ck)
	dExplore(h, "deposits", dBuild("deposits", dSpecDeposits), false, 1000, ck)
	dGenerated(h, ck)
	dExplore(h, "histories", dBuild("main", dSpecMain), true, kit.Tier(9, 1000), ck)
	dExplore(h, "deposit-histories", dBuild("deposits", dSpecDeposits), true, 1000, ck)
	h.Done()
}

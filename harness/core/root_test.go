package core

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkcCommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/internal/encoder"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

// vRootChain is the root chain with everything it needs around it.
type vRootChain struct {
	q   *config.QuarkChainConfig
	db  ethdb.Database
	r   *RootBlockChain
	gen *types.RootBlock
	eng consensus.Engine
}

func vNewRoot(o vOpt) *vRootChain {
	if o.db == nil {
		o.db = ethdb.NewMemDatabase()
	}
	if o.engine == nil {
		o.engine = new(consensus.FakeEngine)
	}
	w := &vRootChain{q: vSharedConfig(o).Quarkchain, db: o.db, eng: o.engine}
	w.gen = NewGenesis(w.q).MustCommitRootBlock(w.db)
	if err := w.open(); err != nil {
		panic(err)
	}
	return w
}

func (w *vRootChain) open() error {
	r, err := NewRootBlockChain(w.db, w.q, w.eng)
	if err != nil {
		return err
	}
	r.SetEnableCountMinorBlocks(true)
	w.r = r
	return nil
}

func (w *vRootChain) add(b *types.RootBlock) error {
	_, err := w.r.InsertChain([]types.IBlock{vCopyRoot(b)})
	return err
}

// cRoot is a root block of the model.
type cRoot struct {
	name    string
	blk     *types.RootBlock
	parent  *cRoot
	headers []*types.MinorBlockHeader
	td      int64
}

func (r *cRoot) n() uint64 { return r.blk.NumberU64() }

// last confirmed header per shard
func (r *cRoot) latest() map[uint32]*types.MinorBlockHeader {
	m := map[uint32]*types.MinorBlockHeader{}
	var rec func(x *cRoot)
	rec = func(x *cRoot) {
		if x == nil {
			return
		}
		rec(x.parent)
		for _, h := range x.headers {
			m[h.Branch.Value] = h
		}
	}
	rec(r)
	return m
}

// produced blocks per shard and miner
func (r *cRoot) counts() map[string]uint32 {
	m := map[string]uint32{}
	for x := r; x != nil; x = x.parent {
		for _, h := range x.headers {
			m[fmt.Sprintf("%x/%x", h.Branch.Value, h.Coinbase.Recipient)]++
		}
	}
	return m
}

// cNextHeader fabricates the next header of a shard on the given root fork.
func cNextHeader(last *types.MinorBlockHeader, shard uint32, prevRoot ethcommon.Hash, miner int, tag string) *types.MinorBlockHeader {
	h := vHeader(shard, 0, prevRoot, 0)
	h.Extra = []byte(tag)
	h.Coinbase = vAddr(miner, shard)
	h.Time = 1
	if last != nil {
		h.Number, h.ParentHash, h.Time = last.Number+1, last.Hash(), last.Time
	}
	return h
}

func cStr(m map[string]uint32) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%s:%d", k, v))
	}
	return vSorted(ks)
}

func vSorted(l []string) string {
	l = append([]string{}, l...)
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return strings.Join(l, " ")
}

// cDump is the complete content of the root chain's database, read through its accessors
// (some records list a map in arbitrary order, so their bytes are not comparable).
func cDump(w *vRootChain, blocks []*cRoot) string {
	var l []string
	for i, b := range blocks {
		l = append(l, fmt.Sprint(i, w.r.HasBlock(b.blk.Hash())))
		for _, mh := range b.headers {
			l = append(l, fmt.Sprintf("%d/%x", i, w.r.GetRootBlockConfirmingMinorBlock(encoder.IDEncoder(mh.Hash().Bytes(), mh.Branch.Value))))
		}
		n := uint64(i)
		if hh := w.r.GetHeaderByNumber(n); !qkcCommon.IsNil(hh) {
			l = append(l, fmt.Sprintf("%d:%x", n, hh.Hash()))
		}
		cnt, _ := w.r.GetBlockCount(uint32(n))
		for id, m := range cnt {
			for a, v := range m {
				l = append(l, fmt.Sprintf("%d %x/%x=%d", n, id, a, v))
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ") + w.r.CurrentBlock().Hash().Hex()
}

func TestVerifC05(t *testing.T) {
	h := kit.New("C05", "rootchoice")
	k := kit.Tier(4, 5)
	works := []int64{1, 2, 3}
	if k > 4 {
		works = []int64{1, 2}
	}
	h.Bound("root blocks", k)
	h.Bound("work per block", fmt.Sprint(works))
	c05Trees(h, "trees", k, works, 1)
	// the same with works around 2^63, so that totals exceed 64 bits
	h.Bound("heavy: root blocks", 3)
	h.Bound("heavy: work per block", "1..3 times 2^63+1")
	c05Trees(h, "heavy", 3, []int64{1, 2, 3}, 1<<63+1)
	h.Done()
}

func c05Trees(h *kit.Harness, phase string, k int, works []int64, scale uint64) {
	h.Explore(phase, kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		w := vNewRoot(vOpt{key: "c05"})
		defer w.r.Stop()
		ids := vIDs(w.q)
		gen := &cRoot{name: "G", blk: w.gen}
		blocks := []*cRoot{gen}
		desc := ""
		for i := 1; i <= k; i++ {
			p := blocks[c.Choose(i, "parent")]
			wk := works[c.Choose(len(works), "work")]
			x := &cRoot{name: fmt.Sprint("R", i), parent: p, td: p.td + wk}
			// what it confirms: one shard's next header, two shards' next headers, or nothing
			last := p.latest()
			if i%3 != 0 {
				for j := 0; j < i%3; j++ {
					id := ids[(i/2+j)%3]
					if j == 1 && id < ids[(i/2)%3] {
						break
					}
					x.headers = append(x.headers, cNextHeader(last[id], id, p.blk.Hash(), (i+j)%3, fmt.Sprint("b", i, j)))
				}
			}
			for _, mh := range x.headers {
				w.r.AddValidatedMinorBlockHeader(mh.Hash(), types.NewEmptyTokenBalances())
			}
			x.blk = vRootBig(p.blk, new(big.Int).Mul(big.NewInt(wk), new(big.Int).SetUint64(scale)), vAddr(0, ids[0]), 1, byte(i), x.headers...)
			blocks = append(blocks, x)
			desc += fmt.Sprintf(" %s<-%s+%d", x.name, p.name, wk)
		}
		c.Logf("blocks%s", desc)
		known := map[*cRoot]bool{gen: true}
		head := gen
		for {
			if c.Frontier() {
				c.Visit(desc+cDump(w, blocks), 0)
			}
			x := blocks[1+c.Choose(k, "deliver")]
			c.Logf("deliver %s", x.name)
			c.Step()
			if p, v := kit.Try(func() { w.add(x.blk) }); v != nil {
				c.Fail("panic", "adding %s: %s %v", x.name, p, v)
			}
			if !known[x] && known[x.parent] {
				known[x] = true
				if x.td > head.td || x.td == head.td && x.n() < head.n() {
					c.Outcome("%d->%d switch=%v", head.n(), x.n(), x.parent != head)
					head = x
				}
			}
			if !c.Frontier() {
				continue
			}
			for _, b := range blocks {
				c.Check(w.r.HasBlock(b.blk.Hash()) == known[b], "known", "block %s stored=%v", b.name, w.r.HasBlock(b.blk.Hash()))
			}
			c.Check(w.r.CurrentBlock().Hash() == head.blk.Hash(), "head", "head is not %s", head.name)
			c.Check(w.r.CurrentHeader().Hash() == head.blk.Hash(), "head", "head header is not %s", head.name)
			canon := map[uint64]*cRoot{}
			for b := head; b != nil; b = b.parent {
				canon[b.n()] = b
			}
			for n := uint64(0); n <= uint64(k)+1; n++ {
				b, hh := w.r.GetBlockByNumber(n), w.r.GetHeaderByNumber(n)
				if x := canon[n]; x != nil {
					c.Check(!qkcCommon.IsNil(b) && b.Hash() == x.blk.Hash() && !qkcCommon.IsNil(hh) && hh.Hash() == x.blk.Hash(), "number", "height %d does not name %s (head %s)", n, x.name, head.name)
					cnt, err := w.r.GetBlockCount(uint32(n))
					c.Check(err == nil, "count-error", "%v", err)
					got := map[string]uint32{}
					for id, m := range cnt {
						for a, v := range m {
							if v != 0 {
								got[fmt.Sprintf("%x/%x", id, a)] = v
							}
						}
					}
					c.Check(cStr(got) == cStr(x.counts()), "counts", "production counts at height %d (%s) are [%s], expected [%s]", n, x.name, cStr(got), cStr(x.counts()))
					for _, mh := range x.headers {
						got := w.r.GetRootBlockConfirmingMinorBlock(encoder.IDEncoder(mh.Hash().Bytes(), mh.Branch.Value))
						c.Check(got == x.blk.Hash(), "confirming", "the root block confirming a header of %s is not reported as %s", x.name, x.name)
					}
				} else {
					c.Check(qkcCommon.IsNil(b) && qkcCommon.IsNil(hh), "stale-number", "height %d above the head %s still names a block", n, head.name)
				}
			}
			for b := range known {
				if b == gen {
					continue
				}
				want := b.latest()
				got := w.r.GetLatestMinorBlockHeaders(b.blk.Hash())
				c.Check(len(want) == len(got), "latest", "latest confirmed headers at %s: %d shards, expected %d", b.name, len(got), len(want))
				for id, mh := range want {
					c.Check(got[id] != nil && got[id].Hash() == mh.Hash(), "latest", "latest confirmed header of shard %x at %s is wrong", id, b.name)
					l := w.r.GetLastConfirmedMinorBlockHeader(b.blk.Hash(), id)
					c.Check(l != nil && l.Hash() == mh.Hash(), "latest", "last confirmed header of shard %x at %s is wrong", id, b.name)
				}
			}
		}
	})
}

var _ = big.NewInt
var _ = account.Address{}

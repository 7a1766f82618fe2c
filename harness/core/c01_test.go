package core

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// ---- reference model of cross-shard delivery -------------------------------------------------

// c01Item is one thing the destination shard must consume, in the order the root chain fixes.
type c01Item struct {
	hash    ethcommon.Hash
	to      account.Recipient
	value   int64
	cost    uint64
	h, y, z uint64 // where the cursor stands after consuming it
}

type c01Root struct {
	blk    *types.RootBlock
	parent *c01Root
	items  []c01Item // this root block's items
	conf   *c01Block // last block of the shard confirmed up to here (nil: none)
}

// c01Block is what the model knows about one block of the destination shard.
type c01Block struct {
	blk    *types.MinorBlock
	parent *c01Block
	root   *c01Root
	pos    int // items of the root chain consumed up to and including this block
	bal    map[account.Recipient]int64
}

func (r *c01Root) chain() []c01Item {
	if r == nil {
		return nil
	}
	return append(append([]c01Item{}, r.parent.chain()...), r.items...)
}
func (r *c01Root) height() uint64 { return r.blk.NumberU64() }

type c01World struct {
	*vShard
	lim     uint64
	tag     int
	genesis *c01Block
	r0      *c01Root
	fixAt   uint64
}

func c01New(lim uint64, chains, shards, id uint32, fixAt uint64) *c01World {
	w := &c01World{lim: lim, fixAt: fixAt}
	w.vShard = vNew(vOpt{key: fmt.Sprint("c01", lim, chains, shards, id, fixAt), chains: chains, shards: shards, id: id, gasLimit: 2 * lim, alloc: map[account.Recipient]config.Allocation{vRecipient(0): vQkcBal(1000)},
		tune: func(q *config.QuarkChainConfig) { q.XShardGasDDOSFixRootHeight = fixAt }})
	w.r0 = &c01Root{blk: w.root0, items: []c01Item{{hash: w.root0.Hash(), h: 0, y: 0, z: 1}}}
	w.genesis = &c01Block{blk: w.s.CurrentBlock(), root: w.r0, bal: map[account.Recipient]int64{}}
	return w
}

func c01To(i int) account.Recipient {
	return ethcommon.BytesToAddress(crypto.Keccak256([]byte(fmt.Sprint("to", i))))
}

// root builds the model and the real root block from a list of header specs.
// spec: "n<k>" neighbour header carrying k deposits, "m<k>" the same from a second neighbour,
// "p<k>" another header of the first neighbour, "x" a header without permission, "o" own tip header,
// "g<k>" deposits with gas price 0, "f" a header of a non-neighbour shard, "C" coinbase in this shard.
func (w *c01World) root(c *kit.Case, parent *c01Root, spec string, work int64, own *c01Block, nb1, nb2, far uint32) (*c01Root, []func()) {
	height := parent.height() + 1
	cb := vAddr(6, 0x20000|w.opt.id|1) // elsewhere
	amount := int64(7)
	for _, q := range vIDs(w.cfg.Quarkchain) {
		if q != w.opt.id {
			cb = account.Address{Recipient: c01To(900), FullShardKey: q}
			break
		}
	}
	in := strings.Contains(spec, "C")
	if in {
		cb = account.Address{Recipient: c01To(900), FullShardKey: w.opt.id}
	}
	var hs []*types.MinorBlockHeader
	var deliver []func()
	var items []c01Item
	conf := parent.conf
	for _, f := range strings.Fields(spec) {
		if f == "C" {
			continue
		}
		n := 0
		if len(f) > 1 {
			fmt.Sscanf(f[1:], "%d", &n)
		}
		w.tag++
		switch f[0] {
		case 'o':
			var up []*c01Block
			x := own
			for ; x != nil && x != parent.conf; x = x.parent {
				up = append(up, x)
			}
			if x != parent.conf || len(up) == 0 {
				continue
			}
			for i := len(up) - 1; i >= 0; i-- {
				hs = append(hs, up[i].blk.Header())
			}
			conf = own
			continue
		case 'x':
			hs = append(hs, vHeader(nb1, 5, w.root0.Hash(), w.tag))
			continue
		case 'f':
			hs = append(hs, vHeader(far, 5, parent.blk.Hash(), w.tag))
			continue
		}
		br := nb1
		if f[0] == 'm' {
			br = nb2
		}
		hd := vHeader(br, 9, parent.blk.Hash(), w.tag)
		hs = append(hs, hd)
		y := uint64(len(hs))
		if parent.height() == 0 { // no permission yet: must carry nothing
			continue
		}
		list := types.CrossShardTransactionDepositList{}
		for i := 0; i < n; i++ {
			w.tag++
			to := c01To(i)
			gp := int64(1)
			if f[0] == 'g' {
				gp = 0
			}
			d := vDeposit(w.tag, account.Address{Recipient: c01To(800), FullShardKey: br}, account.Address{Recipient: to, FullShardKey: w.opt.id}, int64(w.tag), vQKC, gp, 0, nil, false)
			list.TXList = append(list.TXList, d)
			cost := uint64(9000)
			if height < w.fixAt && gp == 0 {
				cost = 0
			}
			items = append(items, c01Item{hash: d.TxHash, to: to, value: int64(w.tag), cost: cost, h: height, y: y, z: uint64(i)})
		}
		hh := hd.Hash()
		deliver = append(deliver, func() { w.s.AddCrossShardTxListByMinorBlockHash(hh, list) })
	}
	rb := vRoot(parent.blk, work, cb, amount, byte(w.tag), hs...)
	v := int64(0)
	if in {
		v = amount
	}
	items = append([]c01Item{{hash: rb.Hash(), to: cb.Recipient, value: v, h: height, y: 0, z: 1}}, items...)
	return &c01Root{blk: rb, parent: parent, items: items, conf: conf}, deliver
}

// mineOn adds a block on the given parent referring to root, and checks it against the model.
func (w *c01World) mineOn(c *kit.Case, p *c01Block, r *c01Root, extra byte) *c01Block {
	all := r.chain()
	pos, used := p.pos, uint64(0)
	n := &c01Block{parent: p, root: r, bal: map[account.Recipient]int64{}}
	for k, v := range p.bal {
		n.bal[k] = v
	}
	var want []string
	cur := [3]uint64{r.height() + 1, 0, 0}
	for pos < len(all) {
		it := all[pos]
		pos++
		n.bal[it.to] += it.value
		want = append(want, vShort(it.hash))
		used += it.cost
		if used >= w.lim {
			cur = [3]uint64{it.h, it.y, it.z}
			break
		}
	}
	n.pos = pos
	b := w.block(p.blk, r.blk, vAddr(7, w.opt.id), extra)
	fin, _, err := w.mine(b)
	c.Check(err == nil, "valid-block-refused", "block on %d with root %d: %v", p.blk.NumberU64(), r.height(), err)
	n.blk = fin
	c.Step()
	var got []string
	if l := rawdb.ReadConfirmedCrossShardTxList(w.db, fin.Hash()); l != nil {
		for _, d := range l.TXList {
			got = append(got, vShort(d.TxHash))
		}
	}
	c.Logf("block %d root %d: consumed %v cursor %v", fin.NumberU64(), r.height(), want, cur)
	c.Check(strings.Join(got, ",") == strings.Join(want, ","), "wrong-deposits", "block %d consumed deposits %v, the root chain prescribes %v", fin.NumberU64(), got, want)
	ci := fin.Meta().XShardTxCursorInfo
	c.Check(ci.RootBlockHeight == cur[0] && ci.MinorBlockIndex == cur[1] && ci.XShardDepositIndex == cur[2], "wrong-cursor", "cursor %+v want %v", *ci, cur)
	c.Check(fin.CrossShardGasUsed().Uint64() == used, "wrong-xshard-gas", "gas used by deposits %v want %d", fin.CrossShardGasUsed(), used)
	st, err := w.s.StateAt(fin.Root())
	c.Check(err == nil, "state-missing", "%v", err)
	for i := 0; i < 4; i++ {
		to := c01To(i)
		g := st.GetBalance(to, vQKC)
		c.Check(g.Cmp(big.NewInt(n.bal[to])) == 0, "wrong-credit", "block %d: recipient %d has %v, credited deposits are worth %d", fin.NumberU64(), i, g, n.bal[to])
	}
	g := st.GetBalance(c01To(900), vQKC)
	c.Check(g.Cmp(big.NewInt(n.bal[c01To(900)])) == 0, "wrong-root-coinbase", "root miner has %v want %d", g, n.bal[c01To(900)])
	s8 := st.GetBalance(c01To(800), vQKC)
	c.Check(s8.Sign() == 0, "sender-credited", "the sender of a delivered deposit holds %v here", s8)
	c.State(fmt.Sprint(n.pos, cur, len(all), w.lim))
	c.Outcome("n=%d stop=%v", len(want), cur[1] > 0)
	return n
}

func (w *c01World) addRoot(c *kit.Case, r *c01Root, deliver []func(), late bool) {
	if late && len(deliver) > 0 {
		ok, err := w.s.AddRootBlock(r.blk)
		c.Check(err != nil && !ok, "root-without-deposits", "root block %d was accepted although the deposits of a neighbour's block in it are not here", r.height())
	}
	for _, f := range deliver {
		f()
	}
	_, err := w.s.AddRootBlock(r.blk)
	c.Check(err == nil, "root-refused", "root block %d: %v", r.height(), err)
	c.Step()
}

func TestVerifC01(t *testing.T) {
	h := kit.New("C01", "delivery")
	defer h.Done()
	if kit.Quick() {
		h.Bound("roots", 3)
	}
	r1s := []string{"", "n2 o", "C x m1"}
	mid := []string{"", "n2", "C n1", "n0 m1", "o n1 m2", "n1 x m1", "n3 p2", "g2 n1", "C x o n1 p1 m0"}
	last := mid
	if kit.Quick() {
		r1s = r1s[:2]
		last = []string{"", "n1", "C n2 m1", "o x n1 p1"}
	}
	lims := []uint64{9000, 18000, 27000, 9000 * 100}
	h.Bound("root-block contents", fmt.Sprintf("%q x %q x %q", r1s, mid, last))
	h.Bound("per-block cross-shard gas (deposits)", "1, 2, 3, 100")

	// every content of three root blocks, every order of adding root blocks and mining blocks on
	// every root block a block may refer to
	h.Explore("schedules", kit.Opt{}, func(c *kit.Case) {
		w := c01New(lims[c.Choose(len(lims), "limit")], 2, 2, 2, 0)
		defer w.close()
		specs := []string{r1s[c.Choose(len(r1s), "r1")], mid[c.Choose(len(mid), "r2")], last[c.Choose(len(last), "r3")]}
		late := true
		if !kit.Quick() {
			late = c.Bool("late")
		}
		tip, head := w.r0, w.genesis
		var roots []*c01Root
		blocks := 0
		maxBlocks := kit.Tier(3, 5)
		for len(roots) < 3 || blocks < maxBlocks {
			// 0: root block; k>0: a block on the k-1th admissible root
			var adm []*c01Root
			if blocks < maxBlocks {
				for r := tip; r != nil && r.height() >= head.root.height(); r = r.parent {
					adm = append(adm, r)
				}
				if len(adm) > 2 {
					adm = adm[:2]
				}
			}
			canRoot := 0
			if len(roots) < 3 {
				canRoot = 1
			}
			k := c.Choose(len(adm)+canRoot, "step")
			if k < canRoot {
				r, d := w.root(c, tip, specs[len(roots)], 1000, head, 3, 0x10002, 0)
				w.addRoot(c, r, d, late)
				roots = append(roots, r)
				tip = r
				continue
			}
			head = w.mineOn(c, head, adm[k-canRoot], 0)
			blocks++
		}
		// drain: everything is delivered exactly once in the end
		for i := 0; head.pos < len(tip.chain()); i++ {
			c.Check(i < 40, "no-progress", "deposits are never consumed")
			head = w.mineOn(c, head, tip, 0)
		}
	})

	// forks: two root branches and two branches of the shard, in every order
	fm := []string{"n2", "C n1 m1", "", "o p1 n2"}
	h.Explore("forks", kit.Opt{}, func(c *kit.Case) {
		w := c01New(lims[c.Choose(3, "limit")], 2, 2, 2, 0)
		defer w.close()
		r1, d := w.root(c, w.r0, "C", 1000, nil, 3, 0x10002, 0)
		w.addRoot(c, r1, d, false)
		r2, d := w.root(c, r1, "n2 m1", 1000, nil, 3, 0x10002, 0)
		w.addRoot(c, r2, d, false)
		base := w.mineOn(c, w.genesis, r1, 0)
		tips := []*c01Root{r2, r2}
		a, b := fm[c.Choose(len(fm), "fa")], fm[c.Choose(len(fm), "fb")]
		ra, da := w.root(c, r2, a, 1000, base, 3, 0x10002, 0)
		rb, db := w.root(c, r2, b, 2000, base, 3, 0x10003, 0)
		blocks := []*c01Block{base}
		steps := kit.Tier(4, 6)
		got := [2]bool{}
		for i := 0; i < steps; i++ {
			type op struct {
				p *c01Block
				r *c01Root
			}
			var ops []op
			for _, p := range blocks {
				for _, r := range []*c01Root{r2, tips[0], tips[1]} {
					if (r == r2 || (r == ra && got[0]) || (r == rb && got[1])) && !(r == r2 && p.root != r2 && p.root != r1) && !(p.root == ra && r == rb) && !(p.root == rb && r == ra) {
						ops = append(ops, op{p, r})
					}
				}
			}
			var o2 []op
			for _, o := range ops {
				dup := false
				for _, e := range o2 {
					dup = dup || e == o
				}
				if !dup {
					o2 = append(o2, o)
				}
			}
			n := 0
			if !got[0] || !got[1] {
				n = 1
			}
			k := c.Choose(len(o2)+n, "op")
			if k < n {
				if !got[0] {
					w.addRoot(c, ra, da, false)
					got[0], tips[0] = true, ra
				} else {
					w.addRoot(c, rb, db, false)
					got[1], tips[1] = true, rb
				}
				continue
			}
			o := o2[k-n]
			blocks = append(blocks, w.mineOn(c, o.p, o.r, byte(i)))
		}
	})

	// more shards than the fully connected limit: only neighbours' blocks carry deposits
	nspec := []string{"", "n1", "f n2", "n1 f m1", "f f o"}
	h.Explore("neighbours", kit.Opt{}, func(c *kit.Case) {
		// 8 chains x 8 shards, we are chain 0 shard 0 (id 8); neighbours differ in one coordinate by a power of two
		nb1 := []uint32{8 | 1, 8 | 2, 8 | 4}[c.Choose(3, "nb1")]
		nb2 := []uint32{1<<16 | 8, 2<<16 | 8, 4<<16 | 8}[c.Choose(3, "nb2")]
		far := []uint32{8 | 3, 8 | 5, 3<<16 | 8, 1<<16 | 8 | 1, 7<<16 | 8}[c.Choose(5, "far")]
		w := c01New(lims[c.Choose(2, "limit")], 8, 8, 8, 0)
		defer w.close()
		r1, d := w.root(c, w.r0, "", 1000, nil, nb1, nb2, far)
		w.addRoot(c, r1, d, false)
		head := w.mineOn(c, w.genesis, r1, 0)
		tip := r1
		for i := 0; i < 2; i++ {
			r, d := w.root(c, tip, nspec[c.Choose(len(nspec), "spec")], 1000, head, nb1, nb2, far)
			w.addRoot(c, r, d, true)
			tip = r
			head = w.mineOn(c, head, tip, 0)
		}
		for i := 0; head.pos < len(tip.chain()); i++ {
			c.Check(i < 40, "no-progress", "deposits are never consumed")
			head = w.mineOn(c, head, tip, 0)
		}
	})

	// deposits around the root height from which free deposits cost gas too
	h.Explore("gas-fix-height", kit.Opt{}, func(c *kit.Case) {
		w := c01New(lims[c.Choose(3, "limit")], 2, 2, 2, uint64(1+c.Choose(4, "fix-height")))
		defer w.close()
		tip, head := w.r0, w.genesis
		gs := []string{"g2", "C g1 n1", "n2 g2"}
		for i := 0; i < 3; i++ {
			r, d := w.root(c, tip, gs[c.Choose(len(gs), "spec")], 1000, head, 3, 0x10002, 0)
			w.addRoot(c, r, d, false)
			tip = r
			if c.Bool("mine") {
				head = w.mineOn(c, head, tip, 0)
			}
		}
		for i := 0; head.pos < len(tip.chain()); i++ {
			c.Check(i < 40, "no-progress", "deposits are never consumed")
			head = w.mineOn(c, head, tip, 0)
		}
	})
}

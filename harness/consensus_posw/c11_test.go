package posw

// C11 (window): the real staking window over every small block tree and every order of asking
// about its blocks, and the reduction of the difficulty over a grid of stakes, counts and times.

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
)

type vReader map[common.Hash]types.IBlock

func (r vReader) GetBlock(h common.Hash) types.IBlock {
	if b, ok := r[h]; ok {
		return b
	}
	return nil
}

func vWho(i int) account.Recipient { return common.BytesToAddress([]byte{0xaa, byte(i), 7}) }

func vBlock(number uint64, parent common.Hash, who int, tag byte) *types.RootBlock {
	return types.NewRootBlockWithHeader(&types.RootBlockHeader{
		Number: uint32(number), ParentHash: parent, Coinbase: account.NewAddress(vWho(who), uint32(tag)), Time: uint64(tag) + 100,
		Difficulty: big.NewInt(1000003), ToTalDifficulty: big.NewInt(1), CoinbaseAmount: types.NewEmptyTokenBalances(),
	})
}

func TestVerifC11Window(t *testing.T) {
	h := kit.New("C11", "Window")
	defer h.Done()
	size := kit.Tier(6, 7)
	queries := kit.Tier(3, 4)
	h.Bound("blocks in a tree (genesis included)", size)
	h.Bound("questions in a sequence", queries)
	h.Bound("window sizes", "1..5")
	type tree struct {
		b      []*types.RootBlock
		par    []int
		miners []int
	}
	stake := big.NewInt(10)
	h.Explore("trees", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		win := uint64(c.Choose(5, "window") + 1)
		pattern := c.Choose(3, "miners")
		tr := tree{}
		rd := vReader{}
		n := size
		// long windows need chains rather than bushes
		for i := 0; i < n; i++ {
			p := -1
			parent := common.Hash{}
			num := uint64(0)
			if i > 0 {
				lo := 0
				if i > 3 {
					lo = i - 3
				}
				p = lo + c.Choose(i-lo, "parent")
				parent, num = tr.b[p].Hash(), tr.b[p].NumberU64()+1
			}
			who := []int{i, i % 2, 0}[pattern]
			b := vBlock(num, parent, who, byte(i))
			tr.b, tr.par, tr.miners = append(tr.b, b), append(tr.par, p), append(tr.miners, who)
			rd[b.Hash()] = b
		}
		cfg := &config.POSWConfig{Enabled: true, DiffDivider: 20, WindowSize: win, TotalStakePerBlock: stake}
		p := NewPoSW(rd, cfg)
		for q := 0; q < queries+n; q++ {
			x := q - queries // at the end, every block in turn
			if q < queries {
				x = n - 1 - c.Choose(n, "question")
			}
			count := map[int]int64{}
			for k, i := x, uint64(0); k >= 0 && i < win-1; k, i = tr.par[k], i+1 {
				count[tr.miners[k]]++
			}
			for round := 0; round < 2; round++ {
				m, err := p.BuildSenderDisallowMap(tr.b[x].Hash(), nil)
				if err != nil {
					c.Fail("error", "window of block %d: %v", x, err)
				}
				for w := 0; w < n; w++ {
					got := m[vWho(w)]
					if got == nil {
						got = new(big.Int)
					}
					c.Check(got.Int64() == count[w]*10, "window", "tree %v, miners %v, window %d, question %d about block %d: miner %d has %v locked, expected %d",
						tr.par, tr.miners, win, q, x, w, got, count[w]*10)
				}
				if round == 0 {
					co := vWho(1)
					m, err := p.BuildSenderDisallowMap(tr.b[x].Hash(), &co)
					c.Check(err == nil && m[co].Int64() == (count[1]+1)*10, "window", "the new block's own miner is not counted once: %v", m[co])
				}
			}
			for w := 0; w < 2; w++ {
				hd := vBlock(tr.b[x].NumberU64()+1, tr.b[x].Hash(), w, 200).Header()
				for s := int64(0); s <= int64(win)+2; s++ {
					d, err := p.PoSWDiffAdjust(hd, big.NewInt(s*10+9), *stake)
					if err != nil {
						c.Fail("error", "difficulty on block %d: %v", x, err)
					}
					want := int64(1000003)
					if th := s; count[w] < th && count[w] < int64(win) {
						want /= 20
					}
					c.Check(d.Int64() == want, "difficulty", "tree %v, miners %v, window %d: miner %d with stake for %d blocks and %d in the window gets %v, expected %d", tr.par, tr.miners, win, w, s, count[w], d, want)
				}
				_, mineable, mined, err := p.GetPoSWInfo(tr.b[x].Header(), big.NewInt(25), vWho(w), *stake)
				if err != nil {
					c.Fail("error", "info on block %d: %v", x, err)
				}
				wm := uint64(2)
				if wm > win {
					wm = win
				}
				if tr.b[x].NumberU64() == 0 {
					wm = 0
				}
				c.Check(mined == uint64(count[w]) && mineable == wm, "info", "info of miner %d at block %d: %d of %d, expected %d of %d", w, x, mined, mineable, count[w], wm)
			}
			c.Step()
		}
		c.State(fmt.Sprint(win, pattern, tr.par))
	})
	h.Explore("unknown", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		g := vBlock(0, common.Hash{}, 0, 0)
		a := vBlock(1, g.Hash(), 0, 1)
		b := vBlock(2, a.Hash(), 1, 2)
		rd := vReader{}
		for i, x := range []*types.RootBlock{g, a, b} {
			if c.Choose(2, fmt.Sprint("present ", i)) == 0 {
				rd[x.Hash()] = x
			}
		}
		p := NewPoSW(rd, &config.POSWConfig{Enabled: true, DiffDivider: 20, WindowSize: 4, TotalStakePerBlock: stake})
		for _, x := range []*types.RootBlock{b, a, g, b} {
			complete := true
			for y := x; y != nil; {
				if rd[y.Hash()] == nil {
					complete = false
				}
				switch y {
				case b:
					y = a
				case a:
					y = g
				default:
					y = nil
				}
			}
			site, _ := kit.Try(func() {
				_, err := p.BuildSenderDisallowMap(x.Hash(), nil)
				c.Check((err == nil) == complete, "unknown", "window over missing blocks: error %v, complete %v", err, complete)
			})
			c.Check(site == "", "crash", "a missing block crashes the window: %s", site)
		}
		c.Step()
	})
	h.Explore("numbers", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		win := []uint64{2, 4, 256}[c.Choose(3, "window")]
		per := []*big.Int{big.NewInt(1), big.NewInt(7), new(big.Int).Exp(big.NewInt(10), big.NewInt(27), nil)}[c.Choose(3, "per block")]
		cnt := uint64(c.Choose(4, "mined"))
		if cnt > win-1 {
			c.Stop()
		}
		times := []uint64{0, 999, 1000, 1001, 1099, 1100, 1199, 1200, 1300, 1399, 1400, 1 << 40}
		tm := times[c.Choose(len(times), "time")]
		boost := []uint64{0, 1000}[c.Choose(2, "boost")]
		steps := []uint64{0, 1, 3}[c.Choose(3, "steps")]
		cfg := &config.POSWConfig{Enabled: true, DiffDivider: 20, WindowSize: win, TotalStakePerBlock: per, BoostTimestamp: boost, BoostMultiplierPerStep: 3, BoostSteps: steps, BoostStepInterval: 100}
		rd := vReader{}
		prev := vBlock(0, common.Hash{}, 9, 0)
		rd[prev.Hash()] = prev
		for i := uint64(0); i < cnt; i++ {
			prev = vBlock(i+1, prev.Hash(), 0, 1)
			rd[prev.Hash()] = prev
		}
		p := NewPoSW(rd, cfg)
		div := int64(20)
		if boost != 0 && tm >= boost {
			for i := uint64(0); i < steps && tm >= boost+100*i; i++ {
				div *= 3
			}
		}
		c.Check(cfg.GetDiffDivider(tm) == uint64(div), "divider", "divider at %d with boost %d (%d steps) is %d, expected %d", tm, boost, steps, cfg.GetDiffDivider(tm), div)
		for _, diff := range []*big.Int{big.NewInt(1), big.NewInt(19), big.NewInt(20), big.NewInt(21), big.NewInt(539), big.NewInt(540), new(big.Int).Lsh(big.NewInt(1), 90)} {
			hd := types.CopyRootBlockHeader(vBlock(cnt+1, prev.Hash(), 0, 3).Header())
			hd.Difficulty, hd.Time = diff, tm
			for _, k := range []int64{-1, 0, 1, 2, 3, 4, 5, 255, 256, 257, 100000} {
				for _, off := range []int64{-1, 0, 1} {
					var stakes *big.Int
					if k >= 0 {
						stakes = new(big.Int).Mul(big.NewInt(k), per)
						stakes.Add(stakes, big.NewInt(off))
						if stakes.Sign() < 0 {
							continue
						}
					}
					want := new(big.Int).Set(diff)
					if stakes != nil && stakes.Cmp(new(big.Int).Mul(per, new(big.Int).SetUint64(cnt+1))) >= 0 {
						want.Div(want, big.NewInt(div))
					}
					got, err := p.PoSWDiffAdjust(hd, stakes, *per)
					if err != nil {
						c.Fail("error", "%v", err)
					}
					c.Check(got.Cmp(want) == 0, "adjust", "window %d, per block %v, stake %v, mined %d, difficulty %v, divider %d: adjusted %v, expected %v", win, per, stakes, cnt, diff, div, got, want)
					c.Check(hd.Difficulty.Cmp(diff) == 0, "header changed", "the header's difficulty changed")
				}
			}
		}
		for _, en := range []uint64{0, 1000} {
			for _, on := range []bool{true, false} {
				for _, num := range []uint64{0, 1, 5} {
					x := &PoSW{config: &config.POSWConfig{Enabled: on, EnableTimestamp: en}}
					c.Check(x.IsPoSWEnabled(tm, num) == (on && tm >= en && num > 0), "enabled", "enabled %v from %d at %d, block %d: %v", on, en, tm, num, x.IsPoSWEnabled(tm, num))
				}
			}
		}
		c.Step()
	})
}

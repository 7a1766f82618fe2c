package consensus

// C15 (difficulty): the adjustment formula for every parent difficulty, time and setting around its boundaries.

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
)

func c15Big(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return v
}

// c15Next is the published rule: diff + diff/factor * max(1 - gap/cutoff, -99), at least the minimum.
func c15Next(diff *big.Int, gap uint64, cutoff, factor uint32, min *big.Int) *big.Int {
	steps := int64(-99)
	if q := gap / uint64(cutoff); q < 100 {
		steps = 1 - int64(q)
	}
	unit := new(big.Int).Quo(diff, big.NewInt(int64(factor)))
	r := new(big.Int).Set(diff)
	for i := int64(0); i < steps; i++ {
		r.Add(r, unit)
	}
	for i := int64(0); i > steps; i-- {
		r.Sub(r, unit)
	}
	if r.Cmp(min) < 0 {
		r.Set(min)
	}
	return r
}

func c15Parent(root bool, time uint64, diff *big.Int) types.IBlock {
	if root {
		return types.NewRootBlock(&types.RootBlockHeader{Number: 7, Time: time, Difficulty: diff, ToTalDifficulty: big.NewInt(5), CoinbaseAmount: types.NewEmptyTokenBalances()}, nil, nil)
	}
	return types.NewMinorBlockWithHeader(&types.MinorBlockHeader{Number: 7, Time: time, Difficulty: diff, CoinbaseAmount: types.NewEmptyTokenBalances()}, &types.MinorBlockMeta{})
}

func TestVerifC15Difficulty(t *testing.T) {
	h := kit.New("C15", "Difficulty")
	defer h.Done()
	cutoffs := []uint32{1, 2, 7, 40, 45, math.MaxUint32}
	factors := []uint32{1, 2, 3, 1024, 2048, math.MaxUint32}
	diffs := []*big.Int{}
	for _, s := range []string{"1", "2", "3", "9", "10", "11", "1000", "1023", "1024", "1025", "2047", "2048", "2049", "4294967294", "4294967295", "4294967296",
		"0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0x10000000000000000", "0x10000000000000001", "0x100000000000000000000000000000001"} {
		diffs = append(diffs, c15Big(s))
	}
	times := []uint64{0, 1, 1000, math.MaxUint32, 1 << 63, math.MaxUint64}
	h.Bound("cutoffs", fmt.Sprint(cutoffs))
	h.Bound("factors", fmt.Sprint(factors))
	h.Bound("parent difficulties", len(diffs))
	h.Explore("grid", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		cutoff, factor := cutoffs[c.Choose(len(cutoffs), "cutoff")], factors[c.Choose(len(factors), "factor")]
		root := c.Bool("root")
		at := times[c.Choose(len(times), "parent time")]
		// three questions to one calculator: neither may influence the next
		for _, min := range []string{"1", "2", "10", "1000", "1025", "0x10000000000000000"} {
			calc := &EthDifficultyCalculator{AdjustmentCutoff: cutoff, AdjustmentFactor: factor, MinimumDifficulty: c15Big(min)}
			for _, d := range diffs {
				p := c15Parent(root, at, new(big.Int).Set(d))
				gaps := []uint64{0, 1, math.MaxUint32, 1 << 62, 1 << 63, math.MaxUint64 - at}
				for _, k := range []uint64{1, 2, 3, 50, 98, 99, 100, 101, 102, 1000} {
					gaps = append(gaps, k*uint64(cutoff)-1, k*uint64(cutoff), k*uint64(cutoff)+1)
				}
				for _, g := range gaps {
					if at+g < at {
						continue
					}
					c.Step()
					var r *big.Int
					var err error
					if s, v := kit.Try(func() { r, err = calc.CalculateDifficulty(p, at+g) }); v != nil {
						c.Fail("panic", "difficulty %v, gap %d, cutoff %d: %s %v", d, g, cutoff, s, v)
					}
					if err != nil {
						c.Fail("error", "difficulty %v, time %d, gap %d, cutoff %d, factor %d, min %s: %v", d, at, g, cutoff, factor, min, err)
						return
					}
					want := c15Next(d, g, cutoff, factor, c15Big(min))
					c.Check(r.Cmp(want) == 0, "formula", "parent difficulty %v at %d, gap %d, cutoff %d, factor %d, min %s: %v, expected %v", d, at, g, cutoff, factor, min, r, want)
					c.Check(p.Difficulty().Cmp(d) == 0 && calc.MinimumDifficulty.Cmp(c15Big(min)) == 0, "changed", "asking changed the parent's difficulty or the minimum")
				}
				for _, g := range []uint64{1, 2, at} {
					if at < g || g == 0 {
						continue
					}
					c.Step()
					_, err := calc.CalculateDifficulty(p, at-g)
					c.Check(err != nil, "earlier", "a block %d before its parent gets a difficulty", g)
				}
			}
		}
		c.Outcome("ok")
	})
}

package core

// C15 (chains): rewards per epoch, difficulties and limits of blocks built by the real shard and root chains
// under every setting of a grid, each block accepted by an independently opened chain that checks everything.

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/crypto"
)

func c15Floor(r *big.Rat) *big.Int { return new(big.Int).Quo(r.Num(), r.Denom()) }

func c15Rat(v *big.Int) *big.Rat { return new(big.Rat).SetInt(v) }

// c15Decayed is floor(base * factor^epoch)
func c15Decayed(base *big.Int, factor *big.Rat, epoch uint64) *big.Int {
	r := c15Rat(base)
	for i := uint64(0); i < epoch; i++ {
		r.Mul(r, factor)
	}
	return c15Floor(r)
}

func c15Next(diff int64, gap uint64, cutoff, factor, min int64) int64 {
	steps := int64(-99)
	if q := gap / uint64(cutoff); q < 100 {
		steps = 1 - int64(q)
	}
	d := diff + diff/factor*steps
	if d < min {
		d = min
	}
	return d
}

var (
	c15Amounts = []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(7), big.NewInt(999), new(big.Int).Mul(big.NewInt(5), big.NewInt(1000000000000000000)), new(big.Int).Lsh(big.NewInt(1), 90)}
	c15Decays  = []*big.Rat{big.NewRat(1, 1), big.NewRat(1, 2), big.NewRat(88, 100), big.NewRat(2, 3)}
	c15Taxes   = []*big.Rat{big.NewRat(0, 1), big.NewRat(1, 2), big.NewRat(1, 3), big.NewRat(9, 10)}
)

func c15Tax(q *config.QuarkChainConfig, tax *big.Rat) {
	q.RewardTaxRate = tax
	q.LocalFeeRate = new(big.Rat).Sub(big.NewRat(1, 1), tax)
	q.RewardCalculateRate = new(big.Rat).Quo(tax, q.LocalFeeRate)
}

const (
	c15Cutoff = 10
	c15Factor = 4
	c15Min    = 3
)

func c15Seal(b *types.MinorBlock) *types.MinorBlock {
	h := b.Header()
	h.Nonce = vSealNonce(h.SealHash(), h.Difficulty.Int64(), 0)
	return b.WithSeal(h)
}

func c15SealRoot(b *types.RootBlock, div int64) *types.RootBlock {
	h := b.Header()
	h.Nonce = vSealNonce(h.SealHash(), h.Difficulty.Int64()/div, 0)
	return b.WithSeal(h)
}

// c15Open makes a chain in which everything is checked.
func c15Open(key string, gasLimit uint64, tune func(q *config.QuarkChainConfig)) *vShard {
	return vNew(vOpt{key: key, gasLimit: gasLimit, engine: vSha256Engine(c15Cutoff, c15Factor, c15Min),
		alloc: map[account.Recipient]config.Allocation{vRecipient(0): vQkcBal(100000000)},
		tune: func(q *config.QuarkChainConfig) {
			q.SkipMinorDifficultyCheck, q.SkipRootDifficultyCheck, q.SkipRootCoinbaseCheck = false, false, false
			for _, id := range vIDs(q) {
				sc := q.GetShardConfigByFullShardID(id)
				sc.Genesis.Difficulty, sc.Genesis.Timestamp = 8, 1000
				sc.PoswConfig.Enabled = false
			}
			tune(q)
		}})
}

// an unusual block: same as the built one but with a deviating header, sealed properly; it must be refused
func c15Deviant(w *vShard, b *types.MinorBlock, change func(h *types.MinorBlockHeader)) error {
	b = vCopyMinor(b)
	h := b.Header()
	change(h)
	return w.add(c15Seal(types.NewMinorBlockWithHeader(h, b.Meta()).WithBody(b.Transactions(), b.TrackingData())))
}

// TestVerifC15Rewards: a chain of blocks across epochs for every setting of the reward.
func TestVerifC15Rewards(t *testing.T) {
	h := kit.New("C15", "Rewards")
	defer h.Done()
	blocks := kit.Tier(6, 9)
	h.Bound("blocks", blocks)
	h.Bound("base rewards", fmt.Sprint(c15Amounts))
	h.Bound("decay factors", fmt.Sprint(c15Decays))
	h.Bound("tax rates", fmt.Sprint(c15Taxes))
	h.Bound("epoch lengths", "1..3")
	h.Explore("settings", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		ia, id, it, ie := c.Choose(len(c15Amounts), "base reward"), c.Choose(len(c15Decays), "decay"), c.Choose(len(c15Taxes), "tax"), 1+c.Choose(3, "epoch length")
		amount, decay, tax, interval := c15Amounts[ia], c15Decays[id], c15Taxes[it], uint64(ie)
		key := fmt.Sprint("c15r", ia, id, it, ie)
		mk := func() *vShard {
			return c15Open(key, 1000000, func(q *config.QuarkChainConfig) {
				q.BlockRewardDecayFactor = decay
				c15Tax(q, tax)
				for _, id := range vIDs(q) {
					sc := q.GetShardConfigByFullShardID(id)
					sc.CoinbaseAmount, sc.EpochInterval = new(big.Int).Set(amount), interval
				}
			})
		}
		a, b := mk(), mk()
		defer a.close()
		defer func() { b.close() }()
		keep := new(big.Rat).Sub(big.NewRat(1, 1), tax)
		base := c15Floor(new(big.Rat).Mul(c15Rat(amount), keep))
		// where the second chain is reopened: the epoch's reward is then computed anew
		reopen := c.Choose(blocks+1, "reopened before block")
		gen := a.s.CurrentBlock()
		c.Check(gen.CoinbaseAmount().GetTokenBalance(vQKC).Cmp(base) == 0, "genesis reward", "genesis reward %v, expected %v", gen.CoinbaseAmount().GetBalanceMap(), base)
		r1 := a.root0.Header().CreateBlockToAppend(nil, big.NewInt(1), nil, nil, nil)
		for _, w := range []*vShard{a, b} {
			if _, err := w.s.AddRootBlock(vCopyRoot(r1)); err != nil {
				panic(err)
			}
		}
		before := new(big.Int)
		nonce := uint64(0)
		var done []*types.MinorBlock
		for i := 1; i <= blocks; i++ {
			if i == reopen {
				b.close()
				if err := b.open(); err != nil {
					panic(err)
				}
				if err := b.s.InitFromRootBlock(vCopyRoot(r1)); err != nil {
					panic(err)
				}
				// only confirmed blocks survive
				for _, x := range done {
					if err := b.add(x); err != nil {
						c.Fail("refused", "a block is refused when offered again after a restart: %v", err)
						return
					}
				}
			}
			if i%2 == 0 {
				tx := vTx{from: 0, to: vRecipient(1), fromKey: 2, toKey: 2, value: 1, gas: 21000, gasPrice: 7, nonce: nonce}.sign()
				nonce++
				if err := a.s.AddTx(tx); err != nil {
					panic(err)
				}
			}
			tm := gen.Time() + uint64(i)*5
			cb := vAddr(3, 2)
			blk, err := a.s.CreateBlockToMine(&tm, &cb, nil, nil, nil)
			if err != nil {
				c.Fail("build", "building block %d: %v", i, err)
				return
			}
			c.Step()
			blk = c15Seal(blk)
			// (the pool learns of a new head a moment later, so a transaction may come one block later)
			fee := c15Floor(new(big.Rat).Mul(big.NewRat(7*21000, 1), keep))
			fee.Mul(fee, big.NewInt(int64(len(blk.Transactions()))))
			want := c15Decayed(base, decay, uint64(i)/interval)
			want.Add(want, fee)
			got := blk.CoinbaseAmount().GetTokenBalance(vQKC)
			c.Check(got.Cmp(want) == 0, "reward", "block %d (epoch length %d, base %v, tax %v, decay %v): reward %v, expected %v", i, interval, amount, tax, decay, got, want)
			// the rewards of the neighbouring epochs are refused
			for _, e := range []int64{-1, 1} {
				o := int64(uint64(i)/interval) + e
				if o < 0 {
					continue
				}
				wrong := new(big.Int).Add(c15Decayed(base, decay, uint64(o)), fee)
				if wrong.Cmp(want) == 0 {
					continue
				}
				err := c15Deviant(b, blk, func(h *types.MinorBlockHeader) {
					h.CoinbaseAmount = types.NewTokenBalancesWithMap(map[uint64]*big.Int{vQKC: wrong})
				})
				c.Check(err != nil, "other epoch's reward", "block %d with the reward of epoch %d is accepted", i, o)
			}
			if err := a.add(blk); err != nil {
				c.Fail("refused", "block %d is refused by its builder: %v", i, err)
				return
			}
			if err := b.add(blk); err != nil {
				c.Fail("refused", "block %d is refused by another node: %v (reward %v)", i, err, blk.CoinbaseAmount().GetBalanceMap())
				return
			}
			done = append(done, blk)
			before.Add(before, want)
			for _, w := range []*vShard{a, b} {
				bal := w.balances(blk, vRecipient(3))[vQKC]
				if bal == nil {
					bal = new(big.Int)
				}
				c.Check(w.s.CurrentBlock().Hash() == blk.Hash() && bal.Cmp(before) == 0, "credited", "after block %d the miner holds %v, expected %v", i, bal, before)
			}
		}
		c.Outcome("ok")
	})
}

// TestVerifC15Times: every sequence of block times; difficulties and limits.
func TestVerifC15Times(t *testing.T) {
	h := kit.New("C15", "Times")
	defer h.Done()
	blocks := kit.Tier(3, 4)
	gaps := []uint64{1, 9, 10, 11, 19, 20, 21, 30, 999, 1000, 1010, 5000}
	limits := []uint64{1000000, 1000001, 12000000}
	h.Bound("blocks", blocks)
	h.Bound("time gaps", fmt.Sprint(gaps))
	h.Bound("gas limits", fmt.Sprint(limits))
	h.Explore("gaps", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		gl := limits[c.Choose(len(limits), "gas limit")]
		mk := func() *vShard { return c15Open(fmt.Sprint("c15t", gl), gl, func(q *config.QuarkChainConfig) {}) }
		a, b := mk(), mk()
		defer a.close()
		defer b.close()
		r1 := a.root0.Header().CreateBlockToAppend(nil, big.NewInt(1), nil, nil, nil)
		for _, w := range []*vShard{a, b} {
			if _, err := w.s.AddRootBlock(vCopyRoot(r1)); err != nil {
				panic(err)
			}
		}
		d, tm := int64(8), uint64(1000)
		for i := 1; i <= blocks; i++ {
			g := gaps[c.Choose(len(gaps), "gap")]
			tm += g
			now := tm
			blk, err := a.s.CreateBlockToMine(&now, nil, nil, nil, nil)
			if err != nil {
				c.Fail("build", "building block %d: %v", i, err)
				return
			}
			c.Step()
			want := c15Next(d, g, c15Cutoff, c15Factor, c15Min)
			c.Check(blk.Difficulty().Int64() == want && blk.Time() == tm, "difficulty", "block %d after %d s on difficulty %d: difficulty %v, expected %d", i, g, d, blk.Difficulty(), want)
			c.Check(blk.GasLimit().Uint64() == gl && blk.GetXShardGasLimit().Uint64() == gl/2, "limits", "block %d has limits %v and %v, configured is %d", i, blk.GasLimit(), blk.GetXShardGasLimit(), gl)
			for _, x := range []int64{-1, 1} {
				err := c15Deviant(b, blk, func(h *types.MinorBlockHeader) { h.Difficulty = big.NewInt(want + x) })
				c.Check(err != nil, "wrong difficulty", "block %d is accepted with difficulty %d instead of %d", i, want+x, want)
			}
			blk = c15Seal(blk)
			if err := a.add(blk); err != nil {
				c.Fail("refused", "block %d is refused by its builder: %v", i, err)
				return
			}
			if err := b.add(blk); err != nil {
				c.Fail("refused", "block %d is refused by another node: %v", i, err)
				return
			}
			d = want
		}
		c.Outcome("ok")
	})
}

// TestVerifC15Root: root blocks built over every setting of rewards, confirmed blocks and times.
func TestVerifC15Root(t *testing.T) {
	h := kit.New("C15", "Root")
	defer h.Done()
	blocks := 3
	h.Bound("blocks", blocks)
	gaps := []uint64{1, 9, 10, 35, 1100}
	h.Bound("time gaps", fmt.Sprint(gaps))
	sets := kit.Tier(1, 2) // settings away from the typical one
	h.Bound("deviating settings and gaps", sets)
	c15Root(h, "settings", sets, blocks, gaps, false)
	c15Root(h, "times", 0, blocks, gaps, true)
}

// all sequences of confirmed blocks, or all sequences of times; the rest deviates from the typical value at most maxDev times
func c15Root(h *kit.Harness, phase string, maxDev, blocks int, gaps []uint64, times bool) {
	h.Explore(phase, kit.Opt{MaxDev: maxDev}, func(c *kit.Case) {
		pick := func(free bool, n int, label string) int {
			if free {
				return c.Choose(n, label)
			}
			return c.Dev(n, label)
		}
		amounts := []*big.Int{big.NewInt(1000), big.NewInt(0), big.NewInt(1), big.NewInt(999), new(big.Int).Lsh(big.NewInt(120), 60)}
		ia, id, it, ie, signer := c.Dev(len(amounts), "base reward"), c.Dev(len(c15Decays), "decay"), c.Dev(len(c15Taxes), "tax"), c.Dev(3, "epoch length"), c.Dev(2, "signer") == 1
		decay, tax, interval := c15Decays[(id+2)%len(c15Decays)], c15Taxes[(it+1)%len(c15Taxes)], uint64(1+ie)
		mk := func() *vRootChain {
			return vNewRoot(vOpt{key: fmt.Sprint("c15x", ia, id, it, ie, signer), engine: vSha256Engine(c15Cutoff, c15Factor, c15Min), tune: func(q *config.QuarkChainConfig) {
				q.SkipRootDifficultyCheck, q.SkipRootCoinbaseCheck = false, false
				q.Root.Genesis.Difficulty, q.Root.Genesis.Timestamp = 2000, 1000
				q.Root.CoinbaseAmount, q.Root.EpochInterval = new(big.Int).Set(amounts[ia]), interval
				q.BlockRewardDecayFactor = decay
				c15Tax(q, tax)
				q.Root.PoSWConfig.Enabled = false
				q.GuardianPublicKey = crypto.FromECDSAPub(&vKeys[5].PublicKey)
				if signer {
					q.RootSignerPrivateKey = crypto.FromECDSA(vKeys[5])
				}
				for _, id := range vIDs(q) {
					sc := q.GetShardConfigByFullShardID(id)
					sc.ConsensusConfig.TargetBlockTime = 10
					sc.ExtraShardBlocksInRootBlock = 5
				}
			}})
		}
		a, b := mk(), mk()
		defer a.r.Stop()
		defer b.r.Stop()
		ids := vIDs(a.q)
		// what the minor blocks earned: amounts that round differently alone and together
		earn := []map[uint64]int64{{vQKC: 1}, {vQKC: 2, 99: 1}, {vQKC: 1000001}, {99: 5, 7: 1}, {}}
		last := map[uint32]*types.MinorBlockHeader{}
		share := new(big.Rat).Quo(tax, new(big.Rat).Sub(big.NewRat(1, 1), tax))
		d, td, tm, k := int64(2000), int64(2000), uint64(1000), 0
		for i := 1; i <= blocks; i++ {
			head := a.r.CurrentBlock()
			g := gaps[pick(times, len(gaps), "gap")]
			tm += g
			// which minor blocks are offered: none, one, two of one shard, two shards, and one later than the root block
			kind := pick(!times, 5, "headers")
			var hs, in []*types.MinorBlockHeader
			sum := map[uint64]*big.Rat{}
			offer := func(s uint32, late bool) {
				mh := cNextHeader(last[s], s, head.Hash(), 1, fmt.Sprint("m", k))
				mh.Time = tm
				if late {
					mh.Time = tm + 1
				}
				e := earn[(k+kind)%len(earn)]
				k++
				bal := map[uint64]*big.Int{}
				for tok, v := range e {
					bal[tok] = big.NewInt(v)
				}
				mh.CoinbaseAmount = types.NewTokenBalancesWithMap(bal)
				for _, w := range []*vRootChain{a, b} {
					w.r.AddValidatedMinorBlockHeader(mh.Hash(), mh.CoinbaseAmount.Copy())
				}
				hs = append(hs, mh)
				if late {
					return
				}
				in = append(in, mh)
				last[s] = mh
				for tok, v := range e {
					if sum[tok] == nil {
						sum[tok] = new(big.Rat)
					}
					sum[tok].Add(sum[tok], big.NewRat(v, 1))
				}
			}
			switch kind {
			case 1:
				offer(ids[0], false)
			case 2:
				offer(ids[0], false)
				offer(ids[0], false)
			case 3:
				offer(ids[0], false)
				offer(ids[1], false)
			case 4:
				offer(ids[1], false)
				offer(ids[2], true)
			}
			now := tm
			cb := vAddr(3, ids[0])
			blk, err := a.r.CreateBlockToMine(hs, &cb, &now)
			if err != nil {
				c.Fail("build", "building root block %d: %v", i, err)
				return
			}
			c.Step()
			same := len(blk.MinorBlockHeaders()) == len(in)
			for j := 0; same && j < len(in); j++ {
				same = blk.MinorBlockHeaders()[j].Hash() == in[j].Hash()
			}
			c.Check(same, "headers", "root block %d at %d holds %d of the %d blocks offered, expected %d", i, tm, len(blk.MinorBlockHeaders()), len(hs), len(in))
			want := c15Next(d, g, c15Cutoff, c15Factor, c15Min)
			td += want
			c.Check(blk.Difficulty().Int64() == want && blk.TotalDifficulty().Int64() == td && blk.Time() == tm, "difficulty", "root block %d after %d s on difficulty %d: difficulty %v total %v, expected %d and %d", i, g, d, blk.Difficulty(), blk.TotalDifficulty(), want, td)
			exp := map[uint64]*big.Int{}
			for tok, v := range sum {
				exp[tok] = c15Floor(v.Mul(v, share))
			}
			if exp[vQKC] == nil {
				exp[vQKC] = new(big.Int)
			}
			exp[vQKC].Add(exp[vQKC], c15Decayed(amounts[ia], decay, uint64(i)/interval))
			c.Check(vMapStr(exp) == vMapStr(blk.CoinbaseAmount().GetBalanceMap()), "reward", "root block %d (base %v, decay %v, epoch length %d, tax %v): reward %v, expected %v", i, amounts[ia], decay, interval, tax, vMapStr(blk.CoinbaseAmount().GetBalanceMap()), vMapStr(exp))
			div := int64(1)
			if signer {
				div = 1000
			}
			// one unit more or less of a token, or of difficulty, is refused
			for dev := 0; dev < 5; dev++ {
				hd := blk.Header()
				m := map[uint64]*big.Int{}
				for tok, v := range exp {
					m[tok] = new(big.Int).Set(v)
				}
				switch dev {
				case 0:
					m[vQKC].Add(m[vQKC], big.NewInt(1))
				case 1:
					if m[vQKC].Sign() == 0 {
						continue
					}
					m[vQKC].Sub(m[vQKC], big.NewInt(1))
				case 2:
					m[1234] = big.NewInt(1)
				case 3:
					hd.Difficulty = big.NewInt(want + 1)
					hd.ToTalDifficulty = big.NewInt(td + 1)
				case 4:
					hd.Difficulty = big.NewInt(want - 1)
					hd.ToTalDifficulty = big.NewInt(td - 1)
				}
				hd.CoinbaseAmount = types.NewTokenBalancesWithMap(m)
				hd.Signature = [65]byte{}
				bad := types.NewRootBlock(hd, blk.MinorBlockHeaders(), nil)
				if b.add(c15SealRoot(bad, 1)) == nil {
					c.Fail("accepted", "root block %d is accepted with a wrong reward or difficulty (deviation %d)", i, dev)
				}
			}
			blk = c15SealRoot(blk, div)
			for n, w := range []*vRootChain{a, b} {
				if err := w.add(blk); err != nil {
					c.Fail("refused", "root block %d is refused by node %d: %v (reward %v)", i, n, err, vMapStr(blk.CoinbaseAmount().GetBalanceMap()))
					return
				}
				c.Check(w.r.CurrentBlock().Hash() == blk.Hash(), "head", "root block %d did not become the head", i)
			}
			d = want
		}
		c.Outcome("ok")
	})
}

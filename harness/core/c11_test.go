package core

// C11 (chains): the real shard chain with staking over every short history of blocks, forks and
// stake movements, and the real root chain over every combination of staking answer and signature.

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

type c11Blk struct {
	b      *types.MinorBlock
	parent *c11Blk
	miner  int
	bal    [3]int64
	nonce  [2]uint64
}

const (
	c11Stake  = 1000
	c11Window = 3
)

// counted gives the blocks of a miner among the last window-1 blocks ending with x
func (x *c11Blk) counted(miner int) (n int64) {
	for i := 0; x != nil && i < c11Window-1; i, x = i+1, x.parent {
		if x.miner == miner {
			n++
		}
	}
	return
}

func TestVerifC11Shard(t *testing.T) {
	h := kit.New("C11", "Shard")
	defer h.Done()
	depth := kit.Tier(3, 4)
	h.Bound("blocks", depth)
	h.Bound("window", c11Window)
	opt := vOpt{
		alloc: map[account.Recipient]config.Allocation{vRecipient(0): vQkcBal(2500), vRecipient(1): vQkcBal(1999)},
		key:   "c11",
		tune: func(q *config.QuarkChainConfig) {
			for _, id := range vIDs(q) {
				p := q.GetShardConfigByFullShardID(id).PoswConfig
				p.Enabled, p.WindowSize, p.TotalStakePerBlock, p.DiffDivider = true, c11Window, big.NewInt(c11Stake), 20
				q.GetShardConfigByFullShardID(id).CoinbaseAmount = new(big.Int)
			}
		},
	}
	h.Explore("histories", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		w := vNew(opt)
		defer w.close()
		gen := &c11Blk{b: w.s.CurrentBlock(), miner: 99}
		gen.bal = [3]int64{2500, 1999, 0}
		blks := []*c11Blk{gen}
		// an empty root block, so that the shard is initialised
		r1 := vRoot(w.root0, 10, vAddr(5, 2), 0, 1)
		if _, err := w.s.AddRootBlock(r1); err != nil {
			panic(err)
		}
		check := func() {
			for i, x := range blks {
				for m := 0; m < 3; m++ {
					for _, k := range []int{0, 20, 40} {
						hd := x.b.CreateBlockToAppend(nil, nil, nil, nil, w.gl, w.xgl, nil, nil, nil).Header()
						hd.Coinbase = vAddr(m, 2)
						hd.Difficulty = big.NewInt(int64(1000 + k))
						want := hd.Difficulty.Int64()
						cnt := x.counted(m)
						if x.bal[m]/c11Stake > cnt {
							want /= 20
						}
						got, div, err := w.s.GetAdjustedDifficulty(hd)
						if err != nil {
							c.Fail("error", "adjusted difficulty: %v", err)
						}
						c.Check(div == 1 && got.Int64() == want, "difficulty", "miner %d on block %d (stake %d, %d in the window): difficulty %v, expected %d", m, i, x.bal[m], cnt, got, want)
					}
				}
			}
		}
		for i := 0; i < depth; i++ {
			p := blks[len(blks)-1]
			if len(blks) > 2 && c.Choose(2, "fork") == 1 {
				p = p.parent
			}
			x := &c11Blk{parent: p, miner: c.Choose(2, "miner"), bal: p.bal, nonce: p.nonce}
			var txs []*types.Transaction
			var wantOK []bool
			most := 2
			if i == depth-1 {
				most = 3
			}
			from, v := 0, int64(500)
			for n, all := c.Choose(most, "transactions"), true; n > 0; n-- {
				if all {
					from = c.Choose(2, "from")
					v = []int64{500, 501, 999, 1500}[c.Choose(4, "value")]
					all = false
				} else {
					v = 500
				}
				if v > x.bal[from] {
					c.Stop()
				}
				txs = append(txs, vTx{from: from, to: vRecipient(2), toKey: 2, fromKey: 2, value: v, nonce: x.nonce[from], gas: 21000}.sign())
				x.nonce[from]++
				held := p.counted(from)
				if x.miner == from {
					held++
				}
				ok := v+held*c11Stake <= x.bal[from] || held == 0
				if ok {
					x.bal[from] -= v
					x.bal[2] += v
				}
				wantOK = append(wantOK, ok)
			}
			nb, rs, err := w.mine(w.block(p.b, w.root0, vAddr(x.miner, 2), byte(i), txs...))
			if err != nil {
				c.Fail("block", "a block with staking was refused: %v", err)
			}
			c.Check(len(rs) >= len(wantOK), "receipts", "%d receipts for %d transactions", len(rs), len(wantOK))
			// the receipts of what arrived from other shards follow
			for k, r := range rs[:len(wantOK)] {
				c.Check((r.Status == types.ReceiptStatusSuccessful) == wantOK[k], "locked stake", "transfer %d of block %d by the miners %v: status %d, expected success %v (balances now %v)", k, i, x.miner, r.Status, wantOK[k], x.bal)
			}
			x.b = nb
			for m := 0; m < 3; m++ {
				got := w.balances(nb, vRecipient(m))[vQKC]
				if got == nil {
					got = new(big.Int)
				}
				c.Check(got.Int64() == x.bal[m], "stake moved", "account %d has %v after block %d, expected %d", m, got, i, x.bal[m])
			}
			blks = append(blks, x)
			c.Step()
			check()
		}
		c.State(fmt.Sprint(len(blks), blks[len(blks)-1].bal))
	})
	// a contract with a stake, and what it tries to move out in its own name
	kinds := []string{"call", "call twice", "create", "self-destruct", "call in a call"}
	x := vRecipient(2)
	call := "600060006000600060003573" + ethcommon.Bytes2Hex(x[:]) + "612710f150"
	codes := []string{call + "00", call + call + "00", "60006000600035f05000", "73" + ethcommon.Bytes2Hex(x[:]) + "ff"}
	codes = append(codes, call+"00")
	h.Explore("contracts", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		kind := c.Choose(len(kinds), "kind")
		k, outer := account.Recipient{0xc1, 1}, account.Recipient{0xc1, 2}
		o := opt
		o.key = fmt.Sprint("c11 contract ", kind)
		// calls the contract with the word it was called with
		fwd := "6000356000526000600060206000600073" + ethcommon.Bytes2Hex(k[:]) + "620186a0f15000"
		o.alloc = map[account.Recipient]config.Allocation{vRecipient(0): vQkcBal(2500), vRecipient(1): vQkcBal(1999),
			k:     {Balances: map[string]*big.Int{"QKC": big.NewInt(2500)}, Code: ethcommon.FromHex(codes[kind])},
			outer: {Balances: map[string]*big.Int{}, Code: ethcommon.FromHex(fwd)}}
		w := vNew(o)
		defer w.close()
		if _, err := w.s.AddRootBlock(vRoot(w.root0, 10, vAddr(5, 2), 0, 1)); err != nil {
			panic(err)
		}
		at := account.NewAddress(k, 2)
		b := w.s.CurrentBlock()
		n := int64(0)
		before := c.Choose(4, "blocks before")
		for i := 0; i <= before; i++ {
			mine := c.Choose(2, "mined by the contract") == 1
			miner := vAddr(1, 2)
			if mine {
				miner = at
				if i+c11Window > before {
					n++
				}
			}
			var txs []*types.Transaction
			if i == before {
				v := []int64{0, 1, 500, 501, 1500, 1501, 2500}[c.Choose(7, "value")]
				to := k
				if kinds[kind] == "call in a call" {
					to = outer
				}
				txs = append(txs, vTx{from: 0, to: to, toKey: 2, fromKey: 2, gas: 400000, data: ethcommon.BigToHash(big.NewInt(v)).Bytes()}.sign())
				left, moved := int64(2500), int64(0)
				free := func(v int64) bool { return v <= left && (n == 0 || v+n*c11Stake <= left) }
				switch kinds[kind] {
				case "call twice":
					if free(v) {
						left, moved = left-v, moved+v
					}
					fallthrough
				case "call", "call in a call":
					if free(v) {
						left, moved = left-v, moved+v
					}
				case "create":
					if free(v) {
						left -= v
					}
				case "self-destruct":
					if free(2500) {
						left, moved = 0, 2500
					}
				}
				nb, _, err := w.mine(w.block(b, w.root0, miner, byte(i), txs...))
				if err != nil {
					c.Fail("block", "a block with staking was refused: %v", err)
				}
				bal := func(a account.Recipient) int64 {
					if g := w.balances(nb, a)[vQKC]; g != nil {
						return g.Int64()
					}
					return 0
				}
				c.Check(bal(k) == left && bal(x) == moved, "contract stake: "+kinds[kind], "%s of %d by a contract with 2500, %d blocks in the window: it has %d and the recipient %d, expected %d and %d", kinds[kind], v, n, bal(k), bal(x), left, moved)
				c.State(fmt.Sprint(kind, n, left, moved))
				break
			}
			nb, _, err := w.mine(w.block(b, w.root0, miner, byte(i)))
			if err != nil {
				c.Fail("block", "a block with staking was refused: %v", err)
			}
			b = nb
			c.Step()
		}
	})
	h.Explore("decay", kit.Opt{MaxDev: -1, Workers: 4}, func(c *kit.Case) {
		from := []uint64{0, 1000}[c.Choose(2, "decay from")]
		o := opt
		o.key = ""
		o.tune = func(q *config.QuarkChainConfig) {
			opt.tune(q)
			q.EnablePoswStakingDecayTimestamp = from
			q.BlockRewardDecayFactor = big.NewRat(3, 4)
			for _, id := range vIDs(q) {
				q.GetShardConfigByFullShardID(id).EpochInterval = 10
				q.GetShardConfigByFullShardID(id).PoswConfig.TotalStakePerBlock = big.NewInt(1001)
			}
		}
		w := vNew(o)
		defer w.close()
		asked := map[uint64]bool{}
		for i := 0; i < kit.Tier(2, 3); i++ {
			num := []uint64{1, 9, 10, 19, 20, 35}[c.Choose(6, "height")]
			tm := []uint64{999, 1000, 5000}[c.Choose(3, "time")]
			want := big.NewInt(1001)
			if from != 0 && tm >= from {
				n, d := big.NewInt(1), big.NewInt(1)
				for e := uint64(0); e < num/10; e++ {
					n.Mul(n, big.NewInt(3))
					d.Mul(d, big.NewInt(4))
				}
				want.Mul(want, n).Div(want, d)
			}
			got := w.s.DecayByHeightAndTime(num, tm)
			c.Check(got.Cmp(want) == 0, "decay", "stake per block at height %d, time %d (decay from %d, asked before %v): %v, expected %v", num, tm, from, asked, &got, want)
			asked[num] = true
			c.Step()
		}
	})
}

func TestVerifC11Root(t *testing.T) {
	h := kit.New("C11", "Root")
	defer h.Done()
	h.Explore("answers", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		confirmed := c.Choose(2, "shard confirmed") == 0
		mined := c.Choose(3, "mined")
		stakes := []*big.Int{nil, big.NewInt(0), big.NewInt(99), big.NewInt(100), big.NewInt(199), big.NewInt(200), big.NewInt(300), big.NewInt(100000)}[c.Choose(8, "stake")]
		signer := c.Choose(4, "registered signer") // 0 key 3, 1 none, 2 zero, 3 error
		sig := c.Choose(6, "signature")
		o := vOpt{chains: 1, shards: 1, tune: func(q *config.QuarkChainConfig) {
			q.GuardianPublicKey = crypto.FromECDSAPub(&vKeys[4].PublicKey)
			p := q.Root.PoSWConfig
			p.Enabled, p.WindowSize, p.TotalStakePerBlock, p.DiffDivider = true, 4, big.NewInt(100), 30
		}, key: "c11root"}
		w := vNewRoot(o)
		defer w.r.Stop()
		var askedFor []account.Address
		var askedAt []ethcommon.Hash
		w.r.SetRootChainStakesFunc(func(a account.Address, last ethcommon.Hash) (*big.Int, *account.Recipient, error) {
			askedFor, askedAt = append(askedFor, a), append(askedAt, last)
			switch signer {
			case 0:
				r := vRecipient(3)
				return stakes, &r, nil
			case 1:
				return stakes, nil, nil
			case 2:
				return stakes, &account.Recipient{}, nil
			}
			return nil, nil, fmt.Errorf("no answer")
		})
		miner := vAddr(1, 1)
		prev := w.gen
		var last *types.MinorBlockHeader
		// the last confirmed block of chain 0 shard 0 as the chain records it
		latest := map[uint32]*types.MinorBlockHeader{}
		for i := 0; i < 3; i++ {
			who := vAddr(2, 1)
			if i < mined {
				who = miner
			}
			b := vRoot(prev, 10, who, 0, byte(i))
			if confirmed {
				last = vHeader(1, uint64(i), prev.Hash(), i)
				latest = map[uint32]*types.MinorBlockHeader{1: last}
			}
			w.r.SetLatestMinorBlockHeaders(b.Hash(), latest)
			if err := w.add(b); err != nil {
				// the stand-in chain must take it
				panic(err)
			}
			w.r.SetLatestMinorBlockHeaders(b.Hash(), latest)
			prev = b
		}
		hd := prev.Header().CreateBlockToAppend(nil, big.NewInt(60000), &miner, nil, nil).Header()
		key := -1
		switch sig {
		case 0: // the registered signer
			key = 3
		case 1: // the guardian
			key = 4
		case 2: // the miner itself
			key = 1
		case 3: // nobody
		case 4: // of another header
			key = 3
		case 5: // the signer, over the header, damaged
			key = 3
		}
		if key >= 0 {
			x := hd
			if sig == 4 {
				x = types.CopyRootBlockHeader(hd)
				x.Time++
			}
			s, err := crypto.Sign(x.SealHash().Bytes(), vKeys[key])
			if err != nil {
				panic(err)
			}
			copy(hd.Signature[:], s)
			if sig == 5 {
				hd.Signature[10] ^= 1
			}
		}
		diff, div, err := w.r.GetAdjustedDifficulty(hd)
		if err != nil {
			c.Fail("error", "%v", err)
		}
		want := int64(60000)
		entitled := confirmed && signer == 0 && sig == 0 && stakes != nil && stakes.Int64()/100 > int64(mined)
		if sig == 1 {
			want = 60
		} else if entitled {
			want = 60000 / 30
		}
		got := new(big.Int).Div(diff, new(big.Int).SetUint64(div))
		c.Check(got.Int64() == want, "root difficulty", "confirmed %v, %d mined, stake %v, signer kind %d, signature kind %d: difficulty %v, expected %d", confirmed, mined, stakes, signer, sig, got, want)
		for i := range askedFor {
			c.Check(askedFor[i] == miner && askedAt[i] == last.Hash(), "stake question", "stakes of %v at %x were asked for", askedFor[i], askedAt[i])
		}
		c.Step()
		// before it is signed, the miner is told what its stake may buy
		diff, div, err = w.r.GetAdjustedDifficultyToMine(prev.Header().CreateBlockToAppend(nil, big.NewInt(60000), &miner, nil, nil).Header())
		if err != nil {
			c.Fail("error", "%v", err)
		}
		want, wd := int64(60000), uint64(1)
		if confirmed && signer != 3 && stakes != nil && stakes.Int64()/100 > int64(mined) {
			wd = 30
		}
		c.Check(diff.Int64() == want && div == wd, "root work", "confirmed %v, %d mined, stake %v: work %v divider %d, expected divider %d", confirmed, mined, stakes, diff, div, wd)
		c.Step()
	})
}

package doublesha256

// C19 (engine side): every short sequence of new work and new heads against the real engine in
// remote mode; after each step every obtaining of work and every submission of a menu is made and
// compared with a table of the work handed out. The proof of work is recomputed here.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/ethash"
	"github.com/QuarkChain/goquarkchain/consensus/qkchash"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

var (
	vTwo256 = new(big.Int).Lsh(big.NewInt(1), 256)
	vDiff   = big.NewInt(6000)
	vCalc   = &consensus.EthDifficultyCalculator{AdjustmentCutoff: 7, AdjustmentFactor: 512, MinimumDifficulty: big.NewInt(10)}
)

func vKey(b byte) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(bytes.Repeat([]byte{b}, 32))
	if err != nil {
		panic(err)
	}
	return k
}

var vGuardian, vOther = vKey(7), vKey(9)

func vAddr(b byte) account.Address {
	return account.NewAddress(common.BytesToAddress(bytes.Repeat([]byte{b}, 20)), 0)
}

// vPow is the double SHA-256 of seal hash and nonce (big endian)
func vPow(h common.Hash, nonce uint64) *big.Int {
	var b [40]byte
	copy(b[:], h[:])
	binary.BigEndian.PutUint64(b[32:], nonce)
	x := sha256.Sum256(b[:])
	x = sha256.Sum256(x[:])
	return new(big.Int).SetBytes(x[:])
}

func vMeets(h common.Hash, nonce uint64, diff *big.Int) bool {
	if diff.Sign() == 0 {
		return true
	}
	return vPow(h, nonce).Cmp(new(big.Int).Div(vTwo256, diff)) <= 0
}

var (
	vNonceMu sync.Mutex
	vNonces  = map[common.Hash][]uint64{}
)

// vNoncesOf gives nonces meeting the full difficulty, only a 20th, only a 1000th, and none
func vNoncesOf(h common.Hash) []uint64 {
	vNonceMu.Lock()
	defer vNonceMu.Unlock()
	if r := vNonces[h]; r != nil {
		return r
	}
	lim := []*big.Int{vDiff, big.NewInt(300), big.NewInt(6), big.NewInt(1)}
	r := make([]uint64, 4)
	for i := range r {
		for n := uint64(1); ; n++ {
			if i == 3 {
				if !vMeets(h, n, lim[2]) {
					r[i] = n
					break
				}
			} else if vMeets(h, n, lim[i]) && (i == 0 || !vMeets(h, n, lim[i-1])) {
				r[i] = n
				break
			}
		}
	}
	vNonces[h] = r
	return r
}

type vWork struct {
	block types.IBlock
	diff  *big.Int
	div   uint64
}

var vSigCache = struct {
	sync.Mutex
	m map[string]*[65]byte
}{m: map[string]*[65]byte{}}

func vSig(kind int, h common.Hash) *[65]byte {
	id := fmt.Sprint(kind, h)
	vSigCache.Lock()
	defer vSigCache.Unlock()
	if s := vSigCache.m[id]; s != nil {
		return s
	}
	s := new([65]byte)
	sign := func(k *ecdsa.PrivateKey, h common.Hash) {
		b, err := crypto.Sign(h[:], k)
		if err != nil {
			panic(err)
		}
		copy(s[:], b)
	}
	switch kind {
	case 0:
		return nil
	case 1: // guardian
		sign(vGuardian, h)
	case 2: // somebody else
		sign(vOther, h)
	case 3: // guardian, of something else
		sign(vGuardian, crypto.Keccak256Hash(h[:]))
	case 4: // not a signature
	}
	vSigCache.m[id] = s
	return s
}

func vRootBlock(number uint64, who byte, variant byte) *types.RootBlock {
	mh := &types.MinorBlockHeader{Number: 3, Difficulty: big.NewInt(5), GasLimit: &serialize.Uint256{Value: big.NewInt(1)}, CoinbaseAmount: types.NewEmptyTokenBalances()}
	h := &types.RootBlockHeader{
		Number: uint32(number), Coinbase: vAddr(who), ParentHash: common.BytesToHash([]byte{byte(number), variant}),
		Difficulty: new(big.Int).Set(vDiff), ToTalDifficulty: big.NewInt(99), Time: 1000 + uint64(variant),
		CoinbaseAmount: types.NewEmptyTokenBalances(), Extra: []byte{1},
	}
	return types.NewRootBlock(h, types.MinorBlockHeaders{mh}, []byte("track"))
}

func vMinorBlock(number uint64, who byte, variant byte) *types.MinorBlock {
	h := &types.MinorBlockHeader{
		Branch: account.Branch{Value: 2}, Number: number, Coinbase: vAddr(who), ParentHash: common.BytesToHash([]byte{byte(number), variant}),
		Difficulty: new(big.Int).Set(vDiff), Time: 1000 + uint64(variant), GasLimit: &serialize.Uint256{Value: big.NewInt(77)},
		CoinbaseAmount: types.NewEmptyTokenBalances(), Extra: []byte{1},
	}
	z := func() *serialize.Uint256 { return &serialize.Uint256{Value: new(big.Int)} }
	m := &types.MinorBlockMeta{GasUsed: z(), CrossShardGasUsed: z(), XShardGasLimit: z(), XShardTxCursorInfo: &types.XShardTxCursorInfo{RootBlockHeight: 4}}
	return types.NewMinorBlock(h, m, nil, nil, []byte("track"))
}

// vBody gives everything of a block except nonce, mix and signature
func vBody(b types.IBlock) string {
	switch x := b.(type) {
	case *types.RootBlock:
		s := fmt.Sprintf("%x %x", x.IHeader().SealHash(), x.TrackingData())
		for _, h := range x.MinorBlockHeaders() {
			s += fmt.Sprintf(" %x", h.Hash())
		}
		return s
	case *types.MinorBlock:
		return fmt.Sprintf("%x %x %x %d", x.IHeader().SealHash(), x.Meta().Hash(), x.TrackingData(), len(x.Transactions()))
	}
	return "?"
}

func TestVerifC19Works(t *testing.T) {
	h := kit.New("C19", "Works")
	defer h.Done()
	depth := kit.Tier(4, 5)
	h.Bound("steps", depth)
	h.Bound("new work menu", 8)
	h.Bound("submissions observed after each sequence", "every known work × 4 nonces × 5 signatures, twice")
	pub := crypto.FromECDSAPub(&vGuardian.PublicKey)
	h.Explore("sequences", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		root := c.Choose(2, "root") == 0
		n := c.Choose(depth, "steps") + 1
		mk := func(number uint64, who, v byte) types.IBlock {
			if root {
				return vRootBlock(number, who, v)
			}
			return vMinorBlock(number, who, v)
		}
		e := New(vCalc, true, pub)
		defer e.Close()
		results := make(chan types.IBlock, 4000)
		cur := map[account.Address]*vWork{}
		var known []*vWork // the latest work of each block ever given
		var last uint64
		tip := uint64(0)
		for i := 0; i < n; i++ {
			op := c.Choose(10, "op")
			switch {
			case op < 8:
				w := &vWork{div: 1}
				switch op {
				case 0:
					w.block, w.diff = mk(5, 1, 0), vDiff
				case 1:
					w.block, w.diff, w.div = mk(5, 1, 1), vDiff, 20
				case 2:
					w.block, w.diff = mk(6, 1, 0), big.NewInt(300)
				case 3:
					w.block, w.diff = mk(5, 2, 0), vDiff
				case 4:
					w.block, w.diff = mk(12, 2, 0), nil // as the block says
				case 5:
					w.block, w.diff, w.div = mk(13, 1, 0), vDiff, 20
				case 6:
					w.block, w.diff, w.div = mk(6, 2, 0), vDiff, 20
				case 7:
					w.block, w.diff = mk(5, 1, 0), big.NewInt(300) // the block of op 0, with stake by now
				}
				if err := e.Seal(nil, w.block, w.diff, w.div, results, nil); err != nil {
					c.Fail("seal", "remote Seal failed: %v", err)
				}
				if w.diff == nil {
					w.diff = vDiff
				}
				k := 0
				for ; k < len(known); k++ {
					if known[k].block.IHeader().SealHash() == w.block.IHeader().SealHash() {
						known[k] = w
						break
					}
				}
				if k == len(known) {
					known = append(known, w)
				}
				if w.block.NumberU64() > tip {
					cur[w.block.Coinbase()] = w
				}
				last = w.block.NumberU64()
			case op == 8:
				tip = 4
				e.RefreshWork(tip)
				cur = map[account.Address]*vWork{}
			case op == 9:
				tip = 5
				e.RefreshWork(tip)
				cur = map[account.Address]*vWork{}
			}
			c.Step()
			// the engine takes new work before it answers
			for who := byte(1); who <= 3; who++ {
				got, err := e.GetWork(vAddr(who))
				want := cur[vAddr(who)]
				if want == nil {
					c.Check(err == consensus.ErrNoMiningWork, "stale work handed out", "miner %d got work (%v, %v) though there is none since the last head", who, got, err)
					continue
				}
				if err != nil {
					c.Fail("no work", "miner %d got no work though work was given: %v", who, err)
				}
				c.Check(got.HeaderHash == want.block.IHeader().SealHash() && got.Number == want.block.NumberU64() &&
					got.Difficulty.Cmp(want.diff) == 0 && got.OptionalDivider == want.div,
					"other work", "miner %d was handed %x/%d diff %v divider %d instead of %x/%d diff %v divider %d", who,
					got.HeaderHash, got.Number, got.Difficulty, got.OptionalDivider, want.block.IHeader().SealHash(), want.block.NumberU64(), want.diff, want.div)
			}
		}
		for round := 0; round < 2; round++ {
			for _, w := range known {
				hash := w.block.IHeader().SealHash()
				before := vBody(w.block)
				fresh := false
				for _, x := range cur {
					if x == w {
						fresh = true
					}
				}
				for ni, nonce := range vNoncesOf(hash) {
					for sk := 0; sk < 5; sk++ {
						sig := vSig(sk, hash)
						diff := w.diff
						if sig != nil && w.diff.Cmp(vDiff) == 0 {
							if sk == 1 {
								diff = new(big.Int).Div(vDiff, big.NewInt(1000))
							} else {
								diff = new(big.Int).Div(vDiff, new(big.Int).SetUint64(w.div))
							}
						}
						mix := common.BytesToHash([]byte{byte(ni), byte(sk)})
						want := fresh && vMeets(hash, nonce, diff) && w.block.NumberU64()+7 > last
						got := e.SubmitWork(nonce, hash, mix, sig)
						what := fmt.Sprintf("nonce kind %d, signature kind %d, work %d (miner %x, divider %d, diff %v), fresh %v, last height %d", ni, sk, w.block.NumberU64(), w.block.Coinbase().Recipient[0], w.div, w.diff, fresh, last)
						if want && !got {
							c.Fail("right solution refused", "a right solution was refused: %s", what)
						}
						if got && !want {
							c.Fail("wrong solution accepted", "a wrong or stale solution was accepted: %s", what)
						}
						var out types.IBlock
						select {
						case out = <-results:
						default:
						}
						c.Check((out != nil) == got, "block for submission", "submission answered %v but block emitted: %v (%s)", got, out != nil, what)
						if out != nil {
							c.Check(vBody(out) == before, "content", "the sealed block differs from the work: %s instead of %s", vBody(out), before)
							c.Check(out.IHeader().GetNonce() == nonce && out.IHeader().GetMixDigest() == mix, "seal fields", "nonce or mix not taken")
							if r, ok := out.(*types.RootBlock); ok {
								ws := [65]byte{}
								if sig != nil {
									ws = *sig
								}
								c.Check(r.Header().Signature == ws, "signature", "the signature of the sealed block is not the submitted one")
							}
							c.Check(e.VerifySeal(nil, out.IHeader(), diff) == nil, "verify", "the sealed block does not verify at the difficulty it was accepted for")
						}
						c.Check(vBody(w.block) == before && w.block.IHeader().GetNonce() == 0, "work changed", "submission changed the work")
						c.Step()
					}
				}
				if got := e.SubmitWork(1, crypto.Keccak256Hash(hash[:]), common.Hash{}, vSig(1, hash)); got {
					c.Fail("unknown work", "a solution for unknown work was accepted")
				}
			}
		}
		c.State(fmt.Sprint(root, len(known), len(cur), tip, last))
	})
	h.Explore("full queue", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		capacity := c.Choose(3, "capacity")
		e := New(vCalc, true, pub)
		defer e.Close()
		results := make(chan types.IBlock, capacity)
		b := vRootBlock(5, 1, 0)
		e.Seal(nil, b, nil, 1, results, nil)
		hash := b.IHeader().SealHash()
		for i := 0; i < 4; i++ {
			got := e.SubmitWork(vNoncesOf(hash)[0], hash, common.Hash{byte(i)}, nil)
			c.Check(got == (i < capacity), "queue", "submission %d with a queue of %d answered %v", i, capacity, got)
			c.Check(len(results) <= i+1, "queue", "queue length %d", len(results))
			c.Step()
		}
	})
}

// TestVerifC19Verify: the verdict on a seal depends on the header and the difficulty only.
func TestVerifC19Verify(t *testing.T) {
	h := kit.New("C19", "Verify")
	defer h.Done()
	depth := kit.Tier(4, 5)
	type q struct {
		hd   types.IHeader
		diff *big.Int
	}
	var qs []q
	for _, root := range []bool{true, false} {
		var b types.IBlock = vRootBlock(5, 1, 0)
		if !root {
			b = vMinorBlock(5, 1, 0)
		}
		ns := vNoncesOf(b.IHeader().SealHash())
		for _, n := range []uint64{ns[0], ns[1], ns[3]} {
			for _, d := range []int64{6000, 300, 6} {
				if root || (n != ns[0] && d != 6) {
					qs = append(qs, q{b.WithMingResult(n, common.Hash{}, nil).IHeader(), big.NewInt(d)})
				}
			}
		}
	}
	// headers which differ from a sealed one in one field only
	b := vRootBlock(5, 1, 0)
	n := vNoncesOf(b.IHeader().SealHash())[0]
	alt := func(f func(*types.RootBlockHeader)) {
		x := types.CopyRootBlockHeader(b.WithMingResult(n, common.Hash{}, nil).IHeader().(*types.RootBlockHeader))
		f(x)
		qs = append(qs, q{x, vDiff})
	}
	alt(func(x *types.RootBlockHeader) { x.Time++ })
	alt(func(x *types.RootBlockHeader) { x.Coinbase = vAddr(2) })
	alt(func(x *types.RootBlockHeader) { x.Difficulty = big.NewInt(6001) })
	alt(func(x *types.RootBlockHeader) { x.Signature[3] = 1 })
	alt(func(x *types.RootBlockHeader) { x.MixDigest[3] = 1 })
	alt(func(x *types.RootBlockHeader) { x.Difficulty = big.NewInt(0) })
	alt(func(x *types.RootBlockHeader) { x.Nonce = x.Nonce ^ 1<<63 })
	want := make([]bool, len(qs))
	for i, x := range qs {
		want[i] = x.hd.GetDifficulty().Sign() > 0 && vMeets(x.hd.SealHash(), x.hd.GetNonce(), x.diff)
	}
	h.Bound("questions", len(qs))
	h.Bound("questions in a sequence", depth)
	h.Explore("sequences", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		e := New(vCalc, false, nil)
		for i := 0; i < depth; i++ {
			k := c.Choose(len(qs), "question")
			err := e.VerifySeal(nil, qs[k].hd, new(big.Int).Set(qs[k].diff))
			c.Check((err == nil) == want[k], "verdict", "question %d (number %d nonce %d at difficulty %v) at position %d: %v, expected ok=%v",
				k, qs[k].hd.NumberU64(), qs[k].hd.GetNonce(), qs[k].diff, i, err, want[k])
			c.Step()
		}
	})
	// every engine seals what it verifies, and only that
	eth := ethash.New(ethash.Config{CachesInMem: 3, CachesOnDisk: 0, PowMode: ethash.ModeTest}, vCalc, false, nil)
	qk := qkchash.New(vCalc, false, nil, 10)
	h.Explore("engines", kit.Opt{MaxDev: -1, Workers: 3}, func(c *kit.Case) {
		var e consensus.Engine
		kind := c.Choose(3, "engine")
		switch kind {
		case 0:
			e = New(vCalc, false, nil)
		case 1:
			e = eth
		case 2:
			e = qk
		}
		number := []uint64{1, 9, 10, 30000}[c.Choose(4, "number")]
		if kind == 2 && number == 30000 {
			c.Stop() // building 64 caches takes too long
		}
		root := c.Choose(2, "root") == 0
		diff := big.NewInt([]int64{1, 7, 40}[c.Choose(3, "difficulty")])
		var b types.IBlock = vRootBlock(number, 1, 0)
		if !root {
			b = vMinorBlock(number, 1, 0)
		}
		res := make(chan types.IBlock, 1)
		stop := make(chan struct{})
		e.SetThreads(1)
		if err := e.Seal(nil, b, diff, 1, res, stop); err != nil {
			c.Fail("seal", "local sealing failed: %v", err)
		}
		out := <-res
		close(stop)
		c.Check(vBody(out) == vBody(b), "content", "the sealed block differs from the work")
		hd := out.IHeader()
		c.Check(e.VerifySeal(nil, hd, diff) == nil, "own seal", "engine %d does not accept the seal it made for difficulty %v: %v", kind, diff, e.VerifySeal(nil, hd, diff))
		// the same header with another nonce or mix
		other := 0
		for i := uint64(1); i <= 40; i++ {
			x := b.WithMingResult(hd.GetNonce()+i, hd.GetMixDigest(), nil).IHeader()
			ok := e.VerifySeal(nil, x, big.NewInt(1<<40)) == nil
			if kind == 0 {
				ok = (e.VerifySeal(nil, x, diff) == nil) != vMeets(x.SealHash(), x.GetNonce(), diff)
			}
			if ok {
				other++
			}
			c.Step()
		}
		c.Check(other == 0, "other seal", "engine %d accepts %d of 40 wrong seals", kind, other)
		if kind != 0 {
			m := hd.GetMixDigest()
			m[31] ^= 1
			c.Check(e.VerifySeal(nil, b.WithMingResult(hd.GetNonce(), m, nil).IHeader(), diff) != nil, "mix", "engine %d accepts a wrong mix", kind)
		}
	})
}

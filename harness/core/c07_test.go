package core

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// ---- sealing with the real (double SHA-256) proof of work -------------------------------------------

var vTwo256 = new(big.Int).Lsh(big.NewInt(1), 256)

func vPow(seal ethcommon.Hash, nonce uint64) *big.Int {
	var b [40]byte
	copy(b[:], seal[:])
	binary.BigEndian.PutUint64(b[32:], nonce)
	h := sha256.Sum256(b[:])
	h = sha256.Sum256(h[:])
	return new(big.Int).SetBytes(h[:])
}

// vSealNonce finds a nonce whose result is at most 2^256/diff and, if notBelow is positive, above 2^256/notBelow.
func vSealNonce(seal ethcommon.Hash, diff, harder int64) uint64 {
	if diff < 1 {
		diff = 1
	}
	target := new(big.Int).Div(vTwo256, big.NewInt(diff))
	var hard *big.Int
	if harder > 0 {
		hard = new(big.Int).Div(vTwo256, big.NewInt(harder))
	}
	for n := uint64(0); ; n++ {
		r := vPow(seal, n)
		if r.Cmp(target) <= 0 && (hard == nil || r.Cmp(hard) > 0) {
			return n
		}
	}
}

// vBadNonce finds a nonce that does not meet the difficulty.
func vBadNonce(seal ethcommon.Hash, diff int64) uint64 {
	target := new(big.Int).Div(vTwo256, big.NewInt(diff))
	for n := uint64(0); ; n++ {
		if vPow(seal, n).Cmp(target) > 0 {
			return n
		}
	}
}

func vSignRoot(h *types.RootBlockHeader, key int) {
	sig, err := crypto.Sign(h.SealHash().Bytes(), vKeys[key])
	if err != nil {
		panic(err)
	}
	copy(h.Signature[:], sig)
}

// ---- scenario ---------------------------------------------------------------------------------------

const (
	c07Reward  = 1000
	c07MaxPer  = 2 // blocks of one shard in one root block
	c07Extra   = 8 // limit of the extra data
	c07MinDiff = 2
	c07Factor  = 4
	c07Cutoff  = 40
	c07Epoch   = 2
)

type c07World struct {
	*vRootChain
	r1, r1x, r2s *cRoot
	gen0         *cRoot
	reward       map[ethcommon.Hash]map[uint64]int64
	pool         []*types.MinorBlockHeader
	names        []string
	valid        map[ethcommon.Hash]bool
	ids          []uint32
}

func c07Engine() consensus.Engine { return vSha256Engine(c07Cutoff, c07Factor, c07MinDiff) }

func vSha256Engine(cutoff, factor uint32, min int64) consensus.Engine {
	return doublesha256.New(&consensus.EthDifficultyCalculator{AdjustmentCutoff: cutoff, AdjustmentFactor: factor, MinimumDifficulty: big.NewInt(min)}, false, []byte{})
}

func c07New(genDiff uint64, checkDiff bool) *c07World {
	w := &c07World{reward: map[ethcommon.Hash]map[uint64]int64{}, valid: map[ethcommon.Hash]bool{}}
	w.vRootChain = vNewRoot(vOpt{key: fmt.Sprint("c07", genDiff, checkDiff), engine: c07Engine(), tune: func(q *config.QuarkChainConfig) {
		q.SkipRootCoinbaseCheck = false
		q.SkipRootDifficultyCheck = !checkDiff
		q.Root.Genesis.Difficulty = genDiff
		q.Root.Genesis.Timestamp = 1000
		q.Root.CoinbaseAmount = big.NewInt(c07Reward)
		q.Root.EpochInterval = c07Epoch
		q.BlockExtraDataSizeLimit = c07Extra
		q.GuardianPublicKey = crypto.FromECDSAPub(&vKeys[5].PublicKey)
		q.RewardCalculateRate = big.NewRat(1, 3)
		q.Root.PoSWConfig.Enabled = false
		q.Root.ConsensusConfig.TargetBlockTime = 10
		for i, id := range vIDs(q) {
			sc := q.GetShardConfigByFullShardID(id)
			sc.ConsensusConfig.TargetBlockTime = 10
			sc.ExtraShardBlocksInRootBlock = c07MaxPer - 1
			if i == 2 {
				sc.Genesis.RootHeight = 2 // appears with the root block after it
			}
		}
	}})
	w.ids = vIDs(w.q)
	w.gen0 = &cRoot{name: "R0", blk: w.gen}
	if checkDiff {
		return w
	}
	a, b, cc := w.ids[0], w.ids[1], w.ids[2]
	hdr := func(name string, last *types.MinorBlockHeader, shard uint32, root *cRoot, time uint64, ok bool) *types.MinorBlockHeader {
		h := cNextHeader(last, shard, root.blk.Hash(), 0, name)
		h.Time = time
		w.pool, w.names = append(w.pool, h), append(w.names, name)
		if ok {
			w.validated(h, int64(10+len(w.pool)))
		}
		return h
	}
	a0 := cNextHeader(nil, a, w.gen.Hash(), 0, "A0")
	a0x := cNextHeader(nil, a, w.gen.Hash(), 0, "A0x")
	w.validated(a0, 31)
	w.validated(a0x, 32)
	w.r1 = w.extend("R1", w.gen0, 3, a0)
	w.r1x = w.extend("R1x", w.gen0, 3, a0x)
	w.r2s = w.extend("R2s", w.r1, 1)
	t := w.r1.blk.Time()
	a1 := hdr("A1", a0, a, w.r1, t, true)
	a2 := hdr("A2", a1, a, w.gen0, t+10, true)
	hdr("A3", a2, a, w.r1, t, true)
	hdr("A2fork", a1, a, w.r1, t, true)
	hdr("A2rootfork", a1, a, w.r1x, t, true)
	hdr("A1late", a0, a, w.r1, t+11, true)
	hdr("A1sibling", a0, a, w.r2s, t, true)
	hdr("A1x", a0x, a, w.r1x, t, true)
	hdr("A1unvalidated", a0, a, w.r1, t-1, false)
	b0 := hdr("B0", nil, b, w.gen0, t, true)
	hdr("B1", b0, b, w.r1, t, true)
	hdr("C0", nil, cc, w.r1, t, true)
	gap := hdr("A2gap", a1, a, w.r1, t, false) // claims the height after next
	gap.Number++
	w.validated(gap, 5)
	unk := hdr("A1unknownroot", a0, a, w.r1, t, false)
	unk.PrevRootBlockHash = ethcommon.HexToHash("0x1234")
	w.validated(unk, 5)
	return w
}

func (w *c07World) validated(h *types.MinorBlockHeader, reward int64) {
	m := map[uint64]int64{vQKC: reward, 99: 4}
	w.reward[h.Hash()] = m
	w.valid[h.Hash()] = true
	b := map[uint64]*big.Int{}
	for k, v := range m {
		b[k] = big.NewInt(v)
	}
	w.r.AddValidatedMinorBlockHeader(h.Hash(), types.NewTokenBalancesWithMap(b))
}

// coinbase: a third of what the confirmed blocks earned, per token, and the block reward of the epoch.
func (w *c07World) coinbase(number uint32, hs []*types.MinorBlockHeader) map[uint64]int64 {
	sum := map[uint64]int64{}
	for _, h := range hs {
		for k, v := range w.reward[h.Hash()] {
			sum[k] += v
		}
	}
	for k := range sum {
		sum[k] /= 3
	}
	r := int64(c07Reward)
	for i := uint32(0); i < number/c07Epoch; i++ {
		r /= 2
	}
	sum[vQKC] += r
	return sum
}

func c07Balances(m map[uint64]int64) *types.TokenBalances {
	b := map[uint64]*big.Int{}
	for k, v := range m {
		if v != 0 {
			b[k] = big.NewInt(v)
		}
	}
	return types.NewTokenBalancesWithMap(b)
}

func (w *c07World) header(parent *cRoot, work int64, hs []*types.MinorBlockHeader) *types.RootBlockHeader {
	h := parent.blk.Header().CreateBlockToAppend(nil, big.NewInt(work), nil, nil, nil).Header()
	h.Time = parent.blk.Time() + 10
	h.Coinbase = vAddr(3, w.ids[0])
	h.Root = types.EmptyTrieHash
	h.CoinbaseAmount = c07Balances(w.coinbase(h.Number, hs))
	h.MinorHeaderHash = types.CalculateMerkleRoot(types.MinorBlockHeaders(hs))
	return h
}

func c07Block(h *types.RootBlockHeader, hs []*types.MinorBlockHeader, tracking []byte) *types.RootBlock {
	mh := h.MinorHeaderHash
	b := types.NewRootBlock(h, hs, tracking)
	if b.MinorHeaderHash() != mh {
		hh := b.Header()
		hh.MinorHeaderHash = mh
		b = b.WithSeal(hh)
	}
	return b
}

// extend adds a valid block with the given work.
func (w *c07World) extend(name string, parent *cRoot, work int64, hs ...*types.MinorBlockHeader) *cRoot {
	h := w.header(parent, work, hs)
	h.Extra = []byte(name)
	h.Nonce = vSealNonce(h.SealHash(), work, 0)
	x := &cRoot{name: name, parent: parent, headers: hs, blk: c07Block(h, hs, nil)}
	if err := w.add(x.blk); err != nil {
		panic(fmt.Sprint("building ", name, ": ", err))
	}
	return x
}

// offer inserts the block and checks that it is accepted exactly if it should be.
func (w *c07World) offer(c *kit.Case, b *types.RootBlock, bad string) {
	c.Step()
	if c.Frontier() {
		c.State(fmt.Sprintf("%s|%x", bad, b.Hash()))
	}
	head := w.r.CurrentBlock()
	var err error
	if p, v := kit.Try(func() { err = w.add(b) }); v != nil {
		c.Fail("panic", "inserting the block (%s): %s %v", bad, p, v)
	}
	c.Outcome("%s", bad)
	if bad == "" {
		c.Check(err == nil && w.r.HasBlock(b.Hash()), "valid-rejected", "a valid root block is rejected: %v", err)
		want := head.Hash()
		if b.TotalDifficulty().Cmp(head.TotalDifficulty()) > 0 {
			want = b.Hash()
		}
		c.Check(w.r.CurrentBlock().Hash() == want, "valid-head", "head after a valid block is wrong")
		return
	}
	c.Check(err != nil, "accepted:"+bad, "a root block with a wrong %s is accepted", bad)
	c.Check(!w.r.HasBlock(b.Hash()) && w.r.CurrentBlock().Hash() == head.Hash() && w.r.GetBlockByNumber(head.NumberU64()).Hash() == head.Hash(), "left:"+bad, "a rejected root block (wrong %s) changed the chain", bad)
}

func TestVerifC07(t *testing.T) {
	h := kit.New("C07", "rootvalidity")
	n := kit.Tier(4, 5)
	h.Bound("headers in the body", n)
	// every list of up to n headers from the pool, on both forks
	h.Explore("bodies", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		w := c07New(3, false)
		defer w.r.Stop()
		parent := []*cRoot{w.r1, w.r1x, w.r2s}[c.Choose(3, "fork")]
		var hs []*types.MinorBlockHeader
		desc := parent.name
		k := c.Choose(n+1, "length")
		for i := 0; i < k; i++ {
			j := c.Choose(len(w.pool), "header")
			hs = append(hs, w.pool[j])
			desc += " " + w.names[j]
		}
		c.Logf("%s", desc)
		hd := w.header(parent, 2, hs)
		hd.Nonce = vSealNonce(hd.SealHash(), 2, 0)
		w.offer(c, c07Block(hd, hs, nil), w.bodyRule(parent, hd, hs))
	})
	h.Bound("deviating header fields", kit.Tier(3, 4))
	h.Explore("fields", kit.Opt{MaxDev: kit.Tier(3, 4)}, c07Fields)
	h.Bound("difficulty: root blocks in a row", kit.Tier(3, 4))
	h.Explore("difficulty", kit.Opt{MaxDev: -1}, c07Difficulty)
	h.Done()
}

// bodyRule names the first rule the body breaks, "" if none.
func (w *c07World) bodyRule(parent *cRoot, hd *types.RootBlockHeader, hs []*types.MinorBlockHeader) string {
	last := parent.latest()
	cnt := map[uint32]int{}
	prev := uint32(0)
	for _, m := range hs {
		id := m.Branch.Value
		if !w.valid[m.Hash()] {
			return "unvalidated header"
		}
		if m.Time > hd.Time {
			return "header time"
		}
		if id < prev {
			return "shard order"
		}
		prev = id
		if id == w.ids[2] && hd.Number <= 2 {
			return "uninitialised shard"
		}
		if cnt[id]++; cnt[id] > c07MaxPer {
			return "number of headers"
		}
		if l := last[id]; l == nil && m.Number != 0 || l != nil && (m.Number != l.Number+1 || m.ParentHash != l.Hash()) {
			return "header linkage"
		}
		last[id] = m
		on := false
		for r := parent; r != nil; r = r.parent {
			on = on || r.blk.Hash() == m.PrevRootBlockHash
		}
		if !on {
			return "root reference of a header"
		}
	}
	return ""
}

// c07Fields: up to three (thorough: four) header fields deviate from a valid block.
func c07Fields(c *kit.Case) {
	w := c07New(3, false)
	defer w.r.Stop()
	body := []*types.MinorBlockHeader{w.pool[0], w.pool[9]}
	if c.Dev(2, "empty body") == 1 {
		body = nil
	}
	bad := ""
	set := func(s string) {
		if bad == "" {
			bad = s
		}
	}
	const work = 3000
	hd := w.header(w.r1, work, body)
	var tracking []byte
	if c.Dev(2, "version") == 1 {
		hd.Version = 1
		set("version")
	}
	switch c.Dev(4, "number") {
	case 1:
		hd.Number++
		set("number")
	case 2:
		hd.Number--
		set("number")
	case 3:
		hd.Number = 0
		set("number")
	}
	switch c.Dev(4, "parent") {
	case 1:
		hd.ParentHash = ethcommon.HexToHash("0x77")
		set("parent")
	case 2:
		hd.ParentHash = w.gen.Hash()
		if hd.Number == 1 {
			// then it is a first block: total difficulty, reward epoch and body have to fit the genesis
			set("parent with height")
		}
		set("parent")
	case 3: // a sibling: its latest headers and root references differ
		hd.ParentHash = w.r1x.blk.Hash()
		if len(body) > 0 {
			set("parent")
		}
	}
	switch c.Dev(5, "time") {
	case 1:
		hd.Time = w.r1.blk.Time()
		set("time")
	case 2:
		hd.Time = w.r1.blk.Time() - 1
		set("time")
	case 3:
		hd.Time = w.r1.blk.Time() + 1
	case 4:
		hd.Time = 0
		set("time")
	}
	switch c.Dev(5, "extra") {
	case 1:
		hd.Extra = make([]byte, c07Extra)
	case 2:
		hd.Extra = make([]byte, c07Extra+1)
		set("extra")
	case 3:
		hd.Extra = make([]byte, 300)
		set("extra")
	case 4:
		hd.Extra = []byte{1}
	}
	switch c.Dev(4, "tracking data") {
	case 1:
		tracking = make([]byte, c07Extra)
	case 2:
		tracking = make([]byte, c07Extra+1)
		set("tracking data")
	case 3:
		tracking = make([]byte, 300)
		set("tracking data")
	}
	switch c.Dev(5, "total difficulty") {
	case 1:
		hd.ToTalDifficulty = new(big.Int).Add(hd.ToTalDifficulty, big.NewInt(1))
		set("total difficulty")
	case 2:
		hd.ToTalDifficulty = new(big.Int).Sub(hd.ToTalDifficulty, big.NewInt(1))
		set("total difficulty")
	case 3:
		hd.ToTalDifficulty = big.NewInt(work)
		set("total difficulty")
	case 4:
		hd.ToTalDifficulty = new(big.Int).Lsh(hd.ToTalDifficulty, 64)
		set("total difficulty")
	}
	switch c.Dev(3, "state root") {
	case 1:
		hd.Root = ethcommon.Hash{}
		set("state root")
	case 2:
		hd.Root = ethcommon.HexToHash("0x9")
		set("state root")
	}
	cb := w.coinbase(2, body)
	switch c.Dev(7, "coinbase amount") {
	case 1:
		cb[vQKC]++
		set("coinbase amount")
	case 2:
		cb[vQKC]--
		set("coinbase amount")
	case 3:
		cb[7] = 1
		set("coinbase amount")
	case 4:
		cb[99]++
		set("coinbase amount")
	case 5:
		if cb[99] != 0 {
			delete(cb, 99)
			set("coinbase amount")
		}
	case 6:
		cb = nil
		set("coinbase amount")
	}
	hd.CoinbaseAmount = c07Balances(cb)
	switch c.Dev(4, "body hash") {
	case 1:
		hd.MinorHeaderHash = ethcommon.Hash{}
		set("body hash")
	case 2:
		if len(body) > 0 {
			hd.MinorHeaderHash = types.CalculateMerkleRoot(types.MinorBlockHeaders(body[:1]))
		} else {
			hd.MinorHeaderHash = ethcommon.HexToHash("0x1")
		}
		set("body hash")
	case 3: // another body under the same header
		if len(body) > 0 {
			body = body[:1]
		} else {
			body = []*types.MinorBlockHeader{w.pool[0]}
		}
		set("body hash")
	}
	switch c.Dev(7, "seal") {
	case 0:
		hd.Nonce = vSealNonce(hd.SealHash(), work, 0)
	case 1:
		hd.Nonce = vBadNonce(hd.SealHash(), work)
		set("seal")
	case 2: // good for a thousandth of the work: not signed
		hd.Nonce = vSealNonce(hd.SealHash(), work/1000, work)
		set("seal")
	case 3: // signed by the guardian
		vSignRoot(hd, 5)
		hd.Nonce = vSealNonce(hd.SealHash(), work/1000, work)
	case 4: // signed by somebody else
		vSignRoot(hd, 4)
		hd.Nonce = vSealNonce(hd.SealHash(), work/1000, work)
		set("seal")
	case 5: // signed by the guardian, but not even a thousandth
		vSignRoot(hd, 5)
		hd.Nonce = vBadNonce(hd.SealHash(), work/1000)
		set("seal")
	case 6: // the guardian's signature of another block
		o := types.CopyRootBlockHeader(hd)
		o.Extra = []byte{9}
		vSignRoot(o, 5)
		hd.Signature = o.Signature
		hd.Nonce = vSealNonce(hd.SealHash(), work/1000, work)
		set("seal")
	}
	w.offer(c, c07Block(hd, body, tracking), bad)
}

// c07Difficulty: the difficulty follows from the parent's difficulty and the time between them.
func c07Difficulty(c *kit.Case) {
	w := c07New(uint64([]int{2, 9, 40}[c.Choose(3, "genesis difficulty")]), true)
	defer w.r.Stop()
	steps := kit.Tier(3, 4)
	p := w.gen0
	for i := 0; i < steps; i++ {
		dt := []int64{1, 39, 40, 79, 80, 400, 100000}[c.Choose(7, "time")]
		d := p.blk.Difficulty().Int64()
		s := 1 - dt/c07Cutoff
		if s < -99 {
			s = -99
		}
		want := d + d/c07Factor*s
		if want < c07MinDiff {
			want = c07MinDiff
		}
		mut := int64(0)
		if i == steps-1 {
			mut = []int64{0, 1, -1, d - want, -want}[c.Choose(5, "claimed difficulty")]
		}
		work := want + mut
		hd := w.header(p, work, nil)
		hd.Time = p.blk.Time() + uint64(dt)
		hd.Nonce = vSealNonce(hd.SealHash(), work, 0)
		c.Logf("dt=%d difficulty=%d (%d)", dt, work, want)
		b := c07Block(hd, nil, nil)
		bad := ""
		if work != want {
			bad = "difficulty"
		}
		w.offer(c, b, bad)
		p = &cRoot{name: "D", parent: p, blk: b}
	}
}

var _ = account.Address{}

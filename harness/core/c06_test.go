package core

import (
	"fmt"
	"math/big"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

// ---- fields: a block that deviates from a valid one in a few fields ----------------------------------

const (
	c06Diff   = 400
	c06Factor = 4
	c06Cutoff = 40
	c06Min    = 2
	c06Extra  = 8
)

var c06Logger = ethcommon.HexToAddress("0x00000000000000000000000000000000000c0de1")

// c06World: a shard (with real seals and difficulty rules, or without any) that has received a small fork graph.
type c06World struct {
	*vShard
	minors map[string]*types.MinorBlock
	roots  map[string]*types.RootBlock
	conf   map[string]string // root -> last minor block it (or an ancestor) confirms
	par    map[string]string // root -> parent
	mpar   map[string]string
}

func c06Shard(real bool) *vShard {
	o := vOpt{key: fmt.Sprint("c06", real), gasLimit: 1000000, alloc: map[account.Recipient]config.Allocation{
		vRecipient(0): vQkcBal(10000000), vRecipient(1): vQkcBal(10000000),
		c06Logger: {Balances: map[string]*big.Int{}, Code: ethcommon.FromHex("602a60005260aa60206000a100")},
	}, tune: func(q *config.QuarkChainConfig) {
		q.SkipMinorDifficultyCheck = !real
		q.BlockExtraDataSizeLimit = c06Extra
		for _, id := range vIDs(q) {
			sc := q.GetShardConfigByFullShardID(id)
			sc.Genesis.Difficulty = c06Diff
			sc.Genesis.Timestamp = 1000
			sc.PoswConfig.Enabled = false
		}
	}}
	if real {
		o.engine = c06Engine()
	}
	return vNew(o)
}

func c06Engine() consensus.Engine {
	return vSha256Engine(c06Cutoff, c06Factor, c06Min)
}

func c06CalcDiff(parent *types.MinorBlock, t uint64) *big.Int {
	d := parent.Difficulty().Int64()
	s := 1 - int64(t-parent.Time())/c06Cutoff
	if s < -99 {
		s = -99
	}
	if d += d / c06Factor * s; d < c06Min {
		d = c06Min
	}
	return big.NewInt(d)
}

// c06Draft is a block whose results are not filled in yet.
type c06Draft struct {
	h   *types.MinorBlockHeader
	m   *types.MinorBlockMeta
	txs []*types.Transaction
}

func (d c06Draft) block() *types.MinorBlock {
	return types.NewMinorBlockWithHeader(d.h, d.m).WithBody(d.txs, nil)
}

func (d *c06Draft) seal() {
	d.h.Nonce = vSealNonce(d.h.SealHash(), d.h.Difficulty.Int64(), 0)
}

func c06Draw(s *vShard, parent *types.MinorBlock, root *types.RootBlock, txs ...*types.Transaction) c06Draft {
	b := s.block(parent, root, vAddr(3, 0), 1)
	d := c06Draft{h: b.Header(), m: b.Meta(), txs: txs}
	d.h.Time = parent.Time() + 10
	d.h.Difficulty = c06CalcDiff(parent, d.h.Time)
	return d
}

var (
	c06Mu     sync.Mutex
	c06Cached *c06World
	c06Fills  = map[string]*types.MinorBlock{}
)

// fill computes the results of the draft's execution in a world that does not check seals or difficulties.
func (d *c06Draft) fill(s *vShard) bool {
	b := d.block()
	kit.Try(func() { s.s.FinalizeAndAddBlock(b) })
	if b.Root() == (ethcommon.Hash{}) {
		return false
	}
	d.h, d.m = b.Header(), b.Meta()
	return true
}

// c06Build makes the blocks of the fork graph once; every execution replays them.
func c06Build() *c06World {
	c06Mu.Lock()
	defer c06Mu.Unlock()
	if c06Cached != nil {
		return c06Cached
	}
	w := &c06World{vShard: c06Shard(false), minors: map[string]*types.MinorBlock{}, roots: map[string]*types.RootBlock{}, conf: map[string]string{}, par: map[string]string{}, mpar: map[string]string{}}
	w.minors["G"] = w.s.CurrentBlock()
	w.roots["R0"] = w.root0
	key := func(hs []string) []*types.MinorBlockHeader {
		var r []*types.MinorBlockHeader
		for _, n := range hs {
			r = append(r, w.minors[n].Header())
		}
		return r
	}
	addRoot := func(name, parent string, extra []*types.MinorBlockHeader, hs ...string) *types.RootBlock {
		r := vRoot(w.roots[parent], 5, vAddr(2, 0), 7, name[len(name)-1], append(key(hs), extra...)...)
		if _, err := w.s.AddRootBlock(r); err != nil {
			panic(err)
		}
		w.roots[name], w.par[name] = r, parent
		w.conf[name] = w.conf[parent]
		if len(hs) > 0 {
			w.conf[name] = hs[len(hs)-1]
		}
		return r
	}
	addMinor := func(name, parent, root string, price int64) {
		d := c06Draw(w.vShard, w.minors[parent], w.roots[root])
		if price > 0 {
			d.txs = []*types.Transaction{vTx{from: 1, to: vRecipient(5), value: price, gasPrice: price, nonce: 0}.sign()}
		}
		if !d.fill(w.vShard) {
			panic("building " + name)
		}
		d.seal()
		b := d.block()
		if _, err := w.s.InsertChain([]types.IBlock{vCopyMinor(b)}, false); err != nil {
			panic(err)
		}
		w.minors[name], w.mpar[name] = b, parent
	}
	addRoot("R1", "R0", nil, "G")
	addRoot("R1x", "R0", nil)
	addMinor("M1", "G", "R1", 0)
	addMinor("M1x", "G", "R1", 2)
	nb := vHeader(vIDs(w.cfg.Quarkchain)[1], 1, w.roots["R1"].Hash(), 5)
	dep := types.CrossShardTransactionDepositList{TXList: []*types.CrossShardTransactionDeposit{
		vDeposit(1, vAddr(6, 1), vAddr(7, 0), 50, vQKC, 1, 0, nil, false)}}
	w.s.AddCrossShardTxListByMinorBlockHash(nb.Hash(), dep)
	addRoot("R2", "R1", []*types.MinorBlockHeader{nb}, "M1")
	addRoot("R2b", "R1", nil, "M1x")
	addRoot("R2c", "R1", nil)
	addRoot("R2x", "R1x", nil)
	addMinor("M2", "M1", "R2", 0)
	addRoot("R3", "R2", nil)
	
	c06Cached = w
	return w
}

var c06Roots = []string{"R1", "R1x", "R2", "R2b", "R2c", "R2x", "R3"}

var c06Bases = []struct {
	parent, root string
	txs          int
}{{"M1", "R2", 2}, {"M2", "R3", 0}, {"M1x", "R2b", 1}, {"G", "R1", 1}}

// c06Replay gives a fresh shard everything but the neighbour's deposits changed.
func c06Replay(real bool) (*c06World, *vShard) {
	w := c06Build()
	s := c06Shard(real)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	root := func(n string) {
		for _, h := range w.roots[n].MinorBlockHeaders() {
			if h.Branch.Value != s.opt.id {
				s.s.AddCrossShardTxListByMinorBlockHash(h.Hash(), types.CrossShardTransactionDepositList{TXList: []*types.CrossShardTransactionDeposit{
					vDeposit(1, vAddr(6, 1), vAddr(7, 0), 50, vQKC, 1, 0, nil, false)}})
			}
		}
		_, err := s.s.AddRootBlock(vCopyRoot(w.roots[n]))
		must(err)
	}
	root("R1")
	root("R1x")
	must(s.add(w.minors["M1"]))
	must(s.add(w.minors["M1x"]))
	root("R2")
	root("R2b")
	root("R2c")
	root("R2x")
	must(s.add(w.minors["M2"]))
	root("R3")
	return w, s
}

// rootAnc: a is b or an ancestor of b.
func c06Anc(par map[string]string, a, b string) bool {
	for b != "" {
		if a == b {
			return true
		}
		b = par[b]
	}
	return false
}

func c06Fields(c *kit.Case) {
	w, s := c06Replay(true)
	defer s.close()
	bad := ""
	set := func(r string) {
		if bad == "" {
			bad = r
		}
	}
	fillKey := ""
	dev := func(n int, label string) int {
		k := c.Dev(n, label)
		fillKey += fmt.Sprint(k, ",")
		return k
	}
	// what the block builds on
	base := c06Bases[c.Choose(len(c06Bases), "base")]
	fillKey = base.parent + base.root
	ps := []string{"M1", "M1x", "G", "?", "M2", "own"}
	rs := []string{"R2", "R1", "R0", "R1x", "R2b", "R2c", "R2x", "R3", "?"}
	at := func(l []string, s string) int {
		for i, x := range l {
			if x == s {
				return i
			}
		}
		panic(s)
	}
	parent := ps[(at(ps, base.parent)+dev(6, "parent"))%6]
	rootName := rs[(at(rs, base.root)+dev(9, "root reference"))%9]
	pb := w.minors[parent]
	if pb == nil {
		pb = w.minors[base.parent]
		set("parent")
	}
	rb := w.roots[rootName]
	if rb == nil {
		rb = w.roots[base.root]
		set("root reference")
	}
	txs := []*types.Transaction{vTx{from: 0, to: vRecipient(4), value: 5, gasPrice: 3, nonce: 0}.sign(),
		vTx{from: 0, to: c06Logger, gas: 50000, gasPrice: 2, nonce: 1}.sign()}
	var baseTxs []*types.Transaction
	for i := 0; i < base.txs; i++ {
		baseTxs = append(baseTxs, txs[i])
	}
	d := c06Draw(s, pb, rb, baseTxs...)
	d.h.Extra = []byte{2}
	if parent != base.parent && dev(2, "height does not follow the parent") == 1 {
		d.h.Number = w.minors[base.parent].NumberU64() + 1
	}
	if parent == "?" {
		d.h.ParentHash = ethcommon.HexToHash("0x1234")
	} else if parent == "own" {
		d.h.ParentHash = ethcommon.Hash{}
	}
	if rootName == "?" {
		d.h.PrevRootBlockHash = ethcommon.HexToHash("0x4321")
	}
	switch dev(4, "number") {
	case 1:
		d.h.Number++
	case 2:
		d.h.Number--
	case 3:
		d.h.Number = 0
	}
	if d.h.Number != pb.NumberU64()+1 {
		set("number")
	}
	if bad == "" {
		pr := map[string]string{"G": "R0", "M1": "R1", "M1x": "R1", "M2": "R2"}[parent]
		if !c06Anc(w.par, pr, rootName) {
			set("root reference")
		} else if cf := w.conf[rootName]; cf != "" && !c06Anc(w.mpar, cf, parent) {
			set("root reference")
		}
	}
	if dev(2, "version") == 1 {
		d.h.Version = 1
		set("version")
	}
	if k := dev(3, "branch"); k != 0 {
		d.h.Branch = account.Branch{Value: vIDs(s.cfg.Quarkchain)[k]}
		set("branch")
	}
	switch dev(5, "coinbase") {
	case 1:
		d.h.Coinbase = vAddr(3, 4) // another key of the same shard
	case 2:
		d.h.Coinbase = vAddr(3, 1)
		set("coinbase shard")
	case 3:
		d.h.Coinbase = vAddr(3, 0x10000)
		set("coinbase shard")
	case 4:
		d.h.Coinbase = vAddr(3, 3)
		set("coinbase shard")
	}
	gl, xgl := s.gl.Int64(), s.xgl.Int64()
	u := func(v int64) *serialize.Uint256 { return &serialize.Uint256{Value: big.NewInt(v)} }
	if k := dev(5, "gas limit"); k != 0 {
		d.h.GasLimit = u([]int64{0, gl + 1, gl - 1, 2 * gl, xgl + 1}[k])
		set("gas limit")
	}
	if k := dev(6, "cross-shard gas limit"); k != 0 {
		d.m.XShardGasLimit = u([]int64{0, xgl + 1, xgl - 1, gl, 2 * gl, 0}[k])
		set("cross-shard gas limit")
	}
	switch dev(7, "time") {
	case 1:
		d.h.Time = pb.Time()
		set("time")
	case 2:
		d.h.Time = pb.Time() - 1
		set("time")
	case 3:
		d.h.Time = pb.Time() + 1
	case 4:
		d.h.Time = pb.Time() + 200
	case 5:
		d.h.Time = uint64(time.Now().Unix()) + 1000
		set("time")
	case 6:
		d.h.Time = uint64(time.Now().Unix()) - 1000
	}
	d.h.Difficulty = c06CalcDiff(pb, d.h.Time)
	if d.h.Time < pb.Time() {
		d.h.Difficulty = c06CalcDiff(pb, pb.Time()+1)
	}
	if k := dev(5, "difficulty"); k != 0 {
		v := d.h.Difficulty.Int64()
		n := []int64{0, v + 1, v - 1, 0, pb.Difficulty().Int64()}[k]
		if n != v {
			set("difficulty")
		}
		d.h.Difficulty = big.NewInt(n)
	}
	switch dev(4, "extra") {
	case 1:
		d.h.Extra = make([]byte, c06Extra)
	case 2:
		d.h.Extra = make([]byte, c06Extra+1)
		set("extra")
	case 3:
		d.h.Extra = make([]byte, 300)
		set("extra")
	}
	// the transactions
	switch dev(6, "transactions") {
	case 1:
		d.txs = nil
	case 2:
		d.txs = txs[:1]
	case 5:
		d.txs = txs
	case 3:
		d.txs = []*types.Transaction{txs[1], txs[0]}
		set("transactions")
	case 4:
		d.txs = []*types.Transaction{txs[0], txs[0]}
		set("transactions")
	}
	// the results
	{
		c06Mu.Lock()
		b := c06Fills[fillKey]
		if b == nil {
			c06Mu.Unlock()
			_, fs := c06Replay(false)
			f := d
			if !f.fill(fs) {
				f = c06Draw(fs, w.minors[base.parent], w.roots[base.root], baseTxs...)
				if !f.fill(fs) {
					panic("the valid block cannot be executed")
				}
			}
			fs.close()
			b = f.block()
			c06Mu.Lock()
			c06Fills[fillKey] = b
		}
		c06Mu.Unlock()
		xgl := d.m.XShardGasLimit
		d.m = b.Meta()
		d.m.XShardGasLimit = xgl
		bh := b.Header()
		d.h.CoinbaseAmount, d.h.Bloom = bh.CoinbaseAmount, bh.Bloom
		d.m.TxHash = types.CalculateMerkleRoot(types.Transactions(d.txs))
	}
	am := map[uint64]int64{}
	for k, v := range d.h.CoinbaseAmount.GetBalanceMap() {
		am[k] = v.Int64()
	}
	if k := c.Dev(6, "coinbase amount"); k != 0 {
		switch k {
		case 1:
			am[vQKC]++
		case 2:
			am[vQKC]--
		case 3:
			am[7] = 1
		case 4:
			am = nil
		case 5:
			am = map[uint64]int64{7: am[vQKC]}
		}
		d.h.CoinbaseAmount = c07Balances(am)
		set("coinbase amount")
	}
	switch c.Dev(3, "bloom") {
	case 1:
		d.h.Bloom[17] ^= 4
		set("bloom")
	case 2:
		if d.h.Bloom != (types.Bloom{}) {
			d.h.Bloom = types.Bloom{}
			set("bloom")
		}
	}
	b0 := d.m.Root
	if k := c.Dev(4, "state root"); k != 0 {
		d.m.Root = []ethcommon.Hash{{}, pb.Root(), w.minors["M1x"].Root(), ethcommon.HexToHash("0x5")}[k]
		if d.m.Root != b0 {
			set("state root")
		}
	}
	if k := c.Dev(3, "receipt hash"); k != 0 {
		n := []ethcommon.Hash{{}, types.EmptyTrieHash, ethcommon.HexToHash("0x5")}[k]
		if n != d.m.ReceiptHash {
			set("receipt hash")
		}
		d.m.ReceiptHash = n
	}
	if k := c.Dev(4, "gas used"); k != 0 {
		v := d.m.GasUsed.Value.Int64()
		n := []int64{0, v + 1, v - 1, 0}[k]
		if n < 0 {
			n = 5
		}
		if n != v {
			set("gas used")
		}
		d.m.GasUsed = u(n)
	}
	if k := c.Dev(3, "cross-shard gas used"); k != 0 {
		v := d.m.CrossShardGasUsed.Value.Int64()
		n := []int64{0, v + 1, 0}[k]
		if n != v {
			set("cross-shard gas used")
		}
		d.m.CrossShardGasUsed = u(n)
	}
	if k := c.Dev(7, "cursor"); k != 0 {
		x := *d.m.XShardTxCursorInfo
		switch k {
		case 1:
			x.RootBlockHeight++
		case 2:
			x.RootBlockHeight--
		case 3:
			x.MinorBlockIndex++
		case 4:
			x.MinorBlockIndex--
		case 5:
			x.XShardDepositIndex++
		case 6:
			x.XShardDepositIndex--
		}
		d.m.XShardTxCursorInfo = &x
		set("cursor")
	}
	switch c.Dev(4, "transaction root") {
	case 1:
		d.m.TxHash = ethcommon.HexToHash("0x6")
		set("transaction root")
	case 2:
		if len(d.txs) > 0 {
			d.txs = d.txs[:len(d.txs)-1]
			set("transaction root")
		}
	case 3:
		d.txs = append(append([]*types.Transaction{}, d.txs...), txs[len(d.txs)%2])
		set("transaction root")
	}
	d.h.MetaHash = d.m.Hash()
	switch c.Dev(3, "meta hash") {
	case 1:
		d.h.MetaHash = ethcommon.HexToHash("0x6")
		set("meta hash")
	case 2:
		m := *d.m
		m.Root = ethcommon.HexToHash("0x7")
		d.h.MetaHash = m.Hash()
		set("meta hash")
	}
	diff := d.h.Difficulty.Int64()
	if diff < 1 {
		diff = 1
	}
	switch c.Dev(3, "seal") {
	case 0:
		d.seal()
	case 1:
		if diff > 1 {
			d.h.Nonce = vBadNonce(d.h.SealHash(), diff)
			set("seal")
		}
	case 2: // sealed for a lower difficulty
		if diff > 1 {
			d.h.Nonce = vSealNonce(d.h.SealHash(), diff-(diff+9)/10, diff)
			set("seal")
		}
	}
	c06Offer(c, s, d, bad)
	if bad != "" {
		// the block it deviates from is still accepted
		g := c06Draw(s, w.minors[base.parent], w.roots[base.root], baseTxs...)
		g.h.Extra = []byte{2}
		c06Mu.Lock()
		b := c06Fills["base"+base.parent+base.root]
		c06Mu.Unlock()
		if b == nil {
			_, fs := c06Replay(false)
			f := g
			f.fill(fs)
			fs.close()
			b = f.block()
			c06Mu.Lock()
			c06Fills["base"+base.parent+base.root] = b
			c06Mu.Unlock()
		}
		g.h, g.m = b.Header(), b.Meta()
		g.seal()
		c06Offer(c, s, g, "")
	}
}

func c06Offer(c *kit.Case, s *vShard, d c06Draft, bad string) {
	b := d.block()
	c.Step()
	if c.Frontier() {
		c.State(fmt.Sprintf("%s|%x", bad, b.Hash()))
	}
	head := s.s.CurrentBlock()
	var err error
	if p, v := kit.Try(func() { err = s.add(b) }); v != nil {
		c.Fail("panic", "inserting the block (%s): %s %v", bad, p, v)
	}
	c.Outcome("%s", bad)
	if bad == "" {
		c.Check(err == nil, "valid-rejected", "a valid minor block is rejected: %v", err)
		g := s.s.GetMinorBlock(b.Hash())
		c.Check(g != nil && g.Hash() == b.Hash() && s.s.HasBlockAndState(b.Hash()), "valid-missing", "an accepted block cannot be read back")
		return
	}
	c.Check(err != nil, "accepted:"+bad, "a minor block with a wrong %s is accepted", bad)
	now := s.s.CurrentBlock()
	st, serr := s.s.State()
	c.Check(!s.s.HasBlock(b.Hash()) && s.s.GetMinorBlock(b.Hash()) == nil && now.Hash() == head.Hash() && s.s.GetBlockByNumber(head.NumberU64()).Hash() == head.Hash() && s.s.GetBlockByNumber(head.NumberU64()+1) == nil,
		"left:"+bad, "a rejected minor block (wrong %s) changed the chain", bad)
	c.Check(serr == nil && st.IntermediateRoot(true) == head.Root(), "state:"+bad, "a rejected minor block (wrong %s) changed the state", bad)
}

// ---- transactions: a block with a transaction that must not be there is rejected ---------------------

const (
	c06Bal  = 200000
	c06Gl   = 160000
	c06Xgl  = c06Gl / 2
	c06ID   = 2
	c06EthB = 777 // base of the eth chain ids
)

// vSigner makes signatures the way a wallet would, independently of the code under test.
type c06Signer struct{ v int64 }

func (s c06Signer) Sender(*types.EvmTransaction) (account.Recipient, error) { panic("unused") }
func (s c06Signer) Hash(*types.EvmTransaction) ethcommon.Hash               { panic("unused") }
func (s c06Signer) Equal(types.Signer) bool                                 { return false }
func (s c06Signer) SignatureValues(_ *types.EvmTransaction, sig []byte) (*big.Int, *big.Int, *big.Int, error) {
	return new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64]), big.NewInt(s.v + int64(sig[64])), nil
}

// vEthTx signs an EIP-155 (version 2) transaction with go-ethereum's own signer.
func vEthTx(from int, nonce uint64, to account.Recipient, value int64, gas uint64, price int64, fromKey, toKey, chainID uint32, gasTok, xferTok uint64, data []byte) *types.Transaction {
	raw := ethtypes.NewTransaction(nonce, to, big.NewInt(value), gas, big.NewInt(price), data)
	h := ethtypes.NewEIP155Signer(big.NewInt(int64(chainID))).Hash(raw)
	sig, err := crypto.Sign(h[:], vKeys[from])
	if err != nil {
		panic(err)
	}
	e := types.NewEvmTransaction(nonce, to, big.NewInt(value), gas, big.NewInt(price), fromKey, toKey, chainID, 2, data, gasTok, xferTok)
	e, err = e.WithSignature(c06Signer{v: int64(chainID)*2 + 35}, sig)
	if err != nil {
		panic(err)
	}
	return &types.Transaction{TxType: types.EvmTx, EvmTx: e}
}

type c06Tx struct {
	name  string
	tx    func() *types.Transaction
	from  int
	nonce uint64
	gas   uint64 // offered
	need  int64  // balance needed up front
	pays  int64  // balance spent
	used  uint64 // gas used in the block
	bad   string
	evm   bool // needs contracts to be enabled
	cross bool
}

func c06Txs() []c06Tx {
	net := uint32(vNetworkID)
	r4 := vRecipient(4)
	xused := uint64(21000)
	eth := uint32(c06EthB + 1)
	malleable := func() *types.Transaction {
		t := vTx{from: 0, to: r4, value: 1, gasPrice: 1}.sign()
		v, r, s := t.EvmTx.RawSignatureValues()
		n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
		return c06WithSig(t, r, new(big.Int).Sub(n, s), new(big.Int).Sub(big.NewInt(55), v))
	}
	pool := []c06Tx{
		{"transfer n0", func() *types.Transaction { return vTx{from: 0, to: r4, value: 10, gasPrice: 1}.sign() }, 0, 0, 21000, 21010, 21010, 21000, "", false, false},
		{"transfer n1", func() *types.Transaction { return vTx{from: 0, to: r4, value: 11, gasPrice: 2, nonce: 1}.sign() }, 0, 1, 21000, 42011, 42011, 21000, "", false, false},
		{"transfer n2", func() *types.Transaction { return vTx{from: 0, to: r4, value: 12, nonce: 2}.sign() }, 0, 2, 21000, 12, 12, 21000, "", false, false},
		{"other sender", func() *types.Transaction { return vTx{from: 1, to: r4, value: 12, gasPrice: 1}.sign() }, 1, 0, 21000, 21012, 21012, 21000, "", false, false},
		{"all the balance", func() *types.Transaction {
			return vTx{from: 1, to: r4, value: c06Bal - 21000, gasPrice: 1}.sign()
		}, 1, 0, 21000, c06Bal, c06Bal, 21000, "", false, false},
		{"more than the balance", func() *types.Transaction {
			return vTx{from: 1, to: r4, value: c06Bal - 21000 + 1, gasPrice: 1}.sign()
		}, 1, 0, 21000, c06Bal + 1, 0, 21000, "", false, false},
		{"fee exceeds the balance", func() *types.Transaction { return vTx{from: 1, to: r4, gas: 30000, gasPrice: 7}.sign() }, 1, 0, 30000, 210000, 0, 21000, "", false, false},
		{"gas 20999", func() *types.Transaction { return vTx{from: 0, to: r4, gas: 20999, gasPrice: 1}.sign() }, 0, 0, 20999, 0, 0, 0, "intrinsic gas", false, false},
		{"data gas", func() *types.Transaction {
			return vTx{from: 0, to: r4, gas: 21072, gasPrice: 1, data: []byte{1, 0}}.sign()
		}, 0, 0, 21072, 21072, 21072, 21072, "", true, false},
		{"data gas -1", func() *types.Transaction {
			return vTx{from: 0, to: r4, gas: 21071, gasPrice: 1, data: []byte{1, 0}}.sign()
		}, 0, 0, 21071, 0, 0, 0, "intrinsic gas", true, false},
		{"creation", func() *types.Transaction { return vTx{from: 0, create: true, gas: 53000, gasPrice: 1}.sign() }, 0, 0, 53000, 53000, 53000, 53000, "", true, false},
		{"creation -1", func() *types.Transaction { return vTx{from: 0, create: true, gas: 52999, gasPrice: 1}.sign() }, 0, 0, 52999, 0, 0, 0, "intrinsic gas", true, false},
		{"block gas", func() *types.Transaction { return vTx{from: 0, to: r4, gas: c06Gl - c06Xgl, value: 1}.sign() }, 0, 0, c06Gl - c06Xgl, 1, 1, 21000, "", false, false},
		{"block gas +1", func() *types.Transaction { return vTx{from: 0, to: r4, gas: c06Gl - c06Xgl + 1, value: 1}.sign() }, 0, 0, c06Gl - c06Xgl + 1, 1, 1, 21000, "", false, false},
		{"cross-shard", func() *types.Transaction {
			return vTx{from: 1, to: r4, toKey: 1, gas: 30000, value: 5, gasPrice: 1}.sign()
		}, 1, 0, 30000, 30005, 30005, xused, "", false, false},
		{"cross-shard -1", func() *types.Transaction {
			return vTx{from: 1, to: r4, toKey: 1, gas: 29999, value: 5, gasPrice: 1}.sign()
		}, 1, 0, 29999, 0, 0, 0, "intrinsic gas", false, false},
		{"cross-shard limit", func() *types.Transaction {
			return vTx{from: 1, to: r4, toKey: 0x10000, gas: c06Xgl, value: 5}.sign()
		}, 1, 0, c06Xgl, 5, 5, xused, "", false, false},
		{"cross-shard limit +1", func() *types.Transaction {
			return vTx{from: 1, to: r4, toKey: 0x10000, gas: c06Xgl + 1, value: 5}.sign()
		}, 1, 0, c06Xgl + 1, 0, 0, 0, "cross-shard gas", false, false},
		{"to a shard that does not exist yet", func() *types.Transaction {
			return vTx{from: 1, to: r4, toKey: 0x10001, gas: 30000, value: 5}.sign()
		}, 1, 0, 30000, 0, 0, 0, "destination", false, false},
		{"to no chain", func() *types.Transaction {
			return vTx{from: 1, to: r4, toKey: 0x20000, gas: 30000, value: 5}.sign()
		}, 1, 0, 30000, 0, 0, 0, "destination", false, false},
		{"from another shard", func() *types.Transaction { return vTx{from: 1, to: r4, fromKey: 1, toKey: 1}.sign() }, 1, 0, 21000, 0, 0, 0, "source shard", false, false},
		{"from another chain", func() *types.Transaction { return vTx{from: 1, to: r4, fromKey: 0x10000, gas: 30000}.sign() }, 1, 0, 21000, 0, 0, 0, "source shard", false, false},
		{"from no chain", func() *types.Transaction { return vTx{from: 1, to: r4, fromKey: 0x20000, gas: 30000}.sign() }, 1, 0, 21000, 0, 0, 0, "source shard", false, false},
		{"another key of the shard", func() *types.Transaction { return vTx{from: 1, to: r4, fromKey: 2, toKey: 4, value: 3}.sign() }, 1, 0, 21000, 3, 3, 21000, "", false, false},
		{"another network", func() *types.Transaction { return vTx{from: 1, to: r4, networkID: net + 1}.sign() }, 1, 0, 21000, 0, 0, 0, "network", false, false},
		{"token never held", func() *types.Transaction { return vTx{from: 1, to: r4, xferTok: 99}.sign() }, 1, 0, 21000, 0, 0, 0, "token", false, false},
		{"gas token never held", func() *types.Transaction { return vTx{from: 1, to: r4, gasTok: 99}.sign() }, 1, 0, 21000, 0, 0, 0, "token", false, false},
		{"another type", func() *types.Transaction { t := vTx{from: 1, to: r4}.sign(); t.TxType = 1; return t }, 1, 0, 21000, 0, 0, 0, "type", false, false},
		{"malleable signature", malleable, 0, 0, 21000, 0, 0, 0, "signature", false, false},
		{"r = 0", func() *types.Transaction {
			t := vTx{from: 0, to: r4}.sign()
			v, _, s := t.EvmTx.RawSignatureValues()
			return c06WithSig(t, new(big.Int), s, v)
		}, 0, 0, 21000, 0, 0, 0, "signature", false, false},
		{"signature of another transaction", func() *types.Transaction {
			t := vTx{from: 0, to: r4, value: 1, gasPrice: 1}.sign()
			v, r, s := t.EvmTx.RawSignatureValues()
			return c06WithSig(vTx{from: 0, to: r4, value: 2, gasPrice: 1}.sign(), r, s, v)
		}, 0, 0, 21000, 0, 0, 0, "signature", false, false},
		{"version 1 with a version 0 signature", func() *types.Transaction { return c06Version(0, 1) }, 0, 0, 21000, 0, 0, 0, "signature", false, false},
		{"version 3", func() *types.Transaction { return c06Version(0, 3) }, 0, 0, 21000, 0, 0, 0, "version", false, false},
		{"version 2", func() *types.Transaction {
			return vEthTx(1, 0, r4, 6, 21000, 1, 0, 0, eth, vQKC, vQKC, nil)
		}, 1, 0, 21000, 21006, 21006, 21000, "", false, false},
		{"version 2 for another chain", func() *types.Transaction {
			return vEthTx(1, 0, r4, 6, 21000, 1, 0, 0, eth+1, vQKC, vQKC, nil)
		}, 1, 0, 21000, 0, 0, 0, "network", false, false},
		{"version 2 to another chain", func() *types.Transaction {
			return vEthTx(1, 0, r4, 6, 30000, 1, 0, 0x10000, eth, vQKC, vQKC, nil)
		}, 1, 0, 30000, 0, 0, 0, "destination", false, false},
		{"version 2 with a shard key", func() *types.Transaction {
			return vEthTx(1, 0, r4, 6, 21000, 1, 2, 0, eth, vQKC, vQKC, nil)
		}, 1, 0, 21000, 0, 0, 0, "destination", false, false},
		{"version 2 to a shard key", func() *types.Transaction {
			return vEthTx(1, 0, r4, 6, 30000, 1, 0, 1, eth, vQKC, vQKC, nil)
		}, 1, 0, 30000, 0, 0, 0, "destination", false, false},
		{"version 2 with a token", func() *types.Transaction {
			return vEthTx(1, 0, r4, 0, 21000, 0, 0, 0, eth, vQKC, 5, nil)
		}, 1, 0, 21000, 0, 0, 0, "token", false, false},
		{"version 2 with a gas token", func() *types.Transaction {
			return vEthTx(1, 0, r4, 0, 21000, 0, 0, 0, eth, 5, vQKC, nil)
		}, 1, 0, 21000, 0, 0, 0, "token", false, false},
		{"version 2 with the signature of another chain id", func() *types.Transaction {
			t := vEthTx(1, 0, r4, 6, 21000, 1, 0, 0, eth+1, vQKC, vQKC, nil)
			v, r, s := t.EvmTx.RawSignatureValues()
			return c06WithSig(vEthTx(1, 0, r4, 6, 21000, 1, 0, 0, eth, vQKC, vQKC, nil), r, s, v)
		}, 1, 0, 21000, 0, 0, 0, "signature", false, false},
		{"fee in a token nobody exchanges", func() *types.Transaction { return vTx{from: 1, to: r4, gasTok: 5, gasPrice: 1}.sign() }, 1, 0, 21000, 0, 0, 0, "token", false, false},
		{"token id out of range", func() *types.Transaction { return vTx{from: 1, to: r4, xferTok: 1 << 62}.sign() }, 1, 0, 21000, 0, 0, 0, "token", false, false},
	}
	for i := range pool {
		pool[i].cross = pool[i].name == "cross-shard" || pool[i].name == "cross-shard limit"
	}
	return pool
}

func c06WithSig(t *types.Transaction, r, s, v *big.Int) *types.Transaction {
	e, err := t.EvmTx.WithSignature(c06Fixed{r, s, v}, nil)
	if err != nil {
		panic(err)
	}
	return &types.Transaction{TxType: t.TxType, EvmTx: e}
}

type c06Fixed struct{ r, s, v *big.Int }

func (s c06Fixed) Sender(*types.EvmTransaction) (account.Recipient, error) { panic("unused") }
func (s c06Fixed) Hash(*types.EvmTransaction) ethcommon.Hash               { panic("unused") }
func (s c06Fixed) Equal(types.Signer) bool                                 { return false }
func (s c06Fixed) SignatureValues(*types.EvmTransaction, []byte) (*big.Int, *big.Int, *big.Int, error) {
	return s.r, s.s, s.v, nil
}

// c06Version signs like a version 0 transaction under another version number.
func c06Version(from int, version uint32) *types.Transaction {
	e := types.NewEvmTransaction(0, vRecipient(4), big.NewInt(1), 21000, big.NewInt(1), 0, 0, vNetworkID, version, nil, vQKC, vQKC)
	n, err := types.SignTx(e, types.MakeSigner(vNetworkID), vKeys[from])
	if err != nil {
		panic(err)
	}
	return &types.Transaction{TxType: types.EvmTx, EvmTx: n}
}

func c06TxPhase(evm bool, maxLen int) func(c *kit.Case) {
	return func(c *kit.Case) {
		key := fmt.Sprint("c06tx", evm)
		s := vNew(vOpt{key: key, id: c06ID, gasLimit: c06Gl, alloc: map[account.Recipient]config.Allocation{
			vRecipient(0): {Balances: map[string]*big.Int{"QKC": big.NewInt(c06Bal), "5": big.NewInt(5000000)}},
			vRecipient(1): {Balances: map[string]*big.Int{"QKC": big.NewInt(c06Bal), "5": big.NewInt(5000000)}},
		}, tune: func(q *config.QuarkChainConfig) {
			q.BaseEthChainID = c06EthB
			q.EnableEIP155SignerTimestamp = 0
			if !evm {
				q.EnableEvmTimeStamp = 1 << 60
			}
			q.GetShardConfigByFullShardID(vIDs(q)[3]).Genesis.RootHeight = 5
		}})
		defer s.close()
		r1 := vRoot(s.root0, 5, vAddr(2, 1), 7, 1, s.s.CurrentBlock().Header())
		if _, err := s.s.AddRootBlock(r1); err != nil {
			panic(err)
		}
		pool := c06Txs()
		n := 1 + c.Choose(maxLen, "number of transactions")
		var txs []*types.Transaction
		bad, desc := "", ""
		bal := map[int]int64{0: c06Bal, 1: c06Bal}
		nonce := map[int]uint64{}
		used := uint64(0)
		for i := 0; i < n; i++ {
			p := pool[c.Choose(len(pool), "transaction")]
			txs = append(txs, p.tx())
			desc += p.name + "; "
			if bad != "" {
				continue
			}
			switch {
			case p.bad != "":
				bad = p.bad
			case p.evm && !evm:
				bad = "contract before contracts"
			case nonce[p.from] != p.nonce:
				bad = "nonce"
			case bal[p.from] < p.need:
				bad = "balance"
			case used+p.gas > c06Gl-c06Xgl: // what the block leaves of its limit when nothing arrives from other shards
				bad = "block gas"
			}
			nonce[p.from]++
			bal[p.from] -= p.pays
			if p.cross && !evm {
				used += 9000 // before contracts the whole fee counts here
			}
			used += p.used
		}
		c.Logf("%s", desc)
		head := s.s.CurrentBlock()
		b := s.block(head, r1, vAddr(3, 0), 1, txs...)
		c.Step()
		if c.Frontier() {
			c.State(desc)
		}
		var err error
		if p, v := kit.Try(func() { _, _, err = s.mine(b) }); v != nil {
			c.Fail("tx-panic", "block with [%s]: %s %v", desc, p, v)
		}
		c.Outcome("%s", bad)
		if bad == "" {
			c.Check(err == nil, "tx-valid-rejected", "a block with valid transactions [%s] is rejected: %v", desc, err)
			got := s.s.CurrentBlock()
			c.Check(got.Hash() == b.Hash(), "tx-head", "the new block [%s] is not the head", desc)
			st, e := s.s.StateAt(got.Root())
			c.Check(e == nil, "tx-state", "no state for the new head")
			for a, v := range bal {
				g := st.GetBalance(vRecipient(a), vQKC)
				c.Check(g.Int64() == v, "tx-balance", "[%s]: account %d holds %v, not %d", desc, a, g, v)
				c.Check(st.GetNonce(vRecipient(a)) == nonce[a], "tx-nonce", "[%s]: account %d has nonce %d, not %d", desc, a, st.GetNonce(vRecipient(a)), nonce[a])
			}
			c.Check(got.GasUsed().Uint64() == used, "tx-gas", "[%s]: gas used %v, not %d", desc, got.GasUsed(), used)
			return
		}
		c.Check(err != nil, "tx-accepted:"+bad, "a block with a transaction that breaks a rule (%s) is accepted: [%s]", bad, desc)
		st, e := s.s.State()
		c.Check(s.s.CurrentBlock().Hash() == head.Hash() && e == nil && st.IntermediateRoot(true) == head.Root(), "tx-left:"+bad, "a rejected block [%s] changed the chain", desc)
	}
}

// c06Gas: how much gas the transactions of a block may ask for, given what arrives from other shards.
func c06Gas(c *kit.Case) {
	s := vNew(vOpt{key: "c06gas", id: c06ID, gasLimit: c06Gl, alloc: map[account.Recipient]config.Allocation{vRecipient(0): vQkcBal(c06Bal)}})
	defer s.close()
	q := s.cfg.Quarkchain
	r1 := vRoot(s.root0, 5, vAddr(2, 1), 7, 1, s.s.CurrentBlock().Header())
	if _, err := s.s.AddRootBlock(r1); err != nil {
		panic(err)
	}
	nb := vHeader(vIDs(q)[1], 1, r1.Hash(), 5)
	k := c.Choose(12, "deposits")
	price := int64(1 - c.Choose(2, "free deposits"))
	var dep types.CrossShardTransactionDepositList
	for i := 0; i < k; i++ {
		dep.TXList = append(dep.TXList, vDeposit(i, vAddr(6, 1), vAddr(7, 0), 50, vQKC, price, 0, nil, false))
	}
	s.s.AddCrossShardTxListByMinorBlockHash(nb.Hash(), dep)
	r2 := vRoot(r1, 5, vAddr(2, 1), 7, 1, nb)
	if _, err := s.s.AddRootBlock(r2); err != nil {
		panic(err)
	}
	rx := uint64(0) // gas used by arrivals: one after the other while the limit is not reached
	for i := 0; i < k && rx < c06Xgl; i++ {
		rx += 9000 // free or not
	}
	limit := uint64(c06Gl)
	if rx < c06Xgl {
		limit -= c06Xgl - rx
	}
	limit -= rx
	var txs []*types.Transaction
	nonce := uint64(0)
	for n := c.Choose(4, "transfers before"); n > 0 && limit >= 21000; n-- {
		txs = append(txs, vTx{from: 0, to: vRecipient(4), value: 1, nonce: nonce}.sign())
		nonce++
		limit -= 21000
	}
	over := uint64(c.Choose(2, "over the limit"))
	gas := limit + over
	txs = append(txs, vTx{from: 0, to: vRecipient(4), value: 1, nonce: nonce, gas: gas}.sign())
	c.Step()
	b := s.block(s.s.CurrentBlock(), r2, vAddr(3, 0), 1, txs...)
	c.State(fmt.Sprint(k, price, nonce, over))
	_, _, err := s.mine(b)
	want := over == 0 && gas >= 21000
	c.Outcome("%v", want)
	c.Check((err == nil) == want, fmt.Sprintf("gas-limit:%v", want), "%d deposits (gas price %d), %d transfers and one with %d gas (%d over the limit): %v", k, price, nonce, gas, over, err)
}

func TestVerifC06(t *testing.T) {
	h := kit.New("C06", "minorvalidity")
	h.Bound("deviating fields", kit.Tier(2, 3))
	h.Explore("fields", kit.Opt{MaxDev: kit.Tier(2, 3)}, c06Fields)
	h.Bound("transactions in a block", 3)
	h.Explore("transactions", kit.Opt{MaxDev: -1}, c06TxPhase(true, 3))
	h.Explore("gas", kit.Opt{MaxDev: -1}, c06Gas)
	h.Explore("transactions-before-contracts", kit.Opt{MaxDev: -1}, c06TxPhase(false, kit.Tier(1, 2)))
	h.Done()
}

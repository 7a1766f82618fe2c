package core

import (
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/serialize"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"
)

// vQKC is the token every fee is paid in.
var vQKC = testGenesisTokenID

const vNetworkID = 3

// vKey / vAddr: a fixed family of accounts.
var vKeys = func() []*ecdsa.PrivateKey {
	var r []*ecdsa.PrivateKey
	for i := 0; i < 8; i++ {
		b := make([]byte, 32)
		for j := range b {
			b[j] = byte(i + 1)
		}
		k, err := crypto.ToECDSA(b)
		if err != nil {
			panic(err)
		}
		r = append(r, k)
	}
	return r
}()

func vRecipient(i int) account.Recipient { return crypto.PubkeyToAddress(vKeys[i].PublicKey) }
func vAddr(i int, fullShardKey uint32) account.Address {
	return account.Address{Recipient: vRecipient(i), FullShardKey: fullShardKey}
}

type vOpt struct {
	chains, shards uint32
	id             uint32 // full shard id
	alloc          map[account.Recipient]config.Allocation
	tune           func(q *config.QuarkChainConfig)
	gasLimit       uint64 // block gas limit; the cross-shard limit is half of it
	db             ethdb.Database
	engine         consensus.Engine
	pruning        bool
	key            string // executions with the same key share one configuration (it is read-only)
}

// vShard is one shard's chain with everything it needs around it.
type vShard struct {
	opt   vOpt
	cfg   *config.ClusterConfig
	db    ethdb.Database
	s     *MinorBlockChain
	root0 *types.RootBlock
	gl    *big.Int
	xgl   *big.Int
}

func vConfig(o vOpt) *config.ClusterConfig {
	if o.chains == 0 {
		o.chains = 2
	}
	if o.shards == 0 {
		o.shards = 2
	}
	c := config.NewClusterConfig()
	q := c.Quarkchain
	q.NetworkID = vNetworkID
	q.Update(o.chains, o.shards, 10, 1)
	q.Root.DifficultyAdjustmentCutoffTime = 40
	q.Root.DifficultyAdjustmentFactor = 1024
	q.SkipMinorDifficultyCheck = true
	q.SkipRootCoinbaseCheck = true
	q.SkipRootDifficultyCheck = true
	c.EnableTransactionHistory = true
	q.MinMiningGasPrice = new(big.Int)
	q.MinTXPoolGasPrice = new(big.Int)
	q.EnableEvmTimeStamp = 1
	q.XShardGasDDOSFixRootHeight = 0
	if o.alloc != nil {
		for _, id := range vIDs(q) {
			g := q.GetShardConfigByFullShardID(id).Genesis
			g.Alloc = map[account.Address]config.Allocation{}
			for r, a := range o.alloc {
				g.Alloc[account.Address{Recipient: r, FullShardKey: id}] = a
			}
		}
	}
	if o.gasLimit != 0 {
		for _, id := range vIDs(q) {
			q.GetShardConfigByFullShardID(id).Genesis.GasLimit = o.gasLimit
		}
	}
	if o.tune != nil {
		o.tune(q)
	}
	return c
}

var vCfgs sync.Map

func vSharedConfig(o vOpt) *config.ClusterConfig {
	if o.key == "" {
		return vConfig(o)
	}
	if c, ok := vCfgs.Load(o.key); ok {
		return c.(*config.ClusterConfig)
	}
	c := vConfig(o)
	c.Quarkchain.GetDefaultChainTokenID()
	r, _ := vCfgs.LoadOrStore(o.key, c)
	return r.(*config.ClusterConfig)
}

func vCache(o vOpt) *CacheConfig {
	return &CacheConfig{TrieCleanLimit: 0, TrieDirtyLimit: 256, TrieTimeLimit: 0, Disabled: !o.pruning}
}

// vNew builds a fresh shard on an empty database.
func vNew(o vOpt) *vShard {
	if o.id == 0 {
		o.id = 2
	}
	if o.db == nil {
		o.db = ethdb.NewMemDatabase()
	}
	if o.engine == nil {
		o.engine = new(consensus.FakeEngine)
	}
	w := &vShard{opt: o, cfg: vSharedConfig(o), db: o.db}
	var err error
	if w.gl, err = w.cfg.Quarkchain.GasLimit(o.id); err != nil {
		panic(err)
	}
	w.xgl = new(big.Int).Div(w.gl, big.NewInt(2))
	g := NewGenesis(w.cfg.Quarkchain)
	w.root0 = g.MustCommitRootBlock(w.db)
	g.MustCommitMinorBlock(w.db, w.root0, o.id)
	if err := w.open(); err != nil {
		panic(err)
	}
	if _, err := w.s.InitGenesisState(w.root0); err != nil {
		panic(err)
	}
	return w
}

// open (re)opens the chain on whatever the database holds.
func (w *vShard) open() error {
	s, err := NewMinorBlockChain(w.db, vCache(w.opt), params.TestChainConfig, w.cfg, w.opt.engine, vm.Config{}, nil, w.opt.id)
	if err != nil {
		return err
	}
	w.s = s
	return nil
}

func (w *vShard) close() { w.s.Stop() }

type vTx struct {
	from       int
	to         account.Recipient
	create     bool
	toKey      uint32
	fromKey    uint32
	value      int64
	gas        uint64
	gasPrice   int64
	nonce      uint64
	data       []byte
	gasTok     uint64
	xferTok    uint64
	networkID  uint32
	badNetSign bool
}

func (t vTx) sign() *types.Transaction {
	if t.gas == 0 {
		t.gas = 21000
	}
	if t.gasTok == 0 {
		t.gasTok = vQKC
	}
	if t.xferTok == 0 {
		t.xferTok = vQKC
	}
	if t.networkID == 0 {
		t.networkID = vNetworkID
	}
	var e *types.EvmTransaction
	if t.create {
		e = types.NewEvmContractCreation(t.nonce, big.NewInt(t.value), t.gas, big.NewInt(t.gasPrice), t.fromKey, t.toKey, t.networkID, 0, t.data, t.gasTok, t.xferTok)
	} else {
		e = types.NewEvmTransaction(t.nonce, t.to, big.NewInt(t.value), t.gas, big.NewInt(t.gasPrice), t.fromKey, t.toKey, t.networkID, 0, t.data, t.gasTok, t.xferTok)
	}
	s, err := types.SignTx(e, types.MakeSigner(t.networkID), vKeys[t.from])
	if err != nil {
		panic(err)
	}
	return &types.Transaction{TxType: types.EvmTx, EvmTx: s}
}

// block returns an unfinalised block on the given parent.
func (w *vShard) block(parent *types.MinorBlock, root *types.RootBlock, coinbase account.Address, extra byte, txs ...*types.Transaction) *types.MinorBlock {
	h := root.Hash()
	b := parent.CreateBlockToAppend(nil, nil, &coinbase, nil, w.gl, w.xgl, []byte{extra}, nil, &h)
	for _, t := range txs {
		b.AddTx(t)
	}
	return b
}

// mine executes the block, fills in its results and adds it.
func (w *vShard) mine(b *types.MinorBlock) (*types.MinorBlock, types.Receipts, error) {
	return w.s.FinalizeAndAddBlock(b)
}

func (w *vShard) add(b *types.MinorBlock) error {
	_, err := w.s.InsertChain([]types.IBlock{vCopyMinor(b)}, false)
	return err
}

// vCopyMinor returns an independent copy of the block, as if it came over the wire.
func vCopyMinor(b *types.MinorBlock) *types.MinorBlock {
	d, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	n := new(types.MinorBlock)
	if err := serialize.DeserializeFromBytes(d, n); err != nil {
		panic(err)
	}
	return n
}

func vCopyRoot(b *types.RootBlock) *types.RootBlock {
	d, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	n := new(types.RootBlock)
	if err := serialize.DeserializeFromBytes(d, n); err != nil {
		panic(err)
	}
	return n
}

// vRoot builds a root block on parent with the given minor headers. work is its difficulty.
func vRoot(parent *types.RootBlock, work int64, coinbase account.Address, amount int64, tag byte, hs ...*types.MinorBlockHeader) *types.RootBlock {
	return vRootBig(parent, big.NewInt(work), coinbase, amount, tag, hs...)
}

func vRootBig(parent *types.RootBlock, work *big.Int, coinbase account.Address, amount int64, tag byte, hs ...*types.MinorBlockHeader) *types.RootBlock {
	b := parent.Header().CreateBlockToAppend(nil, work, &coinbase, nil, []byte{tag})
	for _, h := range hs {
		b.AddMinorBlockHeader(h)
	}
	am := types.NewTokenBalancesWithMap(map[uint64]*big.Int{vQKC: big.NewInt(amount)})
	b.Finalize(am, &coinbase, ethcommon.Hash{})
	return b
}

// vHeader fabricates the header of a minor block of another shard.
func vHeader(branch uint32, number uint64, prevRoot ethcommon.Hash, tag int) *types.MinorBlockHeader {
	return &types.MinorBlockHeader{
		Branch: account.Branch{Value: branch}, Number: number, PrevRootBlockHash: prevRoot,
		ParentHash: crypto.Keccak256Hash([]byte(fmt.Sprint("p", branch, number, tag))),
		Coinbase:   account.CreatEmptyAddress(branch), CoinbaseAmount: types.NewEmptyTokenBalances(),
		GasLimit: &serialize.Uint256{Value: big.NewInt(1)}, Difficulty: big.NewInt(1),
		Extra: []byte(fmt.Sprint(tag)), Time: uint64(tag),
	}
}

func vDeposit(tag int, from, to account.Address, value int64, tok uint64, gasPrice, gasRemained int64, data []byte, create bool) *types.CrossShardTransactionDeposit {
	u := func(v int64) *serialize.Uint256 { return &serialize.Uint256{Value: big.NewInt(v)} }
	return &types.CrossShardTransactionDeposit{CrossShardTransactionDepositV0: types.CrossShardTransactionDepositV0{
		TxHash: crypto.Keccak256Hash([]byte(fmt.Sprint("dep", tag))), From: from, To: to, Value: u(value),
		GasPrice: u(gasPrice), GasTokenID: vQKC, TransferTokenID: tok, GasRemained: u(gasRemained), MessageData: data, CreateContract: create,
	}, RefundRate: 100}
}

// vBalances lists an account's non-zero balances.
func (w *vShard) balances(at *types.MinorBlock, r account.Recipient) map[uint64]*big.Int {
	st, err := w.s.StateAt(at.Root())
	if err != nil {
		panic(err)
	}
	m := map[uint64]*big.Int{}
	bm := st.GetBalances(r).GetBalanceMap()
	for k, v := range bm {
		if v.Sign() != 0 {
			m[k] = v
		}
	}
	return m
}

func vMapStr(m map[uint64]*big.Int) string {
	var ks []uint64
	for k, v := range m {
		if v.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%d:%v", k, m[k]))
	}
	return "{" + strings.Join(s, " ") + "}"
}

func vShort(h ethcommon.Hash) string { return h.Hex()[2:8] }

func vBig(v int64) *big.Int { return big.NewInt(v) }
func vQkcBal(v int64) config.Allocation {
	return config.Allocation{Balances: map[string]*big.Int{"QKC": big.NewInt(v)}}
}

// vIDs lists the shards in ascending order.
func vIDs(q *config.QuarkChainConfig) []uint32 {
	l := append([]uint32{}, q.GetGenesisShardIds()...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

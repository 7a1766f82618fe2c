package slave

// C25: queries for the state at a height, asked of the real slave and of its public interface, against a model that
// keeps balances, nonces, code and storage block by block.

import (
	"context"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	"github.com/QuarkChain/goquarkchain/cluster/slave/filters"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"
)

// the keeper: with data it stores the first word, without it returns what it sees around it
var c25Keeper = func() []byte {
	c := []byte{0x36, 0x15, 0x60, 12, 0x57, 0x60, 0, 0x35, 0x60, 0, 0x55, 0x00, 0x5b}
	at := byte(0)
	put := func(op ...byte) {
		c = append(append(c, op...), 0x61, byte(int(at)*32>>8), byte(int(at)*32), 0x52)
		at++
	}
	put(0x60, 0, 0x54)          // stored word
	put(0x43)                   // number
	put(0x42)                   // timestamp
	put(0x41)                   // coinbase
	put(0x45)                   // gas limit
	put(0x44)                   // difficulty
	put(0x30, 0x31)             // own balance
	put(0x33)                   // caller
	put(0x60, 1, 0x43, 3, 0x40) // hash of the parent
	return append(c, 0x61, 1, 32, 0x60, 0, 0xf3)
}()

var (
	c25K, c25P, c25N = common.Address{0xcc, 1}, common.Address{0xcc, 2}, common.Address{0xcc, 3}
	c25X             = common.Address{0xaa, 1}
	c25Run           = []byte{0x60, 1, 0x60, 0, 0x55, 0x60, 7, 0x60, 0, 0x53, 0x60, 1, 0x60, 0, 0xf3} // init: store 1, deploy the byte 07
	c25Tok           = uint64(35760)
)

const c25Other = uint64(1) // a second token

type c25Acct struct {
	bal, tok, nonce int64
	code            []byte
	word            common.Hash
}

type c25State map[common.Address]c25Acct

func (s c25State) with(a common.Address, f func(*c25Acct)) c25State {
	n := c25State{}
	for k, v := range s {
		n[k] = v
	}
	x := n[a]
	f(&x)
	n[a] = x
	return n
}

type c25World struct {
	cfg   *config.ClusterConfig
	id    uint32
	db    *ethdb.MemDatabase
	store ethdb.Database
	m     *core.MinorBlockChain
	b     *SlaveBackend
	api   *PublicFilterAPI
	root  *types.RootBlock
	rich  common.Address
	model map[common.Hash]c25State
	txs   map[common.Hash][]c25Done
	all   []*types.MinorBlock
	// what arrives from other shards in the first block
	arrive c25State
}

// what is known of an executed transaction
type c25Done struct {
	hash    common.Hash
	ok      bool
	creates common.Address
	to      *common.Address
	gas     uint64
}

func (w *c25World) GetShardFilter(id uint32) (filters.ShardFilter, error) {
	s, ok := w.b.shards[id]
	if !ok {
		return nil, fmt.Errorf("no shard %d", id)
	}
	return s, nil
}

func (w *c25World) GetFullShardList() []uint32 { return nil }

// the logger: two logs
var (
	c25L      = common.Address{0xcc, 4}
	c25Logger = []byte{0x60, 0x2a, 0x60, 0, 0x52, 0x60, 0x72, 0x60, 0x71, 0x60, 32, 0x60, 0, 0xa2, 0x60, 0x73, 0x60, 1, 0x60, 31, 0xa1, 0x00}
)

func c25Cfg() *config.ClusterConfig {
	c := c17Cfg(2, 2)
	q := c.Quarkchain
	q.SkipMinorDifficultyCheck = true
	q.SkipRootCoinbaseCheck = true
	q.SkipRootDifficultyCheck = true
	q.MinMiningGasPrice = new(big.Int)
	q.MinTXPoolGasPrice = new(big.Int)
	q.EnableEvmTimeStamp = 1
	for _, id := range c17IDs(c) {
		sc := q.GetShardConfigByFullShardID(id)
		sc.ConsensusType = config.PoWSimulate
		sc.Genesis.Alloc = map[account.Address]config.Allocation{}
		for a, x := range c25Genesis() {
			al := config.Allocation{Balances: map[string]*big.Int{"QKC": big.NewInt(x.bal)}, Code: x.code}
			if x.tok > 0 {
				al.Balances["1"] = big.NewInt(x.tok)
			}
			sc.Genesis.Alloc[account.Address{Recipient: a, FullShardKey: id}] = al
		}
	}
	return c
}

func c25Genesis() c25State {
	_, rich := c18Key(9)
	return c25State{rich: {bal: 1e15, tok: 500}, c25K: {bal: 3, code: c25Keeper, nonce: 1}, c25P: {bal: 40, code: []byte{0x33, 0xff}, nonce: 1}, c25L: {bal: 1, code: c25Logger, nonce: 1}}
}

func c25New(pruning bool) *c25World {
	return c25Make(c25Cfg(), 65539, pruning)
}

// c25Make builds a shard which follows a root block with its genesis block.
func c25Make(c *config.ClusterConfig, id uint32, pruning bool) *c25World {
	db := ethdb.NewMemDatabase()
	w := c25Begin(c, id, pruning, db)
	w.db = db
	w.root = c25Root(core.NewGenesis(c.Quarkchain).CreateRootBlock(), w.m.CurrentBlock().Header())
	if _, err := w.m.AddRootBlock(w.root); err != nil {
		panic(err)
	}
	return w
}

// c25Begin builds a shard with its genesis block alone.
func c25Begin(c *config.ClusterConfig, id uint32, pruning bool, db ethdb.Database) *c25World {
	q := c.Quarkchain
	w := &c25World{cfg: c, id: id, store: db, model: map[common.Hash]c25State{}, txs: map[common.Hash][]c25Done{}}
	_, w.rich = c18Key(9)
	g := core.NewGenesis(q)
	root0 := g.CreateRootBlock()
	g.MustCommitMinorBlock(db, root0, w.id)
	var err error
	w.m, err = core.NewMinorBlockChain(db, &core.CacheConfig{TrieDirtyLimit: 256, Disabled: !pruning}, params.TestChainConfig, c, new(consensus.FakeEngine), vm.Config{}, nil, w.id)
	if err != nil {
		panic(err)
	}
	if _, err := w.m.InitGenesisState(root0); err != nil {
		panic(err)
	}
	w.root = root0
	w.b = &SlaveBackend{clstrCfg: c, config: config.NewDefaultSlaveConfig(), shards: map[uint32]*shard.ShardBackend{w.id: {MinorBlockChain: w.m}}, fullShardList: []uint32{w.id}}
	w.api = &PublicFilterAPI{backend: w, shardId: w.id, hashMap: make(map[common.Hash]common.Hash)}
	w.model[w.m.CurrentBlock().Hash()] = c25Genesis()
	w.all = []*types.MinorBlock{w.m.CurrentBlock()}
	return w
}

func c25Root(parent *types.RootBlock, hs ...*types.MinorBlockHeader) *types.RootBlock {
	cb := account.CreatEmptyAddress(0)
	r := parent.Header().CreateBlockToAppend(nil, nil, &cb, nil, []byte{1})
	for _, h := range hs {
		r.AddMinorBlockHeader(h)
	}
	return r.Finalize(types.NewTokenBalancesWithMap(map[uint64]*big.Int{c25Tok: big.NewInt(1)}), &cb, common.Hash{})
}

func (w *c25World) sign(nonce uint64, to *common.Address, value int64, tok uint64, gas uint64, data []byte) *types.Transaction {
	key := w.id
	var e *types.EvmTransaction
	if to == nil {
		e = types.NewEvmContractCreation(nonce, big.NewInt(value), gas, new(big.Int), key, key, 3, 0, data, c25Tok, tok)
	} else {
		e = types.NewEvmTransaction(nonce, *to, big.NewInt(value), gas, new(big.Int), key, key, 3, 0, data, c25Tok, tok)
	}
	k, _ := c18Key(9)
	s, err := types.SignTx(e, types.MakeSigner(3), k)
	if err != nil {
		panic(err)
	}
	return &types.Transaction{TxType: types.EvmTx, EvmTx: s}
}

const c25Kinds = 6

// add mines a block of the given kind on the parent and writes down what it does
func (w *c25World) add(parent *types.MinorBlock, kind int, tag byte) *types.MinorBlock {
	return w.addOwn(parent, tag, func(b *types.MinorBlock, s c25State) (c25State, []c25Done) { return w.fill(b, s, kind, tag) })
}

// fill puts the transactions of the given kind of block into b, and works out what they leave of s
func (w *c25World) fill(b *types.MinorBlock, s c25State, kind int, tag byte) (c25State, []c25Done) {
	nonce := uint64(s[w.rich].nonce)
	var done []c25Done
	send := func(to *common.Address, value int64, tok uint64, data []byte, ok bool, creates common.Address) {
		tx := w.sign(nonce, to, value, tok, 100000, data)
		b.AddTx(tx)
		done = append(done, c25Done{hash: tx.Hash(), ok: ok, creates: creates, to: to})
		nonce++
		s = s.with(w.rich, func(a *c25Acct) { a.nonce++ })
	}
	move := func(to common.Address, v int64) {
		s = s.with(w.rich, func(a *c25Acct) { a.bal -= v }).with(to, func(a *c25Acct) { a.bal += v })
	}
	word := common.Hash{31: byte(b.NumberU64())*16 + tag}
	switch kind {
	case 1: // both tokens
		send(&c25X, 5, c25Tok, nil, true, common.Address{})
		move(c25X, 5)
		send(&c25X, 7, c25Other, nil, true, common.Address{})
		s = s.with(w.rich, func(a *c25Acct) { a.tok -= 7 }).with(c25X, func(a *c25Acct) { a.tok += 7 })
	case 2: // a word stored, with a failing call before it
		bad := append(make([]byte, 31), 1)
		send(nil, 1, c25Tok, append([]byte{0xfe}, bad...), false, common.Address{})
		send(&c25K, 2, c25Tok, word[:], true, common.Address{})
		move(c25K, 2)
		s = s.with(c25K, func(a *c25Acct) { a.word = word })
	case 3: // a contract created
		na := vm.CreateAddress(w.rich, &w.id, nonce)
		send(nil, 4, c25Tok, c25Run, true, na)
		move(na, 4)
		s = s.with(na, func(a *c25Acct) { a.code, a.word, a.nonce = []byte{7}, common.Hash{31: 1}, 1 })
	case 4: // a contract destroyed, if it is there
		send(&c25P, 1, c25Tok, nil, true, common.Address{})
		move(c25P, 1)
		if len(s[c25P].code) > 0 {
			v := s[c25P].bal
			s = s.with(c25P, func(a *c25Acct) { *a = c25Acct{} }).with(w.rich, func(a *c25Acct) { a.bal += v })
		}
	case 5: // stored and taken back
		send(&c25K, 0, c25Tok, word[:], true, common.Address{})
		send(&c25K, 0, c25Tok, make([]byte, 32), true, common.Address{})
		s = s.with(c25K, func(a *c25Acct) { a.word = common.Hash{} })
	}
	return s, done
}

// addOwn mines a block on the parent with the transactions put in by fill
func (w *c25World) addOwn(parent *types.MinorBlock, tag byte, fill func(b *types.MinorBlock, s c25State) (c25State, []c25Done)) *types.MinorBlock {
	gl, _ := w.cfg.Quarkchain.GasLimit(w.id)
	h := w.root.Hash()
	addr := account.Address{Recipient: common.Address{0xdd, tag}, FullShardKey: w.id}
	b := parent.CreateBlockToAppend(nil, big.NewInt(int64(3+tag)), &addr, nil, gl, new(big.Int).Div(gl, big.NewInt(2)), []byte{tag}, nil, &h)
	s := w.model[parent.Hash()]
	if parent.NumberU64() == 0 {
		for a, x := range w.arrive {
			s = s.with(a, func(y *c25Acct) { y.bal += x.bal })
		}
	}
	s, done := fill(b, s)
	n, rs, err := w.m.FinalizeAndAddBlock(b)
	if err != nil {
		panic(fmt.Sprint("block: ", err))
	}
	if len(rs) < len(done) {
		panic("receipts")
	}
	for i := range done {
		done[i].gas = rs[i].GasUsed
	}
	w.model[n.Hash()] = s
	w.txs[n.Hash()] = done
	w.all = append(w.all, n)
	return n
}

func (w *c25World) fingerprint() string {
	ks := w.db.Keys()
	l := make([]string, 0, len(ks))
	for _, k := range ks {
		v, _ := w.db.Get(k)
		l = append(l, string(k)+"="+string(v))
	}
	sort.Strings(l)
	st, _ := w.m.State()
	r := st.IntermediateRoot(true)
	return fmt.Sprintf("%x head %x state %x", crypto.Keccak256([]byte(strings.Join(l, "|"))), w.m.CurrentBlock().Hash(), r)
}

func (w *c25World) get() *types.Transaction {
	return &types.Transaction{TxType: types.EvmTx, EvmTx: types.NewEvmTransaction(0, c25K, new(big.Int), 0, new(big.Int), w.id, w.id, 3, 0, nil, c25Tok, c25Tok)}
}

// seen: what the keeper reports when asked at the block
func (w *c25World) seen(b *types.MinorBlock) string {
	h := b.Header()
	s := w.model[b.Hash()]
	out := s[c25K].word.Bytes()
	pad := func(v *big.Int) { out = append(out, common.LeftPadBytes(v.Bytes(), 32)...) }
	pad(new(big.Int).SetUint64(h.Number))
	pad(new(big.Int).SetUint64(h.Time))
	pad(new(big.Int).SetBytes(h.Coinbase.Recipient[:]))
	pad(h.GasLimit.Value)
	pad(h.Difficulty)
	pad(big.NewInt(s[c25K].bal))
	pad(new(big.Int).SetBytes(w.rich[:]))
	parent := h.ParentHash
	if h.Number == 0 {
		parent = common.Hash{}
	}
	return kit.Hex(append(out, parent[:]...))
}

func TestVerifC25Heights(t *testing.T) {
	h := kit.New("C25", "Heights")
	defer h.Done()
	length := kit.Tier(3, 4)
	h.Bound("blocks", length)
	h.Bound("kinds of block", c25Kinds)
	ctx := context.Background()
	h.Explore("all", kit.Opt{MaxDev: kit.Tier(2, 3)}, func(c *kit.Case) {
		pruning := c.Bool("pruning")
		w := c25New(pruning)
		defer w.m.Stop()
		chain := []*types.MinorBlock{w.m.CurrentBlock()}
		for i := 1; i <= length; i++ {
			chain = append(chain, w.add(chain[i-1], c.Dev(c25Kinds, "block"), 1))
		}
		if f := c.Choose(3, "fork"); f > 0 {
			// another branch takes over, starting below the head
			from := length - f
			n := append([]*types.MinorBlock{}, chain[:from+1]...)
			for i := 0; i <= f; i++ {
				n = append(n, w.add(n[len(n)-1], c.Dev(c25Kinds, "block"), 2))
			}
			chain = n
		}
		head := w.m.CurrentBlock()
		if head.Hash() != chain[len(chain)-1].Hash() {
			c.Fail("head", "the head is %d, want %d", head.Number(), len(chain)-1)
			return
		}
		c.State(head.Hash().Hex())
		before := w.fingerprint()
		made := vm.CreateAddress(w.rich, &w.id, 0)
		accounts := []common.Address{w.rich, c25X, c25K, c25P, c25N, made}
		for _, b := range w.all {
			for _, d := range w.txs[b.Hash()] {
				if d.creates != (common.Address{}) && d.creates != made {
					accounts = append(accounts, d.creates)
				}
			}
		}
		same := func(what string, err error, got, want interface{}) {
			g, x := fmt.Sprint(got), fmt.Sprint(want)
			sig := strings.Fields(strings.NewReplacer(" of ", "  ", " at ", "  ").Replace(what + " "))
			for len(sig) > 2 {
				sig = sig[:2]
			}
			if i := strings.IndexAny(what, "0123456789"); i > 0 {
				sig = strings.Fields(strings.NewReplacer(" of", "", " at", "").Replace(what[:i]))
			}
			c.Check(err == nil && g == x, "wrong-"+strings.Join(sig, "-"), "%s: %s (%v), want %s", what, g, err, x)
		}
		bal := func(a c25Acct) string { return fmt.Sprint(a.bal, "/", a.tok) }
		gotBal := func(t *types.TokenBalances) string {
			if t == nil {
				return "none"
			}
			r := fmt.Sprint(t.GetTokenBalance(c25Tok), "/", t.GetTokenBalance(c25Other))
			if n := t.Len(); n > 2 {
				r += fmt.Sprint(" of ", n)
			}
			return r
		}
		// by the block itself, also of the branch given up
		for _, b := range w.all {
			hash := b.Hash()
			for _, a := range accounts {
				x := w.model[hash][a]
				t, err := w.m.GetBalance(a, &hash)
				same(fmt.Sprintf("balance-by-block of %x at %d", a[:2], b.Number()), err, gotBal(t), bal(x))
				n, err := w.m.GetTransactionCount(a, &hash)
				same(fmt.Sprintf("nonce-by-block of %x at %d", a[:2], b.Number()), err, n, x.nonce)
				code, err := w.m.GetCode(a, &hash)
				same(fmt.Sprintf("code-by-block of %x at %d", a[:2], b.Number()), err, kit.Hex(code), kit.Hex(x.code))
				v, err := w.m.GetStorageAt(a, common.Hash{}, &hash)
				same(fmt.Sprintf("storage-by-block of %x at %d", a[:2], b.Number()), err, v.Hex(), x.word.Hex())
				pn, err := w.api.GetTransactionCount(ctx, a, qrpc.BlockNumberOrHash{BlockHash: &hash})
				if err == nil {
					same("api-nonce-by-block", err, uint64(*pn), x.nonce)
				} else {
					c.Fail("api-nonce-by-block", "%v", err)
				}
			}
			m, err := w.api.GetBlockByHash(ctx, hash, false)
			if err != nil {
				c.Fail("api-block-by-hash", "%v", err)
			} else {
				same("api-block-by-hash", err, m["hash"], hash)
			}
		}
		// by height
		top := uint64(len(chain) - 1)
		heights := []*uint64{nil}
		for i := uint64(0); i <= top+2; i++ {
			v := i
			heights = append(heights, &v)
		}
		far := uint64(1) << 63
		heights = append(heights, &far)
		for _, hp := range heights {
			name := "head"
			b := head
			if hp != nil {
				name = fmt.Sprint(*hp)
				b = nil
				if *hp <= top {
					b = chain[*hp]
				}
			}
			for _, a := range accounts {
				ad := &account.Address{Recipient: a, FullShardKey: w.id}
				who := fmt.Sprintf(" of %x at %s", a[:2], name)
				data, derr := w.b.GetAccountData(ad, hp)
				code, cerr := w.b.GetCode(ad, hp)
				word, werr := w.b.GetStorageAt(ad, common.Hash{}, hp)
				if b == nil {
					c.Check(len(data) == 0, "account-beyond-head", "account%s: %v (%v)", who, data, derr)
					c.Check(cerr != nil, "code-beyond-head", "code%s: %x", who, code)
					c.Check(werr != nil, "storage-beyond-head", "storage%s: %x", who, word)
					continue
				}
				x := w.model[b.Hash()][a]
				if derr != nil || len(data) != 1 {
					c.Fail("account", "account%s: %v (%v)", who, data, derr)
					continue
				}
				same("balance"+who, nil, gotBal(data[0].Balance), bal(x))
				same("nonce"+who, nil, data[0].TransactionCount, x.nonce)
				same("contract"+who, nil, data[0].IsContract, len(x.code) > 0)
				same("branch"+who, nil, data[0].Branch, w.id)
				same("code"+who, cerr, kit.Hex(code), kit.Hex(x.code))
				same("storage"+who, werr, word.Hex(), x.word.Hex())
			}
			res, err := w.b.ExecuteTx(w.get(), &account.Address{Recipient: w.rich, FullShardKey: w.id}, hp)
			if b == nil {
				c.Check(err != nil, "call-beyond-head", "call at %s: %x", name, res)
			} else {
				same("call at "+name, err, kit.Hex(res), w.seen(b))
			}
			blk, err := w.b.GetMinorBlock(common.Hash{}, hp, w.id)
			if b == nil {
				c.Check(err != nil, "block-beyond-head", "block at %s", name)
			} else if err != nil {
				c.Fail("block", "block at %s: %v", name, err)
			} else {
				same("block at "+name, nil, blk.Hash(), b.Hash())
			}
		}
		// the public interface: numbers, latest, pending, earliest
		for n := qrpc.BlockNumber(-2); n <= qrpc.BlockNumber(top)+1; n++ {
			var b *types.MinorBlock
			switch {
			case n < 0:
				b = head
			case n <= qrpc.BlockNumber(top):
				b = chain[n]
			}
			nn := n
			name := fmt.Sprint("api answer at ", n)
			hd, err := w.api.GetHeaderByNumber(ctx, n)
			bk, err2 := w.api.GetBlockByNumber(ctx, n, false)
			res, err3 := w.api.Call(MetaCallArgs{From: w.rich, To: &c25K, Value: (*hexutil.Big)(new(big.Int)), GasPrice: (*hexutil.Big)(new(big.Int))}, &nn)
			if b == nil {
				c.Check(err != nil && err2 != nil && err3 != nil, "api-beyond-head", "%s: header %v, block %v, call %v", name, err, err2, err3)
			} else {
				if err != nil || err2 != nil {
					c.Fail("api-block", "%s: %v %v", name, err, err2)
					continue
				}
				same(name+" header", err, hd["hash"], b.Hash())
				same(name+" block", err2, bk["hash"], b.Hash())
				same(name+" call", err3, kit.Hex(res), w.seen(b))
			}
			for _, a := range accounts {
				code, err := w.api.GetCode(a, n)
				cnt, err2 := w.api.GetTransactionCount(ctx, a, qrpc.BlockNumberOrHash{BlockNumber: &nn})
				if b == nil {
					c.Check(err != nil && err2 != nil, "api-beyond-head", "%s: code %v nonce %v", name, err, err2)
					continue
				}
				x := w.model[b.Hash()][a]
				same(fmt.Sprintf("%s code of %x", name, a[:2]), err, kit.Hex(code), kit.Hex(x.code))
				if err2 != nil {
					c.Fail("api-nonce", "%s nonce of %x: %v", name, a[:2], err2)
					continue
				}
				if n == qrpc.PendingBlockNumber {
					continue // counts what the pool holds, which learns of new heads on its own time
				}
				same(fmt.Sprintf("%s nonce of %x", name, a[:2]), nil, uint64(*cnt), x.nonce)
			}
		}
		same("api head", nil, uint64(w.api.BlockNumber(ctx)), top)
		// receipts and transactions of the followed chain
		on := map[common.Hash]bool{}
		for _, b := range chain {
			for i, d := range w.txs[b.Hash()] {
				on[d.hash] = true
				name := fmt.Sprintf("transaction %d of block %d", i, b.Number())
				rb, ri, r, err := w.b.GetTransactionReceipt(d.hash, w.id)
				if err != nil || rb == nil || r == nil {
					c.Fail("receipt", "%s: no receipt (%v)", name, err)
					continue
				}
				st := uint64(0)
				if d.ok {
					st = 1
				}
				same("receipt of "+name, nil, fmt.Sprint(rb.Hash() == b.Hash(), ri, r.Status, r.GasUsed, r.ContractAddress == d.creates), fmt.Sprint(true, i, st, d.gas, true))
				m, err := w.api.GetTransactionReceipt(ctx, d.hash)
				if err != nil || m == nil {
					c.Fail("api-receipt", "%s: %v", name, err)
					continue
				}
				ca, want := m["contractAddress"], interface{}(nil)
				if d.creates != (common.Address{}) {
					want = d.creates
				}
				same("api receipt of "+name, nil, fmt.Sprint(m["blockHash"] == b.Hash(), m["transactionIndex"], m["status"], m["gasUsed"], ca, m["from"] == w.rich, m["transactionHash"] == d.hash),
					fmt.Sprint(true, hexutil.Uint64(i), hexutil.Uint(st), hexutil.Uint64(d.gas), want, true, true))
				tb, ti, err := w.b.GetTransactionByHash(d.hash, w.id)
				if err != nil || tb == nil {
					c.Fail("transaction", "%s: %v", name, err)
					continue
				}
				same(name, nil, fmt.Sprint(tb.Hash() == b.Hash(), ti), fmt.Sprint(true, i))
				rt, err := w.api.GetTransactionByHash(ctx, d.hash)
				if err != nil || rt == nil {
					c.Fail("api-transaction", "%s: %v", name, err)
					continue
				}
				same("api "+name, nil, fmt.Sprint(rt.BlockHash != nil && *rt.BlockHash == b.Hash(), rt.Hash == d.hash, rt.From == w.rich), "true true true")
			}
		}
		for _, b := range w.all {
			for _, d := range w.txs[b.Hash()] {
				if on[d.hash] {
					continue
				}
				_, _, r, err := w.b.GetTransactionReceipt(d.hash, w.id)
				c.Check(r == nil, "receipt-of-abandoned", "a transaction of an abandoned block has a receipt (%v)", err)
			}
		}
		if after := w.fingerprint(); after != before {
			c.Fail("query-changed-state", "answering changed %s to %s", before, after)
		}
		c.Outcome("fork %v", len(chain) != length+1)
	})
}

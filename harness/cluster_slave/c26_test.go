package slave

// C26: requests through the public JSON interface, carried by the real server, master, slave connection and slave of
// a whole cluster, against a model written from the blocks it was given.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"unsafe"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/master"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/internal/qkcapi"
	"github.com/QuarkChain/goquarkchain/qkcdb"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/rlp"
)

// c26Set writes an unexported field.
func c26Set(obj interface{}, name string, v interface{}) {
	f := reflect.ValueOf(obj).Elem().FieldByName(name)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
}

// c26Client is the wire between the master and its slaves.
type c26Client struct {
	mu     sync.Mutex
	slaves map[string]*SlaveBackend
	sent   []string // transactions handed over: slave and hash
}

func (f *c26Client) GetOpName(uint32) string { return "" }
func (f *c26Client) Close()                  {}
func (f *c26Client) Call(target string, req *rpc.Request) (*rpc.Response, error) {
	b, ok := f.slaves[target]
	if !ok {
		return nil, errors.New("no such slave")
	}
	s, ctx := NewServerSideOp(b), context.Background()
	// what arrives is a copy
	req = &rpc.Request{Op: req.Op, RpcId: req.RpcId, Data: append([]byte{}, req.Data...)}
	switch req.Op {
	case rpc.OpAddTransaction:
		r := new(rpc.AddTransactionRequest)
		if err := serialize.DeserializeFromBytes(req.Data, r); err != nil {
			return nil, err
		}
		f.mu.Lock()
		f.sent = append(f.sent, fmt.Sprintf("%s:%x", target, r.Tx.Hash()))
		f.mu.Unlock()
		return &rpc.Response{}, nil
	case rpc.OpGetAccountData:
		return s.GetAccountData(ctx, req)
	case rpc.OpGetMinorBlock:
		return s.GetMinorBlock(ctx, req)
	case rpc.OpGetTransaction:
		return s.GetTransaction(ctx, req)
	case rpc.OpExecuteTransaction:
		return s.ExecuteTransaction(ctx, req)
	case rpc.OpGetTransactionReceipt:
		return s.GetTransactionReceipt(ctx, req)
	case rpc.OpGetTransactionListByAddress:
		return s.GetTransactionListByAddress(ctx, req)
	case rpc.OpGetAllTx:
		return s.GetAllTx(ctx, req)
	case rpc.OpGetLogs:
		return s.GetLogs(ctx, req)
	case rpc.OpEstimateGas:
		return s.EstimateGas(ctx, req)
	case rpc.OpGetStorageAt:
		return s.GetStorageAt(ctx, req)
	case rpc.OpGetCode:
		return s.GetCode(ctx, req)
	case rpc.OpGasPrice:
		return s.GasPrice(ctx, req)
	}
	panic(fmt.Sprint("unexpected operation ", req.Op))
}

// c26Backend: the master, apart from what needs its miner and network
type c26Backend struct{ *master.QKCMasterBackend }

func (b c26Backend) IsSyncing() bool { return false }
func (b c26Backend) IsMining() bool  { return true }
func (b c26Backend) NetWorkInfo() map[string]interface{} {
	return map[string]interface{}{"networkId": hexutil.Uint(3)}
}

type c26World struct {
	*c25World
	cfg    *config.ClusterConfig
	shards map[uint32]*c25World
	roots  *core.RootBlockChain
	rblk   []*types.RootBlock // the root chain followed
	net    *c26Client
	mstr   *master.QKCMasterBackend
	cl     *qrpc.Client
	dir    string
	chain  []*types.MinorBlock
	dep    *types.CrossShardTransactionDeposit
	fromD  map[common.Hash][]*types.Transaction
}

func c26RootAt(parent *types.RootBlock, diff int64, tag byte, hs ...*types.MinorBlockHeader) *types.RootBlock {
	cb := account.CreatEmptyAddress(0)
	t := parent.Time() + 10
	r := parent.Header().CreateBlockToAppend(&t, big.NewInt(diff), &cb, nil, []byte{tag})
	for _, h := range hs {
		r.AddMinorBlockHeader(h)
	}
	return r.Finalize(types.NewTokenBalancesWithMap(map[uint64]*big.Int{c25Tok: big.NewInt(1)}), &cb, common.Hash{})
}

const c26Shard = uint32(65539)

// c26New builds the cluster: two slaves with two shards each, a root chain, and a cross-shard arrival on its way.
func c26New() *c26World {
	cfg := c25Cfg()
	cfg.EnableTransactionHistory = true
	q := cfg.Quarkchain
	dir, err := ioutil.TempDir("", "verifc26")
	if err != nil {
		panic(err)
	}
	db, err := qkcdb.NewDatabase(dir+"/db", false, false)
	if err != nil {
		panic(err)
	}
	w := &c26World{cfg: cfg, shards: map[uint32]*c25World{}, dir: dir, fromD: map[common.Hash][]*types.Transaction{}}
	g := core.NewGenesis(q)
	root0 := g.CreateRootBlock()
	rdb := ethdb.NewMemDatabase()
	if _, _, err := core.SetupGenesisRootBlock(rdb, g); err != nil {
		panic(err)
	}
	w.roots, err = core.NewRootBlockChain(rdb, q, new(consensus.FakeEngine))
	if err != nil {
		panic(err)
	}
	w.roots.SetEnableCountMinorBlocks(cfg.EnableTransactionHistory)
	var hs []*types.MinorBlockHeader
	ids := c17IDs(cfg)
	for _, id := range ids {
		x := c25Begin(cfg, id, false, map[bool]ethdb.Database{true: db, false: ethdb.NewMemDatabase()}[id == c26Shard])
		w.shards[id] = x
		hs = append(hs, x.m.CurrentBlock().Header())
	}
	w.c25World = w.shards[c26Shard]
	r1 := c26RootAt(root0, 1, 1, hs...)
	// a block of shard 2 sends something
	_, sender := c18Key(7)
	w.dep = &types.CrossShardTransactionDeposit{CrossShardTransactionDepositV0: types.CrossShardTransactionDepositV0{TxHash: common.Hash{0xde, 1}, From: account.Address{Recipient: sender, FullShardKey: 2},
		To: account.Address{Recipient: c25X, FullShardKey: 0x10007}, Value: &serialize.Uint256{Value: big.NewInt(9)}, GasPrice: &serialize.Uint256{Value: new(big.Int)},
		GasTokenID: c25Tok, TransferTokenID: c25Tok, GasRemained: &serialize.Uint256{Value: new(big.Int)}, MessageData: []byte{}}}
	w.rblk = []*types.RootBlock{root0}
	w.addRoot(r1)
	far := w.shards[2].add(w.shards[2].m.CurrentBlock(), 0, 1).Header()
	for _, id := range ids {
		l := &types.CrossShardTransactionDepositList{}
		if id == c26Shard {
			l.TXList = append(l.TXList, w.dep)
		}
		if id != 2 {
			w.shards[id].m.AddCrossShardTxListByMinorBlockHash(far.Hash(), *l)
		}
	}
	w.addRoot(c26RootAt(r1, 1, 2, far))
	w.arrive = c25State{}.with(c25X, func(a *c25Acct) { a.bal = 9 })

	w.net = &c26Client{slaves: map[string]*SlaveBackend{}}
	host := map[string][]uint32{"a": {2, 65538}, "b": {3, 65539}}
	mgr := master.SlaveConnManager{}
	var pool []rpc.ISlaveConn
	byBranch := map[uint32][]rpc.ISlaveConn{}
	m := new(master.QKCMasterBackend)
	for _, n := range []string{"a", "b"} {
		b := &SlaveBackend{clstrCfg: cfg, config: config.NewDefaultSlaveConfig(), shards: map[uint32]*shard.ShardBackend{}, fullShardList: host[n]}
		conn := master.NewSlaveConn(n, host[n], n)
		c26Set(conn, "client", w.net)
		pool = append(pool, conn)
		for _, id := range host[n] {
			b.shards[id] = &shard.ShardBackend{MinorBlockChain: w.shards[id].m}
			byBranch[id] = append(byBranch[id], conn)
		}
		w.net.slaves[n] = b
	}
	c26Set(&mgr, "count", 2)
	c26Set(&mgr, "clientPool", pool)
	c26Set(&mgr, "branchToSlaveConns", byBranch)
	m.SlaveConnManager = mgr
	c26Set(m, "clusterConfig", cfg)
	c26Set(m, "rootBlockChain", w.roots)
	c26Set(m, "branchToShardStats", map[uint32]*rpc.ShardStatus{})
	pm := new(master.ProtocolManager)
	f := reflect.ValueOf(pm).Elem().FieldByName("peers")
	c26Set(pm, "peers", reflect.New(f.Type().Elem()).Interface())
	c26Set(m, "protocolManager", pm)
	w.mstr = m
	s := qrpc.NewServer()
	for _, a := range qkcapi.GetAPIs(c26Backend{m}) {
		if err := s.RegisterName(a.Namespace, a.Service); err != nil {
			panic(err)
		}
	}
	w.cl = qrpc.DialInProc(s)
	w.chain = []*types.MinorBlock{w.m.CurrentBlock()}
	return w
}

func (w *c26World) stop() {
	w.cl.Close()
	for _, x := range w.shards {
		x.m.Stop()
	}
	w.c25World.store.(*qkcdb.QKCDataBase).Close()
	if err := os.RemoveAll(w.dir); err != nil {
		panic(err)
	}
}

// addRoot gives a root block to the root chain and every shard.
func (w *c26World) addRoot(r *types.RootBlock) {
	for _, h := range r.MinorBlockHeaders() {
		w.roots.AddValidatedMinorBlockHeader(h.Hash(), h.GetCoinbaseAmount())
	}
	if _, err := w.roots.InsertChain([]types.IBlock{r}); err != nil {
		panic(fmt.Sprint("root ", r.Number(), ": ", err))
	}
	for _, id := range c17IDs(w.cfg) {
		x := w.shards[id]
		if _, err := x.m.AddRootBlock(r); err != nil {
			panic(fmt.Sprint("root ", r.Number(), " on ", id, ": ", err))
		}
		x.root = r
	}
	// the chain followed: up to r
	var l []*types.RootBlock
	for _, o := range w.rblk {
		if o.NumberU64() < r.NumberU64() {
			l = append(l, o)
		}
	}
	w.rblk = append(l, r)
}

// status tells the master the shards' heads, as their slaves do
func (w *c26World) status() {
	for id, x := range w.shards {
		s, err := x.m.GetShardStats()
		if err != nil {
			panic(err)
		}
		if s.Branch.Value != id {
			panic("branch")
		}
		w.mstr.UpdateShardStatus(s)
	}
}

// ---- the model's side: JSON values written down by hand

func jq(v interface{}) string { return fmt.Sprintf("0x%x", v) }
func jb(b []byte) string      { return "0x" + kit.Hex(b) }
func jid(h common.Hash, key uint32) string {
	return jb(append(append([]byte{}, h[:]...), byte(key>>24), byte(key>>16), byte(key>>8), byte(key)))
}
func ja(a common.Address, key uint32) string {
	return jb(append(append([]byte{}, a[:]...), byte(key>>24), byte(key>>16), byte(key>>8), byte(key)))
}
func jtoken(id uint64) string { return map[uint64]string{c25Tok: "QKC", c25Other: "1"}[id] }

// jbal: balances as a map from token to amount, zeros left out; "" if the answer is not one
func jbal(v interface{}) string {
	l, ok := v.([]interface{})
	if !ok {
		return "not a list"
	}
	var out []string
	for _, x := range l {
		m, ok := x.(map[string]interface{})
		if !ok || len(m) != 3 {
			return "strange entry"
		}
		if m["balance"] == "0x0" {
			continue
		}
		out = append(out, fmt.Sprint(m["tokenId"], m["tokenStr"], m["balance"]))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func (a c25Acct) jbal() string {
	var out []string
	for t, v := range map[uint64]int64{c25Tok: a.bal, c25Other: a.tok} {
		if v != 0 {
			out = append(out, fmt.Sprint(jq(t), jtoken(t), jq(v)))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func jtokens(b *types.TokenBalances) string {
	if b == nil {
		return ""
	}
	var out []string
	for t, v := range b.GetBalanceMap() {
		if v.Sign() != 0 {
			out = append(out, fmt.Sprint(jq(t), jtoken(t), jq(v)))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func (w *c26World) ask(c *kit.Case, method string, args ...interface{}) (interface{}, error) {
	c.Step()
	if args == nil {
		args = []interface{}{}
	}
	var raw json.RawMessage
	if err := w.cl.CallContext(context.Background(), &raw, "qkc_"+method, args...); err != nil {
		return nil, err
	}
	var v interface{}
	if len(raw) == 0 {
		return nil, nil
	}
	if err := json.Unmarshal(raw, &v); err != nil {
		panic(err)
	}
	return v, nil
}

// want asks and compares; want is a plain value, or a map of the fields to compare ("#x": balances of field x).
func (w *c26World) want(c *kit.Case, sig string, want interface{}, method string, args ...interface{}) interface{} {
	v, err := w.ask(c, method, args...)
	c.Check(err == nil, sig, "%s%s is refused: %v", method, c26Text(args), err)
	w.same(c, sig, want, v, method+c26Text(args))
	return v
}

func c26Text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}

func (w *c26World) same(c *kit.Case, sig string, want, v interface{}, what string) {
	m, ok := want.(map[string]interface{})
	if !ok {
		c.Check(c26Text(v) == c26Text(want), sig, "%s answers %s, expected %s", what, c26Text(v), c26Text(want))
		return
	}
	got, ok := v.(map[string]interface{})
	c.Check(ok, sig, "%s answers %s", what, c26Text(v))
	for k, x := range m {
		if k[0] == '#' {
			c.Check(jbal(got[k[1:]]) == x, sig, "%s: field %s is %s, expected %v", what, k[1:], c26Text(got[k[1:]]), x)
			continue
		}
		y, ok := got[k]
		c.Check(ok, sig, "%s: no field %s", what, k)
		c.Check(c26Text(y) == c26Text(x), sig, "%s: field %s is %s, expected %s", what, k, c26Text(y), c26Text(x))
	}
}

func (w *c26World) refused(c *kit.Case, sig string, method string, args ...interface{}) {
	v, err := w.ask(c, method, args...)
	c.Check(err != nil, sig, "%s%s is answered with %s", method, c26Text(args), c26Text(v))
}

func (w *c26World) jtx(b *types.MinorBlock, i int) map[string]interface{} {
	t := b.Transactions()[i].EvmTx
	v, r, s := t.RawSignatureValues()
	to := "0x"
	if t.To() != nil {
		to = jb(t.To()[:])
	}
	key := func(k uint32) string { return fmt.Sprintf("0x%08x", k) }
	return map[string]interface{}{"id": jid(b.Transactions()[i].Hash(), t.FromFullShardKey()), "hash": jb(b.Transactions()[i].Hash().Bytes()), "nonce": jq(t.Nonce()), "timestamp": jq(b.Time()),
		"fullShardId": jq(w.id), "chainId": "0x1", "shardId": "0x1", "blockId": jid(b.Hash(), w.id), "blockHeight": jq(b.NumberU64()), "transactionIndex": jq(i),
		"from": jb(w.rich[:]), "to": to, "fromFullShardKey": key(t.FromFullShardKey()), "toFullShardKey": key(t.ToFullShardKey()), "value": jq(t.Value()), "gasPrice": jq(t.GasPrice()),
		"gas": jq(t.Gas()), "data": jb(t.Data()), "networkId": "0x3", "transferTokenId": jq(t.TransferTokenID()), "gasTokenId": jq(t.GasTokenID()),
		"transferTokenStr": jtoken(t.TransferTokenID()), "gasTokenStr": jtoken(t.GasTokenID()), "r": jq(r), "s": jq(s), "v": jq(v)}
}

func (w *c26World) jblock(b *types.MinorBlock) map[string]interface{} {
	h, m := b.Header(), b.Meta()
	miner := ja(h.Coinbase.Recipient, h.Coinbase.FullShardKey)
	size, err := serialize.SerializeToBytes(b)
	if err != nil {
		panic(err)
	}
	return map[string]interface{}{"id": jid(b.Hash(), w.id), "height": jq(h.Number), "number": jq(h.Number), "hash": jb(b.Hash().Bytes()), "fullShardId": jq(w.id), "chainId": "0x1", "shardId": "0x1",
		"hashPrevMinorBlock": jb(h.ParentHash[:]), "parentHash": jb(h.ParentHash[:]), "idPrevMinorBlock": jid(h.ParentHash, w.id), "hashPrevRootBlock": jb(h.PrevRootBlockHash[:]),
		"nonce": fmt.Sprintf("0x%016x", h.Nonce), "mixHash": jb(h.MixDigest[:]), "miner": miner, "#coinbase": jtokens(h.CoinbaseAmount), "difficulty": jq(h.Difficulty), "extraData": jb(h.Extra),
		"gasLimit": jq(h.GasLimit.Value), "timestamp": jq(h.Time), "logsBloom": jb(h.Bloom[:]), "hashMerkleRoot": jb(m.TxHash[:]), "transactionsRoot": jb(m.TxHash[:]),
		"hashEvmStateRoot": jb(m.Root[:]), "stateRoot": jb(m.Root[:]), "receiptsRoot": jb(m.ReceiptHash[:]), "gasUsed": jq(m.GasUsed.Value), "size": jq(len(size))}
}

func (w *c26World) jroot(r *types.RootBlock) map[string]interface{} {
	h := r.Header()
	size, err := serialize.SerializeToBytes(r)
	if err != nil {
		panic(err)
	}
	return map[string]interface{}{"id": jb(r.Hash().Bytes()), "height": jq(h.Number), "hash": jb(r.Hash().Bytes()), "sealHash": jb(h.SealHash().Bytes()), "hashPrevBlock": jb(h.ParentHash[:]), "idPrevBlock": jb(h.ParentHash[:]),
		"nonce": jq(h.Nonce), "hashMerkleRoot": jb(h.MinorHeaderHash[:]), "miner": ja(h.Coinbase.Recipient, h.Coinbase.FullShardKey), "#coinbase": jtokens(h.CoinbaseAmount), "difficulty": jq(h.Difficulty),
		"timestamp": jq(h.Time), "size": jq(len(size)), "signature": jb(h.Signature[:])}
}

// c26Tx: an own transaction
type c26Tx struct {
	from, to uint32 // shard keys
	rcpt     *common.Address
	value    int64
	token    uint64
	price    int64
	gas      uint64
	data     []byte
	nonce    uint64
}

func (t c26Tx) sign() *types.Transaction {
	var e *types.EvmTransaction
	if t.rcpt == nil {
		e = types.NewEvmContractCreation(t.nonce, big.NewInt(t.value), t.gas, big.NewInt(t.price), t.from, t.to, 3, 0, t.data, c25Tok, t.token)
	} else {
		e = types.NewEvmTransaction(t.nonce, *t.rcpt, big.NewInt(t.value), t.gas, big.NewInt(t.price), t.from, t.to, 3, 0, t.data, c25Tok, t.token)
	}
	k, _ := c18Key(9)
	s, err := types.SignTx(e, types.MakeSigner(3), k)
	if err != nil {
		panic(err)
	}
	return &types.Transaction{TxType: types.EvmTx, EvmTx: s}
}

// own: blocks with transactions of other shapes
func c26Own(kind int) []c26Tx {
	far := common.Address{0xaa, 2}
	switch kind {
	case 6:
		return []c26Tx{{from: 0x10001, to: 0x10007, rcpt: &c25L, gas: 100000, token: c25Tok, data: []byte{1, 2}}, {from: 0x10007, to: 0x10001, rcpt: &c25X, value: 6, token: c25Other, price: 2, gas: 21000}}
	case 7:
		return []c26Tx{{from: 65539, to: 2, rcpt: &far, value: 8, token: c25Tok, gas: 30000}, {from: 65539, to: 65539, rcpt: &c25L, value: 1, gas: 100000, token: c25Tok}}
	}
	return nil
}

func (w *c26World) own(parent *types.MinorBlock, kind int, tag byte) *types.MinorBlock {
	if kind < c25Kinds {
		return w.add(parent, kind, tag)
	}
	return w.addOwn(parent, tag, func(b *types.MinorBlock, s c25State) (c25State, []c25Done) {
		var done []c25Done
		for _, t := range c26Own(kind) {
			t := t
			t.nonce = uint64(s[w.rich].nonce)
			tx := t.sign()
			b.AddTx(tx)
			done = append(done, c25Done{hash: tx.Hash(), ok: true, to: t.rcpt})
			s = s.with(w.rich, func(a *c25Acct) {
				a.nonce++
				a.bal -= t.price * int64(t.gas)
				if t.token == c25Tok {
					a.bal -= t.value
				} else {
					a.tok -= t.value
				}
			})
			if t.to != 2 {
				s = s.with(*t.rcpt, func(a *c25Acct) {
					if t.token == c25Tok {
						a.bal += t.value
					} else {
						a.tok += t.value
					}
				})
			}
		}
		return s, done
	})
}

func TestVerifC26Queries(t *testing.T) {
	h := kit.New("C26", "Queries")
	defer h.Done()
	length := kit.Tier(2, 3)
	h.Bound("blocks", length)
	h.Bound("kinds of block", c25Kinds+2)
	h.Explore("all", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		w := c26New()
		defer w.stop()
		for i := 1; i <= length; i++ {
			w.chain = append(w.chain, w.own(w.chain[i-1], c.Choose(c25Kinds+2, "block"), 1))
		}
		var gone []*types.MinorBlock
		if c.Bool("fork") {
			// the last block is replaced by two others
			gone = []*types.MinorBlock{w.chain[length]}
			w.chain = w.chain[:length]
			w.chain = append(w.chain, w.own(w.chain[length-1], 6, 2))
			w.chain = append(w.chain, w.own(w.chain[length], 7, 2))
		}
		head := len(w.chain) - 1
		conf := c.Choose(head+1, "confirmed")
		var hs []*types.MinorBlockHeader
		for i := 1; i <= conf; i++ {
			hs = append(hs, w.chain[i].Header())
		}
		for _, x := range hs {
			for id, o := range w.shards {
				if id != w.id {
					o.m.AddCrossShardTxListByMinorBlockHash(x.Hash(), types.CrossShardTransactionDepositList{})
				}
			}
		}
		r2 := w.rblk[2]
		w.addRoot(c26RootAt(r2, 1, 3, hs...))
		w.status()
		c.Check(w.m.CurrentBlock().Hash() == w.chain[head].Hash(), "head", "head %d is not the expected one", w.m.CurrentBlock().NumberU64())
		w.accounts(c, head)
		w.blocks(c, head, gone)
		w.history(c, head)
		w.logs(c, head)
		w.rootQueries(c, conf)
		w.others(c, head)
		// the confirming root block is abandoned
		if conf > 0 {
			w.addRoot(c26RootAt(r2, 5, 4, hs[:conf-1]...))
			w.status()
			w.chain = w.chain[:0]
			for i := uint64(0); i <= w.m.CurrentBlock().NumberU64(); i++ {
				w.chain = append(w.chain, w.m.GetBlockByNumber(i).(*types.MinorBlock))
			}
			w.rootQueries(c, conf-1)
		}
		c.State(w.chain[len(w.chain)-1].Hash().Hex())
	})
}

var c26Keys = []uint32{65539, 0x10001, 0x10007}

// accounts: balances, nonces, code and storage at every height
func (w *c26World) accounts(c *kit.Case, head int) {
	type at struct {
		n    int
		args []interface{}
	}
	var ats []at
	for n := 0; n <= head; n++ {
		ats = append(ats, at{n, []interface{}{jq(n)}})
	}
	ats = append(ats, at{head, nil}, at{head, []interface{}{nil}}, at{head, []interface{}{"latest"}}, at{0, []interface{}{"earliest"}})
	who := []common.Address{w.rich, c25K, c25P, c25X, c25L, {0x77}}
	for i, x := range ats {
		key := c26Keys[i%len(c26Keys)]
		st := w.model[w.chain[x.n].Hash()]
		for _, a := range who {
			m := st[a]
			adr := ja(a, key)
			args := append([]interface{}{adr}, x.args...)
			w.want(c, "balances", map[string]interface{}{"branch": jq(w.id), "fullShardId": jq(w.id), "chainId": "0x1", "shardId": "0x1", "#balances": m.jbal()}, "getBalances", args...)
			w.want(c, "nonce", jq(m.nonce), "getTransactionCount", args...)
			w.want(c, "code", jb(m.code), "getCode", args...)
			w.want(c, "storage", jb(m.word[:]), "getStorageAt", append([]interface{}{adr, jb(make([]byte, 32))}, x.args...)...)
			v := w.want(c, "account", map[string]interface{}{}, "getAccountData", args...).(map[string]interface{})
			w.same(c, "account", map[string]interface{}{"fullShardId": jq(w.id), "chainId": "0x1", "shardId": "0x1", "#balances": m.jbal(), "transactionCount": jq(m.nonce), "isContract": len(m.code) > 0}, v["primary"], "getAccountData of "+adr)
		}
		w.want(c, "call", "0x"+w.seen(w.chain[x.n]), "call", append([]interface{}{map[string]interface{}{"from": ja(w.rich, key), "to": ja(c25K, c26Keys[(i+1)%3])}}, x.args...)...)
	}
	// beyond the head, and nothing is pending there
	for _, b := range []string{jq(head + 1), "0xffffffff", "pending"} {
		for _, m := range []string{"getBalances", "getTransactionCount", "getCode", "getAccountData"} {
			w.refused(c, "beyond", m, ja(w.rich, w.id), b)
		}
		w.refused(c, "beyond", "getStorageAt", ja(c25K, w.id), jb(make([]byte, 32)), b)
		w.refused(c, "beyond", "call", map[string]interface{}{"from": ja(w.rich, w.id), "to": ja(c25K, w.id)}, b)
	}
	// in all shards
	for _, a := range who {
		v := w.want(c, "all-shards", map[string]interface{}{}, "getAccountData", ja(a, 0x10007), nil, true).(map[string]interface{})
		l, _ := v["shards"].([]interface{})
		c.Check(len(l) == 4, "all-shards", "getAccountData of all shards answers %s", c26Text(v))
		seen := map[string]bool{}
		for _, x := range l {
			f, _ := x.(map[string]interface{})
			for id, s := range w.shards {
				if f["fullShardId"] != jq(id) {
					continue
				}
				m := s.model[s.m.CurrentBlock().Hash()][a]
				seen[jq(id)] = true
				w.same(c, "all-shards", map[string]interface{}{"chainId": jq(id >> 16), "shardId": jq(id & 1), "#balances": m.jbal(), "transactionCount": jq(m.nonce), "isContract": len(m.code) > 0}, x, fmt.Sprintf("getAccountData of %x in shard %d", a, id))
			}
		}
		c.Check(len(seen) == 4, "all-shards", "shards missing in %s", c26Text(v))
		w.same(c, "all-shards", map[string]interface{}{"fullShardId": jq(w.id)}, v["primary"], "primary part of all shards")
	}
	w.refused(c, "all-shards", "getAccountData", ja(w.rich, w.id), "latest", true)
	// other shards, and shards there are not
	for id, s := range w.shards {
		w.want(c, "other-shard", map[string]interface{}{"branch": jq(id), "#balances": s.model[s.m.CurrentBlock().Hash()][w.rich].jbal()}, "getBalances", ja(w.rich, id>>16<<16|id&1|4))
	}
	w.refused(c, "no-shard", "getBalances", ja(w.rich, 2<<16))
}

// blocks and the transactions in them
func (w *c26World) blocks(c *kit.Case, head int, gone []*types.MinorBlock) {
	all := append(append([]*types.MinorBlock{}, w.chain...), gone...)
	for i, b := range all {
		want := w.jblock(b)
		for _, full := range []bool{false, true} {
			var asks []interface{}
			if i <= head {
				asks = append(asks, w.want(c, "block", want, "getMinorBlockByHeight", jq(c26Keys[i%3]), jq(i), full))
			}
			asks = append(asks, w.want(c, "block", want, "getMinorBlockById", jid(b.Hash(), c26Keys[(i+1)%3]), full))
			if !full {
				// identities unless told otherwise
				asks = append(asks, w.want(c, "block", want, "getMinorBlockById", jid(b.Hash(), c26Keys[i%3])))
				if i <= head {
					asks = append(asks, w.want(c, "block", want, "getMinorBlockByHeight", jq(c26Keys[(i+2)%3]), jq(i)))
				}
			}
			for _, v := range asks {
				l, _ := v.(map[string]interface{})["transactions"].([]interface{})
				c.Check(len(l) == len(b.Transactions()), "block-txs", "block %d is shown with %d transactions, it has %d", i, len(l), len(b.Transactions()))
				for j := range l {
					if full {
						w.same(c, "block-txs", w.jtx(b, j), l[j], fmt.Sprintf("transaction %d of block %d", j, i))
					} else if i <= head {
						_, id := l[j].(string)
						c.Check(id, "block-txs", "block %d shows %s where an identity was asked for", i, c26Text(l[j]))
						// the id leads to the transaction
						w.want(c, "tx", w.jtx(b, j), "getTransactionById", l[j])
					}
				}
			}
		}
	}
	w.want(c, "block", w.jblock(w.chain[head]), "getMinorBlockByHeight", jq(w.id))
	w.want(c, "block", w.jblock(w.chain[head]), "getMinorBlockByHeight", jq(w.id), nil, false, false)
	w.refused(c, "no-block", "getMinorBlockByHeight", jq(w.id), jq(head+1))
	w.refused(c, "no-block", "getMinorBlockById", jid(common.Hash{1}, w.id))
	w.refused(c, "no-block", "getMinorBlockById", jid(common.Hash{}, w.id))
	w.refused(c, "no-block", "getMinorBlockById", jid(w.chain[head].Hash(), 2))

	live := map[common.Hash]bool{}
	for i, b := range w.chain {
		used := uint64(0)
		logs := 0
		for j, d := range w.txs[b.Hash()] {
			tx := b.Transactions()[j]
			id := jid(tx.Hash(), tx.EvmTx.FromFullShardKey())
			live[tx.Hash()] = true
			w.want(c, "tx", w.jtx(b, j), "getTransactionById", id)
			used += d.gas
			var creates interface{}
			if d.creates != (common.Address{}) {
				creates = ja(d.creates, w.id)
			} else if d.to == nil {
				creates = nil
			}
			ok := "0x0"
			if d.ok {
				ok = "0x1"
			}
			want := map[string]interface{}{"transactionId": id, "transactionHash": jb(tx.Hash().Bytes()), "transactionIndex": jq(j), "blockId": jid(b.Hash(), w.id), "blockHash": jb(b.Hash().Bytes()),
				"blockHeight": jq(i), "blockNumber": jq(i), "cumulativeGasUsed": jq(used), "gasUsed": jq(d.gas), "status": ok, "timestamp": jq(b.Time())}
			if d.ok {
				want["contractAddress"] = creates
			}
			v := w.want(c, "receipt", want, "getTransactionReceipt", id).(map[string]interface{})
			l, _ := v["logs"].([]interface{})
			n := 0
			if d.to != nil && *d.to == c25L {
				n = 2
			}
			c.Check(len(l) == n, "receipt-logs", "the receipt of transaction %d of block %d has %d logs, expected %d", j, i, len(l), n)
			for k := range l {
				w.same(c, "receipt-logs", w.jlog(b, j, logs, k), l[k], "log of a receipt")
				logs++
			}
		}
		if i == 1 {
			// what arrived comes after the block's own transactions
			w.want(c, "receipt-arrived", map[string]interface{}{"blockId": jid(b.Hash(), w.id), "blockHeight": "0x1", "status": "0x1", "contractAddress": nil, "logs": []interface{}{}}, "getTransactionReceipt", jid(w.dep.TxHash, 0x10007))
		}
	}
	for _, b := range gone {
		for _, tx := range b.Transactions() {
			if live[tx.Hash()] {
				continue
			}
			v, err := w.ask(c, "getTransactionReceipt", jid(tx.Hash(), w.id))
			c.Check(err != nil || v == nil, "gone-receipt", "an abandoned transaction has the receipt %s", c26Text(v))
			v, err = w.ask(c, "getTransactionById", jid(tx.Hash(), w.id))
			if err == nil && v != nil {
				// still waiting: not in a block of the chain
				m, _ := v.(map[string]interface{})
				c.Check(m["blockId"] != jid(b.Hash(), w.id), "gone-tx", "an abandoned transaction is shown in its abandoned block")
			}
		}
	}
	v, err := w.ask(c, "getTransactionReceipt", jid(common.Hash{1}, w.id))
	c.Check(err != nil || v == nil, "no-receipt", "an unknown transaction has the receipt %s", c26Text(v))
	v, err = w.ask(c, "getTransactionById", jid(common.Hash{1}, w.id))
	c.Check(err != nil || v == nil, "no-tx", "an unknown transaction is answered with %s", c26Text(v))
	w.refused(c, "no-shard", "getTransactionById", jid(common.Hash{1}, 2<<16))
	w.refused(c, "bad-id", "getTransactionById", "0x1234")
}

// jlog: log k of the logger called by transaction j, which is log number idx of block b
func (w *c26World) jlog(b *types.MinorBlock, j, idx, k int) map[string]interface{} {
	tx := b.Transactions()[j]
	topic := func(x byte) string { return jb(common.Hash{31: x}.Bytes()) }
	topics, data := []string{topic(0x71), topic(0x72)}, jb(common.Hash{31: 0x2a}.Bytes())
	if k == 1 {
		topics, data = []string{topic(0x73)}, "0x2a"
	}
	return map[string]interface{}{"logIndex": jq(idx), "transactionIndex": jq(j), "transactionHash": jb(tx.Hash().Bytes()), "blockHash": jb(b.Hash().Bytes()), "blockNumber": jq(b.NumberU64()),
		"blockHeight": jq(b.NumberU64()), "data": data, "topics": topics, "removed": false, "address": jb(c25L[:]), "recipient": jb(c25L[:])}
}

func (w *c26World) logs(c *kit.Case, head int) {
	type lg struct {
		n int
		v map[string]interface{}
	}
	var all []lg
	for n, b := range w.chain {
		i := 0
		for j, d := range w.txs[b.Hash()] {
			if d.to != nil && *d.to == c25L {
				for k := 0; k < 2; k++ {
					all = append(all, lg{n, w.jlog(b, j, i, k)})
					i++
				}
			}
		}
	}
	check := func(from, to int, f map[string]interface{}, keep func(map[string]interface{}) bool) {
		var want []map[string]interface{}
		for _, l := range all {
			if l.n >= from && l.n <= to && (keep == nil || keep(l.v)) {
				want = append(want, l.v)
			}
		}
		v, err := w.ask(c, "getLogs", f, jq(c26Keys[from%3]))
		c.Check(err == nil, "logs", "getLogs%s: %v", c26Text(f), err)
		l, ok := v.([]interface{})
		c.Check(ok && len(l) == len(want), "logs", "getLogs%s answers %s, expected %d logs", c26Text(f), c26Text(v), len(want))
		for i := range want {
			w.same(c, "logs", want[i], l[i], "getLogs"+c26Text(f))
		}
	}
	for from := 0; from <= head; from++ {
		for to := from; to <= head+1; to++ {
			check(from, to, map[string]interface{}{"fromBlock": jq(from), "toBlock": jq(to)}, nil)
		}
		check(from, head, map[string]interface{}{"fromBlock": jq(from)}, nil)
		check(from, head, map[string]interface{}{"fromBlock": jq(from), "toBlock": "latest"}, nil)
		check(from, from, map[string]interface{}{"blockHash": jb(w.chain[from].Hash().Bytes())}, nil)
	}
	check(0, head, map[string]interface{}{"fromBlock": "earliest"}, nil)
	check(head, head, map[string]interface{}{}, nil)
	one := jb(common.Hash{31: 0x73}.Bytes())
	check(0, head, map[string]interface{}{"fromBlock": "0x0", "topics": []interface{}{one}}, func(m map[string]interface{}) bool { return m["data"] == "0x2a" })
	check(0, head, map[string]interface{}{"fromBlock": "0x0", "address": jb(c25X[:])}, func(m map[string]interface{}) bool { return false })
	check(0, head, map[string]interface{}{"fromBlock": "0x0", "address": ja(c25L, w.id)[:42]}, nil)
}

// history: the lists of transactions, page by page, newest first
func (w *c26World) history(c *kit.Case, head int) {
	type item struct {
		tok  uint64
		v    map[string]interface{}
		from common.Address
		to   *common.Address
		here bool
	}
	var all []item // newest first
	for n := head; n > 0; n-- {
		b := w.chain[n]
		done := w.txs[b.Hash()]
		for j := len(done) - 1; j >= 0; j-- {
			t := b.Transactions()[j].EvmTx
			to := "0x"
			if t.To() != nil {
				to = ja(*t.To(), t.ToFullShardKey())
			}
			all = append(all, item{t.TransferTokenID(), map[string]interface{}{"txId": jid(done[j].hash, t.FromFullShardKey()), "fromAddress": ja(w.rich, t.FromFullShardKey()), "toAddress": to, "value": jq(t.Value()),
				"transferTokenId": jq(t.TransferTokenID()), "transferTokenStr": jtoken(t.TransferTokenID()), "gasTokenId": jq(c25Tok), "gasTokenStr": "QKC", "blockHeight": jq(n), "timestamp": jq(b.Time()),
				"success": done[j].ok, "isFromRootChain": false}, w.rich, t.To(), t.ToFullShardKey() != 2})
		}
		if n == 1 {
			d := w.dep
			all = append(all, item{c25Tok, map[string]interface{}{"txId": jid(d.TxHash, 2), "fromAddress": ja(d.From.Recipient, 2), "toAddress": ja(c25X, 0x10007), "value": "0x9", "transferTokenId": jq(c25Tok), "transferTokenStr": "QKC",
				"gasTokenId": jq(c25Tok), "gasTokenStr": "QKC", "blockHeight": "0x1", "timestamp": jq(b.Time()), "success": true, "isFromRootChain": false}, d.From.Recipient, &c25X, true})
		}
	}
	pages := func(what string, want []item, limit int, ask func(start interface{}) (interface{}, error)) {
		var start interface{}
		at := 0
		for n := 0; ; n++ {
			v, err := ask(start)
			c.Check(err == nil, "history", "%s from %v, %d at a time: %v", what, start, limit, err)
			m, _ := v.(map[string]interface{})
			l, ok := m["txList"].([]interface{})
			c.Check(ok, "history", "%s: answered %s", what, c26Text(v))
			if len(l) == 0 {
				break
			}
			c.Check(len(l) <= limit, "history", "%s: %d transactions where %d were asked for", what, len(l), limit)
			for _, x := range l {
				c.Check(at < len(want), "history-more", "%s, %d at a time: page %d shows %s, expected the end", what, limit, n, c26Text(x))
				w.same(c, "history", want[at].v, x, fmt.Sprintf("%s, %d at a time, transaction %d", what, limit, at))
				at++
			}
			c.Check(at == len(want) || len(l) == limit, "history-less", "%s, %d at a time: page %d shows only %d transactions", what, limit, n, len(l))
			start = m["next"]
		}
		c.Check(at == len(want), "history-end", "%s, %d at a time: ends after %d transactions of %d", what, limit, at, len(want))
	}
	for _, limit := range []int{1, 2, 20} {
		pages("all transactions", all, limit, func(s interface{}) (interface{}, error) {
			return w.ask(c, "getAllTransaction", jq(c26Keys[limit%3]), s, jq(limit))
		})
		for _, a := range []common.Address{w.rich, c25X, c25K, c25L, {0x77}} {
			for _, tok := range []interface{}{nil, jq(c25Tok), jq(c25Other)} {
				var want []item
				for _, x := range all {
					if (x.from == a && x.from == w.rich || x.to != nil && *x.to == a && x.here) && (tok == nil || tok == jq(x.tok)) {
						want = append(want, x)
					}
				}
				pages(fmt.Sprintf("transactions of %x with token %v", a[:2], tok), want, limit, func(s interface{}) (interface{}, error) {
					return w.ask(c, "getTransactionsByAddress", ja(a, c26Keys[limit%3]), s, jq(limit), tok)
				})
			}
		}
	}
}

// rootQueries: root blocks and what they confirm
func (w *c26World) rootQueries(c *kit.Case, conf int) {
	tip := len(w.rblk) - 1
	for i, r := range w.rblk {
		for _, extra := range []interface{}{nil, false} {
			for _, v := range []interface{}{w.want(c, "root-block", w.jroot(r), "getRootBlockById", jb(r.Hash().Bytes()), extra), w.want(c, "root-block", w.jroot(r), "getRootBlockByHeight", jq(i), extra)} {
				l, _ := v.(map[string]interface{})["minorBlockHeaders"].([]interface{})
				c.Check(len(l) == len(r.MinorBlockHeaders()), "root-headers", "root block %d is shown with %d headers, it has %d", i, len(l), len(r.MinorBlockHeaders()))
				for j, x := range l {
					h := r.MinorBlockHeaders()[j]
					b := h.Branch.Value
					w.same(c, "root-headers", map[string]interface{}{"id": jid(h.Hash(), b), "height": jq(h.Number), "number": jq(h.Number), "hash": jb(h.Hash().Bytes()), "fullShardId": jq(b), "chainId": jq(b >> 16), "shardId": jq(b & 1),
						"hashPrevMinorBlock": jb(h.ParentHash[:]), "idPrevMinorBlock": jid(h.ParentHash, b), "hashPrevRootBlock": jb(h.PrevRootBlockHash[:]), "nonce": fmt.Sprintf("0x%016x", h.Nonce), "difficulty": jq(h.Difficulty),
						"miner": ja(h.Coinbase.Recipient, h.Coinbase.FullShardKey), "#coinbase": jtokens(h.CoinbaseAmount), "timestamp": jq(h.Time), "extraData": jb(h.Extra), "gasLimit": jq(h.GasLimit.Value)}, x, fmt.Sprintf("header %d of root block %d", j, i))
				}
			}
		}
	}
	w.want(c, "root-block", w.jroot(w.rblk[tip]), "getRootBlockByHeight")
	w.refused(c, "no-root", "getRootBlockByHeight", jq(tip+1))
	w.refused(c, "no-root", "getRootBlockById", jb(common.Hash{1}.Bytes()))
	for i, b := range w.chain {
		var want interface{}
		n := 0
		if i == 0 {
			want, n = jb(w.rblk[1].Hash().Bytes()), tip
		} else if i <= conf {
			want, n = jb(w.rblk[3].Hash().Bytes()), tip-2
		}
		w.want(c, "confirming", want, "getRootHashConfirmingMinorBlockById", jid(b.Hash(), w.id))
		for _, tx := range b.Transactions() {
			w.want(c, "confirmed-by", jq(n), "getTransactionConfirmedByNumberRootBlocks", jid(tx.Hash(), tx.EvmTx.FromFullShardKey()))
		}
	}
	w.refused(c, "confirmed-by", "getTransactionConfirmedByNumberRootBlocks", jid(common.Hash{1}, w.id))
}

// others: sending transactions, estimates, and what is known of the network
func (w *c26World) others(c *kit.Case, head int) {
	v := w.want(c, "network", map[string]interface{}{"networkId": "0x3", "chainSize": "0x2", "shardSizes": []string{"0x2", "0x2"}, "syncing": false, "mining": true, "shardServerCount": 2}, "networkInfo")
	_ = v
	v, err := w.ask(c, "getFullShardIds")
	c.Check(err == nil, "network", "getFullShardIds: %v", err)
	l, _ := v.([]interface{})
	var ids []string
	for _, x := range l {
		ids = append(ids, fmt.Sprint(x))
	}
	sort.Strings(ids)
	c.Check(fmt.Sprint(ids) == "[0x10002 0x10003 0x2 0x3]", "network", "getFullShardIds answers %s", c26Text(v))

	far := common.Address{0xaa, 2}
	host := map[uint32]string{2: "a", 3: "b", 65538: "a", 65539: "b"}
	for _, from := range []uint32{65539, 0x10007, 65538, 2, 0, 5} {
		id := from>>16<<16 | 2 | from&1
		for _, t := range []c26Tx{{from: from, to: 0x10007, rcpt: &far, value: 5, token: c25Tok, price: 3, gas: 50000, nonce: 300, data: []byte{1, 2, 3}},
			{from: from, to: from, value: 0, token: c25Other, price: 1, gas: 1 << 40, nonce: 1 << 40, data: []byte{0}}} {
			tx := t.sign()
			raw, err := rlp.EncodeToBytes(tx.EvmTx)
			if err != nil {
				panic(err)
			}
			vv, rr, ss := tx.EvmTx.RawSignatureValues()
			obj := map[string]interface{}{"gas": jq(t.gas), "gasPrice": jq(t.price), "value": jq(t.value), "nonce": jq(t.nonce), "data": jb(t.data), "fromFullShardKey": jq(from), "toFullShardKey": jq(t.to), "v": jq(vv), "r": jq(rr), "s": jq(ss),
				"networkId": "0x3", "gas_token_id": jq(c25Tok), "transfer_token_id": jq(t.token)}
			if t.rcpt != nil {
				obj["to"] = jb(t.rcpt[:])
			}
			if t.token == c25Tok && from%2 == 0 {
				delete(obj, "networkId")
				delete(obj, "gas_token_id")
				delete(obj, "transfer_token_id")
			}
			if t.to == from {
				delete(obj, "toFullShardKey")
			}
			for _, how := range []string{"sendRawTransaction", "sendTransaction"} {
				w.net.sent = nil
				var arg interface{} = jb(raw)
				if how == "sendTransaction" {
					arg = obj
				}
				w.want(c, "send", jid(tx.Hash(), from), how, arg)
				w.net.mu.Lock()
				sent := fmt.Sprint(w.net.sent)
				w.net.mu.Unlock()
				c.Check(sent == fmt.Sprintf("[%s:%x]", host[id], tx.Hash()), "send", "%s from shard key %d delivers %s, expected %s:%x", how, from, sent, host[id], tx.Hash())
			}
		}
	}
	w.refused(c, "send", "sendRawTransaction", jb([]byte{0xc0}))
	bad := c26Tx{from: 2 << 16, to: 2 << 16, rcpt: &far, gas: 21000, token: c25Tok}.sign()
	raw, _ := rlp.EncodeToBytes(bad.EvmTx)
	w.refused(c, "send", "sendRawTransaction", jb(raw))

	// estimates: plain transfers have known prices
	est := func(want uint64, obj map[string]interface{}) {
		w.want(c, "estimate", jq(want), "estimateGas", obj)
	}
	est(21000, map[string]interface{}{"from": ja(w.rich, 0x10007), "to": ja(far, 0x10001), "value": "0x5"})
	est(21000, map[string]interface{}{"from": ja(w.rich, 65539), "to": ja(far, 65539), "value": "0x5", "gas": "0xffff"})
	est(21000+9000, map[string]interface{}{"from": ja(w.rich, 2), "to": ja(far, 65539), "value": "0x5"})
	w.refused(c, "estimate", "estimateGas", map[string]interface{}{"from": ja(common.Address{0x77}, 65539), "to": ja(far, 65539), "value": "0x5"})
	w.refused(c, "call", "call", map[string]interface{}{"from": ja(w.rich, 2), "to": ja(c25K, 65539)})
	w.want(c, "gas-price", c26GasPrice(w), "gasPrice", jq(0x10007))
}

func c26GasPrice(w *c26World) string {
	p, err := w.m.GasPrice(c25Tok)
	_ = err
	return jq(p)
}


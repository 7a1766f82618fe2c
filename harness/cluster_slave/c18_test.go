package slave

import (
	"context"
	"crypto/ecdsa"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	qsync "github.com/QuarkChain/goquarkchain/cluster/sync"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"
)

// c18Master takes what the slave tells its master.
type c18Master struct {
	mu  sync.Mutex
	got []string
}

func (f *c18Master) GetOpName(uint32) string { return "" }
func (f *c18Master) Close()                  {}
func (f *c18Master) Call(target string, req *rpc.Request) (*rpc.Response, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	var r rpc.P2PRedirectRequest
	var l p2p.NewTransactionList
	if req.Op != rpc.OpBroadcastTransactions {
		return nil, errors.New("not expected")
	}
	if err := serialize.DeserializeFromBytes(req.Data, &r); err != nil {
		panic(err)
	}
	if err := serialize.DeserializeFromBytes(r.Data, &l); err != nil {
		panic(err)
	}
	var h []string
	for _, t := range l.TransactionList {
		h = append(h, t.Hash().Hex())
	}
	f.got = append(f.got, fmt.Sprintf("%s %d %s", r.PeerID, r.Branch, strings.Join(h, ",")))
	return &rpc.Response{}, nil
}

type c18World struct {
	cfg  *config.ClusterConfig
	ids  []uint32
	b    *SlaveBackend
	op   *SlaveServerSideOp
	main map[uint32][]*types.MinorBlock
	fork map[uint32][]*types.MinorBlock
	mst  *c18Master
	root *types.RootBlock
}

func c18Key(n byte) (*ecdsa.PrivateKey, common.Address) {
	kb := make([]byte, 32)
	kb[31] = n
	key, err := crypto.ToECDSA(kb)
	if err != nil {
		panic(err)
	}
	return key, crypto.PubkeyToAddress(key.PublicKey)
}

func c18New(length int) *c18World {
	c := c17Cfg(2, 2)
	q := c.Quarkchain
	q.SkipMinorDifficultyCheck = true
	q.SkipRootCoinbaseCheck = true
	q.SkipRootDifficultyCheck = true
	q.MinMiningGasPrice = new(big.Int)
	q.MinTXPoolGasPrice = new(big.Int)
	q.EnableEvmTimeStamp = 1
	w := &c18World{cfg: c, ids: c17IDs(c), main: map[uint32][]*types.MinorBlock{}, fork: map[uint32][]*types.MinorBlock{}, mst: new(c18Master)}
	_, rich := c18Key(9)
	for _, id := range w.ids {
		sc := q.GetShardConfigByFullShardID(id)
		sc.ConsensusType = config.PoWSimulate
		sc.Genesis.Alloc = map[account.Address]config.Allocation{{Recipient: rich, FullShardKey: id}: {Balances: map[string]*big.Int{"QKC": big.NewInt(1e15)}}}
	}
	w.b = &SlaveBackend{clstrCfg: c, config: config.NewDefaultSlaveConfig(), shards: map[uint32]*shard.ShardBackend{}}
	cm := NewToSlaveConnManager(c, w.b)
	cm.masterClient = &masterConn{target: "master", client: w.mst}
	w.b.connManager = cm
	for _, id := range w.ids[:2] {
		db := ethdb.NewMemDatabase()
		g := core.NewGenesis(q)
		root0 := g.CreateRootBlock()
		g.MustCommitMinorBlock(db, root0, id)
		m, err := core.NewMinorBlockChain(db, &core.CacheConfig{TrieDirtyLimit: 256, Disabled: true}, params.TestChainConfig, c, new(consensus.FakeEngine), vm.Config{}, nil, id)
		if err != nil {
			panic(err)
		}
		if _, err := m.InitGenesisState(root0); err != nil {
			panic(err)
		}
		w.b.shards[id] = &shard.ShardBackend{MinorBlockChain: m}
		w.b.fullShardList = append(w.b.fullShardList, id)
		gb := m.CurrentBlock()
		w.main[id] = []*types.MinorBlock{gb}
		cb := account.CreatEmptyAddress(0)
		root1 := root0.Header().CreateBlockToAppend(nil, nil, &cb, nil, []byte{1})
		root1.AddMinorBlockHeader(gb.Header())
		root1.Finalize(types.NewTokenBalancesWithMap(map[uint64]*big.Int{q.GetDefaultChainTokenID(): big.NewInt(1)}), &cb, common.Hash{})
		if _, err := m.AddRootBlock(root1); err != nil {
			panic(err)
		}
		w.root = root1
		gl, err := q.GasLimit(id)
		if err != nil {
			panic(err)
		}
		xgl := new(big.Int).Div(gl, big.NewInt(2))
		add := func(parent *types.MinorBlock, tag byte) *types.MinorBlock {
			h := root1.Hash()
			addr := account.Address{Recipient: common.Address{tag}, FullShardKey: id}
			b := parent.CreateBlockToAppend(nil, nil, &addr, nil, gl, xgl, []byte{tag}, nil, &h)
			b, _, err := m.FinalizeAndAddBlock(b)
			if err != nil {
				panic(err)
			}
			if _, err := m.InsertChain([]types.IBlock{b}, true); err != nil {
				panic(err)
			}
			return b
		}
		for i := 1; i <= length; i++ {
			w.main[id] = append(w.main[id], add(w.main[id][i-1], 1))
		}
		if length == 0 {
			continue
		}
		f := w.main[id][2]
		for i := 0; i < 2; i++ {
			f = add(f, 2)
			w.fork[id] = append(w.fork[id], f)
		}
		if m.CurrentBlock().Hash() != w.main[id][length].Hash() {
			panic("not the expected head")
		}
	}
	w.op = NewServerSideOp(w.b)
	return w
}

func c18Data(v interface{}) []byte {
	d, err := serialize.SerializeToBytes(v)
	if err != nil {
		panic(err)
	}
	return d
}

func (w *c18World) ask(f func(context.Context, *rpc.Request) (*rpc.Response, error), branch uint32, data []byte) (*rpc.Response, error) {
	res, err := f(context.Background(), &rpc.Request{RpcId: 5, Data: c18Data(rpc.P2PRedirectRequest{PeerID: "p", Branch: branch, Data: data})})
	if err == nil && res == nil {
		return nil, errors.New("nothing")
	}
	return res, err
}

func TestVerifC18Slave(t *testing.T) {
	h := kit.New("C18", "minor")
	defer h.Done()
	n := kit.Tier(6, 9)
	h.Bound("minor blocks", n)
	w := c18New(n)
	id := w.ids[0]
	canonical := map[common.Hash]int{}
	byHash := map[common.Hash]*types.MinorBlock{}
	var hashes []common.Hash
	for i, b := range w.main[id] {
		canonical[b.Hash()] = i
		byHash[b.Hash()] = b
		hashes = append(hashes, b.Hash())
	}
	for _, b := range w.fork[id] {
		byHash[b.Hash()] = b
		hashes = append(hashes, b.Hash())
	}
	hashes = append(hashes, w.main[w.ids[1]][1].Hash(), common.Hash{7}, common.Hash{})
	var heights []*big.Int
	for i := 0; i <= n+2; i++ {
		heights = append(heights, big.NewInt(int64(i)))
	}
	for _, s := range []uint{31, 32, 33, 63, 64, 65, 255} {
		p := new(big.Int).Lsh(big.NewInt(1), s)
		heights = append(heights, new(big.Int).Sub(p, big.NewInt(1)), p, new(big.Int).Add(p, big.NewInt(1)), new(big.Int).Add(p, big.NewInt(int64(n))))
	}
	max := uint32(qsync.MinorBlockHeaderListLimit)
	limits := []uint32{0, 1, 2, 3, uint32(n), uint32(n) + 1, uint32(n) + 2, max - 1, max, max + 1, 2 * max, 2*max + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	skips := []uint32{0, 1, 2, 3, uint32(n) - 1, uint32(n), uint32(n) + 1, 1<<31 - 1, 1 << 31, 1<<32 - 2 - uint32(n), 1<<32 - 3, 1<<32 - 2, 1<<32 - 1}
	branches := []uint32{id, w.ids[2], 0}
	show := func(l []*types.MinorBlockHeader) string {
		var r string
		for _, x := range l {
			if b := byHash[x.Hash()]; b == nil {
				r += " unknown"
			} else if _, ok := canonical[b.Hash()]; ok {
				r += fmt.Sprint(" ", b.NumberU64())
			} else {
				r += fmt.Sprint(" f", b.NumberU64())
			}
		}
		return r
	}
	h.Explore("headers with skip", kit.Opt{}, func(c *kit.Case) {
		typ := c.Choose(3, "type")
		req := &p2p.GetMinorBlockHeaderListWithSkipRequest{Type: uint8(typ)}
		var start *big.Int
		known, fork := true, false
		if typ == int(qcom.SkipHash) {
			req.Data = hashes[c.Choose(len(hashes), "hash")]
			i, ok := canonical[req.Data]
			known, start = ok, big.NewInt(int64(i))
			fork = !ok && byHash[req.Data] != nil
		} else {
			start = heights[c.Choose(len(heights), "height")]
			req.Data = common.BytesToHash(start.Bytes())
		}
		dir := c.Choose(3, "direction")
		req.Direction = uint8(dir)
		req.Limit = limits[c.Choose(len(limits), "limit")]
		req.Skip = skips[c.Choose(len(skips), "skip")]
		branch := id
		if req.Limit == 3 && req.Skip == 0 {
			branch = branches[c.Choose(len(branches), "branch")]
		}
		req.Branch = account.Branch{Value: branch}
		raw, err := w.ask(w.op.GetMinorBlockHeaderListWithSkip, branch, c18Data(req))
		valid := typ < 2 && dir < 2 && req.Limit > 0 && req.Limit <= 2*max && branch == id
		if valid && req.Limit <= max && known {
			c.Check(err == nil, "refused", "type %d start %v direction %d limit %d skip %d: a proper request is refused: %v", typ, start, dir, req.Limit, req.Skip, err)
		}
		if !valid {
			c.Check(err != nil, "accepted", "an improper request is answered")
		}
		c.Outcome("answered=%v", err == nil)
		if err != nil {
			return
		}
		var res p2p.GetMinorBlockHeaderListResponse
		if err := serialize.DeserializeFromBytes(raw.Data, &res); err != nil {
			c.Fail("answer-unreadable", "the answer is not readable: %v", err)
		}
		var want []*types.MinorBlockHeader
		at := new(big.Int).Set(start)
		for known && len(want) < int(req.Limit) && at.Sign() >= 0 && at.Cmp(big.NewInt(int64(n))) <= 0 {
			want = append(want, w.main[id][at.Int64()].Header())
			step := new(big.Int).Add(big.NewInt(int64(req.Skip)), big.NewInt(1))
			if dir == int(qcom.DirectionToGenesis) {
				at.Sub(at, step)
			} else {
				at.Add(at, step)
			}
		}
		if fork && req.Skip == 0 && dir == int(qcom.DirectionToGenesis) {
			// the ancestors of a block beside the chain are answered like the request without skip
			for b := byHash[req.Data]; b != nil && len(want) < int(req.Limit); b = byHash[b.ParentHash()] {
				want = append(want, b.Header())
			}
		}
		c.Check(show(res.BlockHeaderList) == show(want), "headers", "type %d start %v direction %d limit %d skip %d: the answer has%s, not%s", typ, start, dir, req.Limit, req.Skip, show(res.BlockHeaderList), show(want))
	})
	h.Explore("headers", kit.Opt{}, func(c *kit.Case) {
		req := &p2p.GetMinorBlockHeaderListRequest{BlockHash: hashes[c.Choose(len(hashes), "hash")]}
		dir := c.Choose(3, "direction")
		req.Direction = uint8(dir)
		req.Limit = limits[c.Choose(len(limits), "limit")]
		branch := branches[c.Choose(len(branches), "branch")]
		req.Branch = account.Branch{Value: branch}
		raw, err := w.ask(w.op.GetMinorBlockHeaderList, branch, c18Data(req))
		b := byHash[req.BlockHash]
		valid := b != nil && dir == int(qcom.DirectionToGenesis) && req.Limit > 0 && req.Limit <= 2*max && branch == id
		c.Check((err == nil) == valid || (valid && req.Limit > max), "headers-verdict", "the request ends with %v", err)
		if err != nil {
			return
		}
		var res p2p.GetMinorBlockHeaderListResponse
		if err := serialize.DeserializeFromBytes(raw.Data, &res); err != nil {
			c.Fail("answer-unreadable", "the answer is not readable: %v", err)
		}
		var want []*types.MinorBlockHeader
		for b != nil && len(want) < int(req.Limit) {
			want = append(want, b.Header())
			b = byHash[b.ParentHash()]
		}
		c.Check(show(res.BlockHeaderList) == show(want), "headers-hash", "the answer has%s, not%s", show(res.BlockHeaderList), show(want))
	})
	most := kit.Tier(3, 4)
	h.Bound("blocks asked for", most)
	h.Explore("blocks", kit.Opt{}, func(c *kit.Case) {
		req := &p2p.GetMinorBlockListRequest{}
		k := c.Choose(most+1, "count")
		for i := 0; i < k; i++ {
			req.MinorBlockHashList = append(req.MinorBlockHashList, hashes[c.Choose(len(hashes), "hash")])
		}
		ok := true
		var want string
		for _, x := range req.MinorBlockHashList {
			b := byHash[x]
			if ok = ok && b != nil; ok {
				want += kit.Hex(c18Data(b))
			}
		}
		raw, err := w.ask(w.op.GetMinorBlockList, id, c18Data(req))
		c.Check((err == nil) == ok, "blocks-verdict", "a request for known blocks %v ends with %v", ok, err)
		if err != nil {
			return
		}
		var res p2p.GetMinorBlockListResponse
		if err := serialize.DeserializeFromBytes(raw.Data, &res); err != nil {
			c.Fail("answer-unreadable", "the answer is not readable: %v", err)
		}
		var got string
		for _, b := range res.MinorBlockList {
			got += kit.Hex(c18Data(b))
		}
		c.Check(got == want, "blocks", "the blocks of the answer are not those asked for")
	})
	h.Explore("many blocks", kit.Opt{}, func(c *kit.Case) {
		max := int(qsync.MinorBlockBatchSize)
		k := []int{max - 1, max, 2 * max, 2*max + 1, 10 * max}[c.Choose(5, "count")]
		branch := branches[c.Choose(len(branches), "branch")]
		req := &p2p.GetMinorBlockListRequest{}
		for i := 0; i < k; i++ {
			req.MinorBlockHashList = append(req.MinorBlockHashList, hashes[i%n])
		}
		raw, err := w.ask(w.op.GetMinorBlockList, branch, c18Data(req))
		c.Check(err == nil || k > max || branch != id, "blocks-refused", "a request for %d blocks is refused", k)
		if err == nil {
			c.Check(branch == id, "blocks-branch", "another shard's blocks are given")
			var res p2p.GetMinorBlockListResponse
			if err := serialize.DeserializeFromBytes(raw.Data, &res); err != nil {
				c.Fail("answer-unreadable", "the answer is not readable: %v", err)
			}
			c.Check(k <= 2*max && len(res.MinorBlockList) == k, "blocks-limit", "%d blocks are given", len(res.MinorBlockList))
		}
	})

	// whatever the bytes, the handler ends without a crash
	tip := w.main[id][n]
	key, _ := c18Key(9)
	tok := w.cfg.Quarkchain.GetDefaultChainTokenID()
	mkTx := func(nonce uint64, from, to uint32, net uint32) *types.Transaction {
		e := types.NewEvmTransaction(nonce, common.Address{7}, big.NewInt(1), 40000, big.NewInt(1), from, to, net, 0, nil, tok, tok)
		e, err := types.SignTx(e, types.MakeSigner(net), key)
		if err != nil {
			panic(err)
		}
		return &types.Transaction{TxType: types.EvmTx, EvmTx: e}
	}
	stale := types.NewMinorBlockWithHeader(&types.MinorBlockHeader{Branch: account.Branch{Value: w.ids[3]}, Coinbase: account.CreatEmptyAddress(0), CoinbaseAmount: types.NewEmptyTokenBalances(),
		GasLimit: &serialize.Uint256{Value: big.NewInt(1)}, Difficulty: big.NewInt(1)}, &types.MinorBlockMeta{})
	ops := []struct {
		name string
		f    func(context.Context, *rpc.Request) (*rpc.Response, error)
		data []byte
	}{
		{"headers with skip", w.op.GetMinorBlockHeaderListWithSkip, c18Data(&p2p.GetMinorBlockHeaderListWithSkipRequest{Data: tip.Hash(), Branch: account.Branch{Value: id}, Limit: 3})},
		{"headers", w.op.GetMinorBlockHeaderList, c18Data(&p2p.GetMinorBlockHeaderListRequest{BlockHash: tip.Hash(), Branch: account.Branch{Value: id}, Limit: 3})},
		{"blocks", w.op.GetMinorBlockList, c18Data(&p2p.GetMinorBlockListRequest{MinorBlockHashList: []common.Hash{tip.Hash()}})},
		{"transactions", w.op.AddTransactions, c18Data(&p2p.NewTransactionList{TransactionList: []*types.Transaction{mkTx(0, 0, 0, 4)}})},
		{"block", w.op.HandleNewMinorBlock, c18Data(&p2p.NewBlockMinor{Block: stale})},
		{"tip", nil, c18Data(&rpc.HandleNewTipRequest{RootBlockHeader: w.root.Header(), MinorBlockHeaderList: []*types.MinorBlockHeader{stale.Header()}, PeerID: "p"})},
	}
	h.Explore("any message", kit.Opt{}, func(c *kit.Case) {
		o := ops[c.Choose(len(ops), "type")]
		branch := []uint32{0, id, w.ids[3], 9}[c.Choose(4, "branch")]
		v := []int{-1, 0, 1, 2, 0x7f, 0x80, 0xff}[c.Choose(7, "change")]
		for at := 0; at <= len(o.data); at++ {
			d := append([]byte{}, o.data[:at]...)
			if v >= 0 {
				if at == len(o.data) || o.data[at] == byte(v) {
					continue
				}
				d = append(append(d, byte(v)), o.data[at+1:]...)
			}
			site, val := kit.Try(func() {
				if o.f == nil {
					w.op.HandleNewTip(context.Background(), &rpc.Request{Data: d})
				} else {
					w.ask(o.f, branch, d)
				}
			})
			c.Check(val == nil, "crash "+o.name, "%s with byte %d set to %d: crash at %s: %v", o.name, at, v, site, val)
			c.Step()
		}
	})

	// transactions of peers go to the pool of their shard, and from there to the other peers
	keyOf := func(i int) uint32 { return w.ids[i]&^0xffff | w.ids[i]&1 }
	type made struct {
		tx    *types.Transaction
		shard int  // where it belongs
		good  bool // for the pool
	}
	mades := []made{
		{mkTx(0, keyOf(0), keyOf(0), 3), 0, true}, {mkTx(1, keyOf(0), keyOf(1), 3), 0, true}, {mkTx(0, keyOf(1), keyOf(0), 3), 1, true},
		{mkTx(0, keyOf(0), keyOf(0), 4), 0, false}, {mkTx(0, keyOf(2), keyOf(0), 3), 2, false}, {mkTx(0, 77<<16, keyOf(0), 3), 3, false},
	}
	h.Explore("transactions", kit.Opt{}, func(c *kit.Case) {
		branch := []uint32{0, w.ids[0], w.ids[1], w.ids[2], 9}[c.Choose(5, "branch")]
		var list []*types.Transaction
		taken := map[int]map[int]bool{0: {}, 1: {}}
		want := map[int]string{}
		named := ""
		unknownChain := false
		for i := c.Choose(4, "count"); i > 0; i-- {
			j := c.Choose(len(mades), "transaction")
			m := mades[j]
			named += fmt.Sprint(" ", j)
			list = append(list, m.tx)
			unknownChain = unknownChain || m.shard == 3
			if m.good && (branch == 0 || branch == w.ids[m.shard]) && !taken[m.shard][j] {
				taken[m.shard][j] = true
				if want[m.shard] != "" {
					want[m.shard] += ","
				}
				want[m.shard] += m.tx.Hash().Hex()
			}
		}
		refused := branch == 0 && unknownChain // as a whole
		w := c18New(0)
		defer func() {
			for _, s := range w.b.shards {
				s.MinorBlockChain.Stop()
			}
		}()
		_, err := w.ask(w.op.AddTransactions, branch, c18Data(&p2p.NewTransactionList{TransactionList: list}))
		if refused {
			c.Check(err != nil, "transactions-chain", "transactions%s of an unknown chain are taken", named)
			taken, want = map[int]map[int]bool{0: {}, 1: {}}, map[int]string{}
		} else if branch == 0 || branch == w.ids[0] || branch == w.ids[1] || len(list) == 0 {
			c.Check(err == nil, "transactions-refused", "transactions%s for branch %d: %v", named, branch, err)
		} else {
			c.Check(err != nil, "transactions-branch", "transactions%s for branch %d are taken", named, branch)
		}
		for i := 0; i < 2; i++ {
			n := len(taken[i])
			got := w.b.shards[w.ids[i]].MinorBlockChain.GetPendingCount()
			c.Check(got == n, "transactions-pool", "transactions%s for branch %d: the pool of shard %d has %d, not %d", named, branch, i, got, n)
		}
		until := time.Now().Add(10 * time.Second)
		for {
			told := map[int]string{}
			w.mst.mu.Lock()
			for _, g := range w.mst.got {
				for i := 0; i < 2; i++ {
					if f := strings.SplitN(g, " ", 3); f[0] == "p" && f[1] == fmt.Sprint(w.ids[i]) && f[2] != "" {
						told[i] += f[2]
					} else if f[0] != "p" {
						told[i] += g
					}
				}
			}
			w.mst.mu.Unlock()
			if fmt.Sprint(told) == fmt.Sprint(want) {
				break
			}
			if time.Now().After(until) {
				c.Fail("transactions-told", "transactions%s for branch %d: the master is told %v, not %v", named, branch, told, want)
			}
			time.Sleep(100 * time.Microsecond)
		}
	})
}

package slave

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"
)

func c17Cfg(chains, shards uint32) *config.ClusterConfig {
	c := config.NewClusterConfig()
	c.Quarkchain.NetworkID = 3
	c.Quarkchain.Update(chains, shards, 10, 1)
	return c
}

func c17IDs(c *config.ClusterConfig) []uint32 {
	l := append([]uint32{}, c.Quarkchain.GetGenesisShardIds()...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// c17Shard: the receiving end, a real shard's store.
func c17Shard(cfg *config.ClusterConfig, id uint32) *shard.ShardBackend {
	db := ethdb.NewMemDatabase()
	g := core.NewGenesis(cfg.Quarkchain)
	g.MustCommitMinorBlock(db, g.CreateRootBlock(), id)
	m, err := core.NewMinorBlockChain(db, &core.CacheConfig{TrieDirtyLimit: 256, Disabled: true}, params.TestChainConfig, cfg, new(consensus.FakeEngine), vm.Config{}, nil, id)
	if err != nil {
		panic(err)
	}
	return &shard.ShardBackend{MinorBlockChain: m}
}

type c17Got struct {
	branch uint32
	hash   common.Hash
	list   string
}

// c17Client carries a call to another slave, or loses it.
type c17Client struct {
	fault int // 1: the call is lost, 2: its answer is
	dst   *SlaveBackend
	mu    sync.Mutex
	got   []c17Got
}

func (f *c17Client) GetOpName(uint32) string { return "" }
func (f *c17Client) Close()                  {}
func (f *c17Client) note(r *rpc.AddXshardTxListRequest) {
	f.got = append(f.got, c17Got{r.Branch, r.MinorBlockHash, c17List(r.TxList)})
}

func (f *c17Client) Call(target string, req *rpc.Request) (*rpc.Response, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.fault == 1 {
		return nil, errors.New("lost")
	}
	var err error
	var res *rpc.Response
	switch req.Op {
	case rpc.OpAddXshardTxList:
		r := new(rpc.AddXshardTxListRequest)
		if err := serialize.DeserializeFromBytes(req.Data, r); err != nil {
			return nil, err
		}
		f.note(r)
		if f.dst != nil {
			res, err = NewServerSideOp(f.dst).AddXshardTxList(context.Background(), req)
		}
	case rpc.OpBatchAddXshardTxList:
		r := new(rpc.BatchAddXshardTxListRequest)
		if err := serialize.DeserializeFromBytes(req.Data, r); err != nil {
			return nil, err
		}
		for _, x := range r.AddXshardTxListRequestList {
			f.note(x)
		}
		if f.dst != nil {
			res, err = NewServerSideOp(f.dst).BatchAddXshardTxList(context.Background(), req)
		}
	default:
		panic("unexpected call")
	}
	if f.fault == 2 {
		return nil, errors.New("answer lost")
	}
	if res == nil {
		res = &rpc.Response{}
	}
	return res, err
}

func c17List(l []*types.CrossShardTransactionDeposit) string {
	var r []string
	for _, d := range l {
		b, err := serialize.SerializeToBytes(d)
		if err != nil {
			panic(err)
		}
		r = append(r, kit.Hex(b))
	}
	return strings.Join(r, ",")
}

func c17Deposit(n int, key uint32) *types.CrossShardTransactionDeposit {
	u := func(v int64) *serialize.Uint256 { return &serialize.Uint256{Value: big.NewInt(v)} }
	return &types.CrossShardTransactionDeposit{CrossShardTransactionDepositV0: types.CrossShardTransactionDepositV0{
		TxHash: crypto.Keccak256Hash([]byte(fmt.Sprint("d", n))), To: account.Address{Recipient: common.Address{byte(n)}, FullShardKey: key},
		Value: u(int64(n)), GasPrice: u(1), GasRemained: u(0), GasTokenID: 1, TransferTokenID: 1}, RefundRate: 100}
}

// c17Neighbour is the rule for which shards need a block's list.
func c17Neighbour(a, b uint32, total int) bool {
	if a == b {
		return false
	}
	if total <= 32 {
		return true
	}
	p2 := func(x, y uint32) bool {
		d := x - y
		if y > x {
			d = y - x
		}
		return d&(d-1) == 0
	}
	chainA, chainB := a>>16, b>>16
	size := func(v uint32) uint32 { // the marker bit above the shard bits
		for s := uint32(1 << 15); ; s >>= 1 {
			if v&s != 0 {
				return s
			}
		}
	}
	shardA, shardB := a&0xffff-size(a&0xffff), b&0xffff-size(b&0xffff)
	if chainA == chainB {
		return p2(shardA, shardB)
	}
	return shardA == shardB && p2(chainA, chainB)
}

func TestVerifC17Slave(t *testing.T) {
	h := kit.New("C17", "sharing")
	defer h.Done()
	cfg := c17Cfg(2, 2)
	ids := c17IDs(cfg)
	shards := func(l ...uint32) []uint32 { return l }
	// who hosts what, besides the source's own slave
	topologies := []struct {
		name   string
		local  []uint32
		remote [][]uint32
	}{
		{"one shard each", shards(ids[0]), [][]uint32{{ids[1]}, {ids[2]}, {ids[3]}}},
		{"two on the own slave", shards(ids[0], ids[1]), [][]uint32{{ids[2], ids[3]}}},
		{"two copies", shards(ids[0]), [][]uint32{{ids[1], ids[2], ids[3]}, {ids[2], ids[3]}}},
		{"one not connected", shards(ids[0]), [][]uint32{{ids[1]}, {ids[3]}}},
		{"all on the own slave", ids, nil},
	}
	keys := map[uint32]uint32{}
	for _, id := range ids {
		keys[id] = id&^0xffff | id&1
	}
	// two blocks, each with any of these lists
	lists := [][]int{{}, {1}, {3}, {1, 2, 3}, {2, 1, 2}}
	h.Bound("topologies", len(topologies))
	h.Bound("lists", len(lists))
	mkBlock := func(branch uint32, tag int) *types.MinorBlock {
		hd := &types.MinorBlockHeader{Branch: account.Branch{Value: branch}, Number: uint64(tag), Coinbase: account.CreatEmptyAddress(branch), CoinbaseAmount: types.NewEmptyTokenBalances(),
			GasLimit: &serialize.Uint256{Value: big.NewInt(1)}, Difficulty: big.NewInt(1)}
		return types.NewMinorBlockWithHeader(hd, &types.MinorBlockMeta{})
	}
	h.Explore("lists", kit.Opt{MaxDev: 2}, func(c *kit.Case) {
		tp := topologies[c.Choose(len(topologies), "topology")]
		batch := c.Bool("batch")
		own := &SlaveBackend{shards: map[uint32]*shard.ShardBackend{}}
		stop := []*shard.ShardBackend{}
		defer func() {
			for _, s := range stop {
				s.MinorBlockChain.Stop()
			}
		}()
		host := func(b *SlaveBackend, l []uint32) {
			for _, id := range l {
				if id != ids[0] {
					b.shards[id] = c17Shard(cfg, id)
					stop = append(stop, b.shards[id])
				}
			}
		}
		host(own, tp.local)
		if tp.local[0] == ids[0] {
			own.shards[ids[0]] = &shard.ShardBackend{}
		}
		cm := NewToSlaveConnManager(cfg, own)
		own.connManager = cm
		var remotes []*SlaveBackend
		var clients []*c17Client
		for i, l := range tp.remote {
			b := &SlaveBackend{shards: map[uint32]*shard.ShardBackend{}}
			host(b, l)
			f := &c17Client{dst: b, fault: c.Dev(3, "fault")}
			conn := NewToSlaveConn(fmt.Sprint("s", i), fmt.Sprint("s", i), l)
			conn.client = f
			cm.addSlaveConnection(conn.target, conn)
			remotes, clients = append(remotes, b), append(clients, f)
		}
		n := 0
		blocks, deps := []*types.MinorBlock{}, [][]*types.CrossShardTransactionDeposit{}
		expect := map[common.Hash]map[uint32]string{}
		for i := 0; i < 2; i++ {
			var l []*types.CrossShardTransactionDeposit
			per := map[uint32][]*types.CrossShardTransactionDeposit{}
			for _, x := range lists[c.Choose(len(lists), "list")] {
				n++
				d := c17Deposit(n, keys[ids[x]])
				l = append(l, d)
				per[ids[x]] = append(per[ids[x]], d)
			}
			b := mkBlock(ids[0], i+1)
			blocks, deps = append(blocks, b), append(deps, l)
			expect[b.Hash()] = map[uint32]string{}
			for _, id := range ids[1:] {
				expect[b.Hash()][id] = c17List(per[id])
			}
		}
		share := func() error {
			if batch {
				m := map[common.Hash]*shard.XshardListTuple{}
				for i, b := range blocks {
					m[b.Hash()] = &shard.XshardListTuple{XshardTxList: deps[i], PrevRootHeight: 1}
				}
				return cm.BatchBroadcastXshardTxList(m, account.Branch{Value: ids[0]})
			}
			for i, b := range blocks {
				if err := cm.BroadcastXshardTxList(b, deps[i], 1); err != nil {
					return err
				}
			}
			return nil
		}
		verify := func(err error) {
			c.Step()
			holder := func(id uint32) (l []*shard.ShardBackend) {
				for _, b := range append([]*SlaveBackend{own}, remotes...) {
					if s := b.shards[id]; s != nil {
						l = append(l, s)
					}
				}
				return
			}
			for _, b := range blocks {
				for _, id := range ids[1:] {
					hs := holder(id)
					if err == nil {
						c.Check(len(hs) > 0, "nobody", "%s: sharing succeeded although nobody is there for shard %d", tp.name, id)
					}
					for _, s := range hs {
						got := s.MinorBlockChain.ReadCrossShardTxList(b.Hash())
						if got == nil {
							c.Check(err != nil, "missing", "%s: sharing succeeded, but a copy of shard %d has no list of block %d", tp.name, id, b.NumberU64())
							continue
						}
						c.Check(c17List(got.TXList) == expect[b.Hash()][id], "list", "%s: shard %d has another list of block %d", tp.name, id, b.NumberU64())
					}
				}
			}
		}
		err := share()
		verify(err)
		bad := tp.name == "one not connected"
		for _, f := range clients {
			bad = bad || f.fault != 0
			f.fault = 0
		}
		c.Check((err != nil) == bad, "result", "%s: sharing returned %v", tp.name, err)
		err = share()
		verify(err)
		c.Check((err != nil) == (tp.name == "one not connected"), "retry", "%s: sharing again without faults returned %v", tp.name, err)
		c.Outcome("%s %v", tp.name, bad)
	})

	// many shards: only the neighbours need the list, and all of them
	big40 := c17Cfg(5, 8)
	all := c17IDs(big40)
	h.Bound("shards, many", len(all))
	h.Explore("many shards", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		from := all[c.Choose(len(all), "source")]
		batch := c.Bool("batch")
		to := c.Choose(len(all)+1, "destination")
		own := &SlaveBackend{shards: map[uint32]*shard.ShardBackend{}}
		cm := NewToSlaveConnManager(big40, own)
		f := new(c17Client)
		conn := NewToSlaveConn("s", "s", all)
		conn.client = f
		cm.addSlaveConnection("s", conn)
		b := mkBlock(from, 1)
		var l []*types.CrossShardTransactionDeposit
		legal := true
		if to < len(all) {
			id := all[to]
			l = append(l, c17Deposit(1, id&^0xffff|id&7))
			legal = c17Neighbour(from, id, len(all))
		}
		var err error
		if batch {
			err = cm.BatchBroadcastXshardTxList(map[common.Hash]*shard.XshardListTuple{b.Hash(): {XshardTxList: l, PrevRootHeight: 1}}, b.Branch())
		} else {
			err = cm.BroadcastXshardTxList(b, l, 1)
		}
		c.Step()
		c.Check((err == nil) == legal, "result", "a transfer from shard %d to %v: %v", from, to, err)
		if err != nil {
			c.Outcome("refused")
			return
		}
		got := map[uint32]string{}
		for _, g := range f.got {
			_, twice := got[g.branch]
			c.Check(!twice && g.hash == b.Hash(), "twice", "shard %d got the list twice, or for another block", g.branch)
			got[g.branch] = g.list
		}
		for i, id := range all {
			g, ok := got[id]
			c.Check(ok == c17Neighbour(from, id, len(all)), "neighbours", "shard %d got the list of a block of %d: %v", id, from, ok)
			want := ""
			if i == to {
				want = c17List(l)
			}
			c.Check(g == want, "list", "shard %d got another list", id)
		}
		c.Outcome("%d neighbours", len(got))
	})
}

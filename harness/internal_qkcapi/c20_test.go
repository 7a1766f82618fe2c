package qkcapi

// C20: the public entry for log queries: every combination of block range, address and topic forms a request can have,
// decoded by the real decoder and passed on by the real API to a stand-in for the shard.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/common/hexutil"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/rpc"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
)

type c20Backend struct {
	Backend
	head uint64
	id   uint32
	fail error
	got  *rpc.FilterQuery
	logs []*types.Log
}

func (b *c20Backend) GetLastMinorBlockByFullShardID(id uint32) (uint64, error) {
	if id != b.id {
		return 0, errors.New("asked of another shard")
	}
	return b.head, nil
}

func (b *c20Backend) GetLogs(q *rpc.FilterQuery) ([]*types.Log, error) {
	b.got = q
	return b.logs, b.fail
}

var c20Once sync.Once

func TestVerifC20Request(t *testing.T) {
	h := kit.New("C20", "Request")
	defer h.Done()
	c20Once.Do(func() { clusterCfg = config.NewClusterConfig() })
	const head = 12
	addr := common.HexToAddress("0x0102030405060708090a0b0c0d0e0f1011121314")
	addr2 := common.HexToAddress("0xff02030405060708090a0b0c0d0e0f10111213ee")
	t1, t2 := common.Hash{1, 31: 9}, common.Hash{2}
	q := func(s interface{}) string { d, _ := json.Marshal(s); return string(d) }
	a20, a24, b20 := q(addr.Hex()), q(addr.Hex()+"00010002"), q(addr2.Hex())
	h1, h2 := q(t1.Hex()), q(t2.Hex())
	blocks := []struct {
		js  string
		val uint64
		bad bool
	}{{"", head, false}, {"null", head, false}, {`"latest"`, head, false}, {`"pending"`, head, false}, {`"earliest"`, 0, false}, {`"0x0"`, 0, false}, {`"0x5"`, 5, false}, {`"0xffff"`, 0xffff, false},
		{`"0x7fffffffffffffff"`, 1<<63 - 1, false}, {`"0x8000000000000000"`, 0, true}, {`"5"`, 0, true}, {`"later"`, 0, true}}
	addrs := []struct {
		js   string
		want []common.Address
		bad  bool
	}{{"", nil, false}, {"null", nil, false}, {a20, []common.Address{addr}, false}, {a24, []common.Address{addr}, false}, {"[]", nil, false}, {"[" + a20 + "," + b20 + "]", []common.Address{addr, addr2}, false},
		{"[" + a24 + "]", []common.Address{addr}, false}, {`"0x"`, nil, true}, {`"0x12"`, nil, true}, {`["0x12"]`, nil, true}, {`[null]`, nil, true}, {`7`, nil, true}, {`"zz"`, nil, true},
		{q(addr.Hex() + "0102"), nil, true}, {q(t1.Hex()), nil, true}}
	topics := []struct {
		js   string
		want [][]common.Hash
		bad  bool
	}{{"", nil, false}, {"null", nil, false}, {"[]", nil, false}, {"[" + h1 + "]", [][]common.Hash{{t1}}, false}, {"[null," + h1 + "]", [][]common.Hash{nil, {t1}}, false},
		{"[[" + h1 + "," + h2 + "]," + h2 + "]", [][]common.Hash{{t1, t2}, {t2}}, false}, {"[[" + h1 + ",null]," + h2 + "]", [][]common.Hash{nil, {t2}}, false},
		{"[[],null," + h1 + "]", [][]common.Hash{nil, nil, {t1}}, false}, {`["0x12"]`, nil, true}, {`[7]`, nil, true}, {`[[7]]`, nil, true}, {`["zz"]`, nil, true}, {`[[` + h1 + `,"0x"]]`, nil, true}}
	h.Bound("block forms", len(blocks))
	h.Bound("address forms", len(addrs))
	h.Bound("topic forms", len(topics))
	h.Explore("requests", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		f, to := blocks[c.Choose(len(blocks), "from")], blocks[c.Choose(len(blocks), "to")]
		shard := c.Choose(3, "shard: not named, 0, 0x10001")
		fails := c.Bool("the shard fails")
		byHash := c.Bool("by block hash")
		for _, a := range addrs {
			for _, p := range topics {
				var parts []string
				bad := f.bad || to.bad || a.bad || p.bad
				add := func(k, v string) {
					if v != "" {
						parts = append(parts, fmt.Sprintf("%q:%s", k, v))
					}
				}
				add("fromBlock", f.js)
				add("toBlock", to.js)
				add("address", a.js)
				add("topics", p.js)
				if byHash {
					add("blockHash", h2)
					for _, v := range []string{f.js, to.js} {
						if v != "" && v != "null" {
							bad = true
						}
					}
				}
				js := "{" + strings.Join(parts, ",") + "}"
				args := new(rpc.FilterQuery)
				var err error
				if site, v := kit.Try(func() { err = json.Unmarshal([]byte(js), args) }); v != nil {
					c.Fail("request crashes", "decoding %s crashes: %v at %s", js, v, site)
					continue
				}
				if bad {
					c.Check(err != nil, "bad request", "%s is accepted", js)
					continue
				}
				if err != nil {
					c.Fail("good request", "%s is refused: %v", js, err)
					continue
				}
				b := &c20Backend{head: head, id: 1}
				var key *hexutil.Uint
				if shard > 0 {
					k := hexutil.Uint([]uint32{0, 0, 0x10001}[shard])
					key = &k
					size := clusterCfg.Quarkchain.Chains[uint32(k)>>16].ShardSize
					b.id = uint32(k)>>16<<16 | size | uint32(k)&(size-1)
				}
				if fails {
					b.fail = errors.New("shard fails")
				}
				b.logs = []*types.Log{{Recipient: addr, Topics: []common.Hash{t1, t2}, Data: []byte{1, 2}, BlockNumber: 4, TxHash: t1, TxIndex: 3, BlockHash: t2, Index: 6}, {Recipient: addr2, Data: nil, Index: 7}}
				res, err := (&CommonAPI{b: b}).GetLogs(args, key)
				if fails {
					c.Check(err != nil, "failure hidden", "a failing query %s is answered with %d logs", js, len(res))
				} else if err != nil || len(res) != len(b.logs) {
					c.Fail("answer", "%s: %d logs returned, %v", js, len(res), err)
					continue
				} else {
					for i, l := range b.logs {
						r := res[i]
						ts, _ := r["topics"].([]common.Hash)
						same := r["address"] == l.Recipient && r["blockHash"] == l.BlockHash && r["transactionHash"] == l.TxHash && r["removed"] == false &&
							r["blockNumber"] == hexutil.Uint64(l.BlockNumber) && r["logIndex"] == hexutil.Uint64(l.Index) && r["transactionIndex"] == hexutil.Uint64(l.TxIndex) &&
							string(r["data"].(hexutil.Bytes)) == string(l.Data) && fmt.Sprint(ts) == fmt.Sprint(append([]common.Hash{}, l.Topics...))
						c.Check(same, "log form", "%v is returned as %v", l, r)
					}
				}
				g := b.got
				if g == nil {
					c.Fail("passed on", "%s is not passed on", js)
					continue
				}
				c.Check(g.FullShardId == b.id, "shard", "%s goes to shard %d, not %d", js, g.FullShardId, b.id)
				if byHash {
					c.Check(g.BlockHash != nil && *g.BlockHash == t2, "by hash", "%s loses its block hash", js)
				} else {
					c.Check(g.BlockHash == nil, "by hash", "%s gains a block hash", js)
					c.Check(g.FromBlock != nil && g.FromBlock.Cmp(new(big.Int).SetUint64(f.val)) == 0, "from", "%s asks from block %v, not %d", js, g.FromBlock, f.val)
					c.Check(g.ToBlock != nil && g.ToBlock.Cmp(new(big.Int).SetUint64(to.val)) == 0, "to", "%s asks to block %v, not %d", js, g.ToBlock, to.val)
				}
				c.Check(fmt.Sprint(g.Addresses) == fmt.Sprint(append([]common.Address{}, a.want...)), "addresses", "%s asks for %v", js, g.Addresses)
				c.Check(fmt.Sprint(g.Topics) == fmt.Sprint(append([][]common.Hash{}, p.want...)), "topics", "%s asks for %v", js, g.Topics)
			}
		}
	})
}

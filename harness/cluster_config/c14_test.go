package config

// C14: routing of keys to shards, neighbours, token names, and the text and byte forms of addresses.

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
)

// c14Low are the low halves of full shard keys.
var c14Low = []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff}

func c14ChainJSON(t *testing.T, id, size uint32) json.RawMessage {
	cc := NewChainConfig()
	cc.ChainID, cc.ShardSize, cc.ConsensusType = id, size, PoWSimulate
	cc.ConsensusConfig = NewPOWConfig()
	b, err := json.Marshal(cc)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

// c14Config reads a configuration whose chains are listed in the given order.
func c14Config(t *testing.T, sizes []uint32, order []int) (q *QuarkChainConfig, refused string) {
	base := NewQuarkChainConfig()
	base.ChainSize = uint32(len(sizes))
	b, err := json.Marshal(base)
	if err != nil {
		t.Fatal(err)
	}
	m := map[string]json.RawMessage{}
	if err := json.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	var list []json.RawMessage
	for _, i := range order {
		list = append(list, c14ChainJSON(t, uint32(i), sizes[i]))
	}
	m["CHAINS"], _ = json.Marshal(list)
	if b, err = json.Marshal(m); err != nil {
		t.Fatal(err)
	}
	q = new(QuarkChainConfig)
	site, val := kit.Try(func() { err = json.Unmarshal(b, q) })
	if site != "" {
		return nil, fmt.Sprint(val)
	}
	if err != nil {
		return nil, err.Error()
	}
	return q, ""
}

func c14Perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range c14Perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func c14Want(sizes []uint32, key uint32) (id, size uint32, ok bool) {
	chain := key >> 16
	if chain >= uint32(len(sizes)) {
		return 0, 0, false
	}
	size = sizes[chain]
	return chain*65536 + size + (key%65536)%size, size, true
}

// c14Routing compares everything that maps a key to a shard.
func c14Routing(c *kit.Case, q *QuarkChainConfig, sizes []uint32) {
	var ids []uint32
	for ch, s := range sizes {
		for i := uint32(0); i < s; i++ {
			ids = append(ids, uint32(ch)*65536+s+i)
		}
	}
	got := append([]uint32{}, q.GetGenesisShardIds()...)
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	c.Check(fmt.Sprint(got) == fmt.Sprint(ids), "configured-shards", "sizes %v: shards %v, want %v", sizes, got, ids)
	init := q.GetInitializedShardIdsBeforeRootHeight(1)
	sort.Slice(init, func(i, j int) bool { return init[i] < init[j] })
	c.Check(fmt.Sprint(init) == fmt.Sprint(ids), "initialised-shards", "sizes %v: %v, want %v", sizes, init, ids)
	c.Check(len(q.GetInitializedShardIdsBeforeRootHeight(0)) == 0, "initialised-shards", "sizes %v: shards initialised before height 0", sizes)
	for _, id := range ids {
		s := q.GetShardConfigByFullShardID(id)
		if s == nil {
			c.Fail("shard-config-missing", "sizes %v: no configuration for shard %d", sizes, id)
			continue
		}
		c.Check(s.GetFullShardId() == id && s.ChainID == id>>16 && s.ShardSize == sizes[id>>16] && s.ShardID == (id&0xffff)-sizes[id>>16], "shard-config-wrong",
			"sizes %v: shard %d has configuration of chain %d size %d shard %d", sizes, id, s.ChainID, s.ShardSize, s.ShardID)
		b := account.NewBranch(id)
		c.Check(b.GetFullShardID() == id && b.GetChainID() == s.ChainID && b.GetShardSize() == s.ShardSize && b.GetShardID() == s.ShardID, "branch-parts",
			"branch %d: chain %d size %d shard %d", id, b.GetChainID(), b.GetShardSize(), b.GetShardID())
		b2, err := account.CreatBranch(s.ChainID, s.ShardSize, s.ShardID)
		c.Check(err == nil && b2.Value == id, "branch-create", "branch of (%d, %d, %d) is %d %v, want %d", s.ChainID, s.ShardSize, s.ShardID, b2.Value, err, id)
		c.Check(s.GetRootConfig() != nil && s.GetRootConfig() == q.Root, "shard-root-config", "shard %d does not share the root configuration", id)
	}
	var keys []uint32
	for ch := uint32(0); ch <= uint32(len(sizes)); ch++ {
		for _, l := range c14Low {
			keys = append(keys, ch<<16|l)
		}
	}
	keys = append(keys, 0x80000000, 0xffff0000, 0xffffffff)
	rcp := account.BytesToIdentityRecipient(common.FromHex("0102030405060708090a0b0c0d0e0f1011121314"))
	for _, k := range keys {
		c.Step()
		want, size, ok := c14Want(sizes, k)
		id, err := q.GetFullShardIdByFullShardKey(k)
		if !ok {
			c.Check(err != nil, "unknown-chain-routed", "sizes %v: key %#x of an unknown chain goes to shard %d", sizes, k, id)
			_, err = q.GetShardSizeByChainId(k >> 16)
			c.Check(err != nil, "unknown-chain-size", "sizes %v: unknown chain %d has a size", sizes, k>>16)
			for _, id := range ids {
				b := account.NewBranch(id)
				c.Check(!b.IsInBranch(k), "branch-takes-foreign-key", "sizes %v: shard %d takes key %#x", sizes, id, k)
			}
			continue
		}
		c.Check(err == nil && id == want, "key-routed-wrong", "sizes %v: key %#x goes to shard %d (%v), want %d", sizes, k, id, err, want)
		c.State(fmt.Sprint(sizes, k, id))
		sz, err := q.GetShardSizeByChainId(k >> 16)
		c.Check(err == nil && sz == size, "chain-size", "sizes %v: chain %d has size %d (%v)", sizes, k>>16, sz, err)
		addr := account.NewAddress(rcp, k)
		aid, err := addr.GetFullShardID(size)
		c.Check(err == nil && aid == want && addr.GetChainID() == k>>16, "address-shard", "sizes %v: address with key %#x is in shard %d (%v), want %d", sizes, k, aid, err, want)
		for _, id := range ids {
			b := account.NewBranch(id)
			c.Check(b.IsInBranch(k) == (id == want), "branch-membership", "sizes %v: shard %d takes key %#x: %v, want shard %d", sizes, id, k, b.IsInBranch(k), want)
			moved := addr.AddressInBranch(b)
			mid, err := q.GetFullShardIdByFullShardKey(moved.FullShardKey)
			c.Check(err == nil && mid == id && moved.Recipient == rcp, "address-in-branch", "sizes %v: address with key %#x put in shard %d has key %#x of shard %d (%v)", sizes, k, id, moved.FullShardKey, mid, err)
			c.Check(id != want || moved == addr, "address-in-own-branch", "sizes %v: address with key %#x, put in its own shard, has key %#x", sizes, k, moved.FullShardKey)
		}
	}
	for _, k1 := range keys {
		id1, s1, ok1 := c14Want(sizes, k1)
		for _, k2 := range keys {
			id2, s2, ok2 := c14Want(sizes, k2)
			c.Check(q.IsSameFullShard(k1, k2) == (ok1 && ok2 && id1 == id2), "same-shard", "sizes %v: keys %#x and %#x in one shard: %v, want shards %d and %d", sizes, k1, k2, q.IsSameFullShard(k1, k2), id1, id2)
			if !ok1 || !ok2 {
				continue
			}
			tx := types.NewEvmTransaction(0, rcp, big.NewInt(0), 0, big.NewInt(0), k1, k2, 1, 0, nil, 0, 0)
			e1, e2 := tx.SetFromShardSize(s1), tx.SetToShardSize(s2)
			c.Check(e1 == nil && e2 == nil, "tx-shard-size", "sizes %d, %d refused: %v, %v", s1, s2, e1, e2)
			c.Check(tx.FromFullShardId() == id1 && tx.ToFullShardId() == id2, "tx-shards", "sizes %v: transaction from key %#x to key %#x goes from shard %d to %d, want %d and %d", sizes, k1, k2, tx.FromFullShardId(), tx.ToFullShardId(), id1, id2)
			c.Check(tx.IsCrossShard() == (id1 != id2), "tx-cross-shard", "sizes %v: transaction from key %#x to key %#x is cross-shard: %v, shards %d and %d", sizes, k1, k2, tx.IsCrossShard(), id1, id2)
			create := types.NewEvmContractCreation(0, big.NewInt(0), 0, big.NewInt(0), k1, k2, 1, 0, nil, 0, 0)
			create.SetFromShardSize(s1)
			create.SetToShardSize(s2)
			c.Check(create.ToFullShardId() == id2 && create.IsCrossShard() == (id1 != id2), "creation-shard", "sizes %v: creation from key %#x with key %#x in shard %d", sizes, k1, k2, create.ToFullShardId())
		}
	}
}


func TestVerifC14Routing(t *testing.T) {
	h := kit.New("C14", "Routing")
	defer h.Done()
	menu := []uint32{1, 2, 4, 8}
	maxChains := kit.Tier(3, 4)
	h.Bound("chains", maxChains)
	h.Bound("shard_sizes", len(menu))
	h.Bound("keys_per_chain", len(c14Low))
	h.Explore("read", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		n := 1 + c.Choose(maxChains, "chains")
		sizes := make([]uint32, n)
		for i := range sizes {
			sizes[i] = menu[c.Choose(len(menu), "size")]
		}
		perms := c14Perms(n)
		if n == 4 {
			perms = [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}}
		}
		order := perms[c.Choose(len(perms), "order")]
		q, bad := c14Config(t, sizes, order)
		if q == nil {
			c.Fail("configuration-refused", "sizes %v in order %v: %s", sizes, order, bad)
			return
		}
		c14Routing(c, q, sizes)
		c.Outcome("%d shards", len(q.GetGenesisShardIds()))
		// and once more through its own text form
		b, err := json.Marshal(q)
		q2 := new(QuarkChainConfig)
		if err == nil {
			err = json.Unmarshal(b, q2)
		}
		if err != nil {
			c.Fail("configuration-text", "sizes %v: %v", sizes, err)
			return
		}
		c14Routing(c, q2, sizes)
	})
	h.Explore("uniform", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		n := []uint32{1, 2, 3, 5, 8}[c.Choose(5, "chains")]
		size := []uint32{1, 2, 4, 8, 16, 32}[c.Choose(6, "size")]
		q := NewQuarkChainConfig()
		q.Update(n, size, 10, 3)
		sizes := make([]uint32, n)
		for i := range sizes {
			sizes[i] = size
		}
		c14Routing(c, q, sizes)
		c.Outcome("uniform")
	})
	h.Explore("large", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		// sizes up to the whole key space, without a configuration
		size := uint32(1) << uint(c.Choose(16, "size"))
		chain := []uint32{0, 1, 2, 255, 256, 0x7fff, 0x8000, 0xffff}[c.Choose(8, "chain")]
		for _, l := range c14Low {
			key := chain<<16 | l
			want := chain<<16 | (size + l%size)
			addr := account.NewAddress(common.Address{1}, key)
			id, err := addr.GetFullShardID(size)
			c.Check(err == nil && id == want, "address-shard", "size %d: key %#x in shard %#x (%v), want %#x", size, key, id, err, want)
			b := account.NewBranch(want)
			c.Check(b.GetChainID() == chain && b.GetShardSize() == size && b.GetShardID() == l%size && b.IsInBranch(key), "branch-parts", "branch %#x: chain %d size %d shard %d takes %#x: %v", want, b.GetChainID(), b.GetShardSize(), b.GetShardID(), key, b.IsInBranch(key))
			tx := types.NewEvmTransaction(0, common.Address{}, big.NewInt(0), 0, big.NewInt(0), key, key^0xffff, 1, 0, nil, 0, 0)
			tx.SetFromShardSize(size)
			tx.SetToShardSize(size)
			want2 := chain<<16 | (size + (l^0xffff)%size)
			c.Check(tx.FromFullShardId() == want && tx.ToFullShardId() == want2 && tx.IsCrossShard() == (want != want2), "tx-shards", "size %d: transaction from %#x to %#x", size, key, key^0xffff)
			c.Step()
		}
		c.Outcome("size %d", size)
	})
	h.Explore("refused", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		// a size that is no power of two leaves keys without a shard, so it must not be accepted
		n := 1 + c.Choose(2, "chains")
		at := c.Choose(n, "at")
		sizes := make([]uint32, n)
		for i := range sizes {
			sizes[i] = 2
		}
		sizes[at] = []uint32{3, 5, 6, 7, 9, 12}[c.Choose(6, "size")]
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		q, _ := c14Config(t, sizes, order)
		c.Check(q == nil, "bad-size-accepted", "a configuration with shard sizes %v was accepted", sizes)
		for _, s := range sizes[at : at+1] {
			addr := account.NewAddress(common.Address{}, 1)
			_, err := addr.GetFullShardID(s)
			_, err2 := account.CreatBranch(0, s, 0)
			tx := types.NewEvmTransaction(0, common.Address{}, big.NewInt(0), 0, big.NewInt(0), 0, 0, 1, 0, nil, 0, 0)
			c.Check(err != nil && err2 != nil && tx.SetFromShardSize(s) != nil && tx.SetToShardSize(s) != nil, "bad-size-accepted", "shard size %d accepted", s)
		}
		c.Outcome("refused")
	})
	h.Explore("missing", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		n := 2 + c.Choose(2, "chains")
		drop := 1 + c.Choose(n-1, "missing")
		sizes := make([]uint32, n)
		var order []int
		for i := range sizes {
			sizes[i] = 2
			if i != drop {
				order = append(order, i)
			}
		}
		q, _ := c14Config(t, sizes, order)
		c.Check(q == nil, "gap-accepted", "a configuration of %d chains without chain %d was accepted", n, drop)
		c.Outcome("refused")
	})
}

// ---- assignment of shards to slaves

func TestVerifC14Slaves(t *testing.T) {
	h := kit.New("C14", "Slaves")
	defer h.Done()
	h.Explore("default", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		a := NewClusterConfig()
		seen := map[uint32]string{}
		for _, s := range a.SlaveList {
			for _, id := range s.FullShardList {
				c.Check(seen[id] == "", "shard-twice", "shard %d belongs to %s and %s", id, seen[id], s.ID)
				seen[id] = s.ID
			}
		}
		for _, id := range a.Quarkchain.GetGenesisShardIds() {
			c.Check(seen[id] != "", "shard-without-slave", "shard %d belongs to no slave", id)
		}
		// every process of a cluster computes the assignment for itself
		for i := 0; i < 20; i++ {
			b := NewClusterConfig()
			for j, s := range b.SlaveList {
				c.Check(fmt.Sprint(s.FullShardList) == fmt.Sprint(a.SlaveList[j].FullShardList), "assignment-differs",
					"two processes with the default configuration assign %v and %v to slave %s", a.SlaveList[j].FullShardList, s.FullShardList, s.ID)
			}
		}
		c.Outcome("assigned")
	})
	masks := []uint32{1, 2, 3, 4, 5, 6, 7, 8, 9, 15}
	maxMasks := kit.Tier(2, 3)
	h.Bound("masks_per_slave", maxMasks)
	h.Explore("masks", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		n := []uint32{1, 2, 3, 5, 8}[c.Choose(5, "chains")]
		slaves := 1 + c.Choose(2, "slaves")
		cl := NewClusterConfig()
		cl.Quarkchain.Update(n, 1, 10, 3)
		var lists [][]uint32
		var raw []map[string]interface{}
		for i := 0; i < slaves; i++ {
			var l []uint32
			if i == 0 {
				for j := 1 + c.Choose(maxMasks, "masks"); j > 0; j-- {
					l = append(l, masks[c.Choose(len(masks), "mask")])
				}
			} else {
				l = [][]uint32{{1}, {2, 3}, {5, 2}}[c.Choose(3, "masks of another slave")]
			}
			lists = append(lists, l)
			raw = append(raw, map[string]interface{}{"HOST": "localhost", "PORT": 38000 + i, "ID": fmt.Sprintf("S%d", i), "CHAIN_MASK_LIST": l})
		}
		b, _ := json.Marshal(map[string]interface{}{"SLAVE_LIST": raw})
		if err := json.Unmarshal(b, cl); err != nil {
			c.Fail("masks-refused", "%s: %v", b, err)
			return
		}
		if err := cl.BackWardChainMaskList(); err != nil {
			c.Fail("masks-refused", "%s: %v", b, err)
			return
		}
		c.Check(len(cl.SlaveList) == slaves, "slaves", "%d slaves of %d", len(cl.SlaveList), slaves)
		for i, s := range cl.SlaveList {
			var want []uint32
			for chain := uint32(0); chain < n; chain++ {
				for _, m := range lists[i] {
					// the mask's bits after its leading one are the last bits of the chain's number
					top := uint32(1)
					for top*2 <= m {
						top *= 2
					}
					if chain%top == m-top {
						want = append(want, chain<<16+1)
						break
					}
				}
			}
			c.Check(fmt.Sprint(s.FullShardList) == fmt.Sprint(want), "mask-assignment", "%d chains, masks %v: slave runs shards %v, want %v", n, lists[i], s.FullShardList, want)
			c.State(fmt.Sprint(n, lists[i]))
			// and through the text form
			b, err := json.Marshal(s)
			s2 := new(SlaveConfig)
			if err == nil {
				err = json.Unmarshal(b, s2)
			}
			c.Check(err == nil && fmt.Sprint(s2.FullShardList) == fmt.Sprint(s.FullShardList) && s2.ID == s.ID && s2.Port == s.Port && s2.IP == s.IP, "slave-text", "slave %s read back as %+v (%v)", b, s2, err)
		}
		c.Outcome("%d slaves", slaves)
	})
	h.Explore("genesis", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		// accounts of the genesis files belong to the shard of their key, whichever file lists them
		n := 1 + c.Choose(3, "chains")
		size := []uint32{1, 2, 4, 16, 256}[c.Choose(5, "size")]
		dir, err := ioutil.TempDir("", "c14gen")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		os.MkdirAll(filepath.Join(dir, "alloc"), 0700)
		cl := NewClusterConfig()
		cl.GenesisDir = dir
		cl.Quarkchain.Update(uint32(n), size, 10, 3)
		sizes := make([]uint32, n)
		for i := range sizes {
			sizes[i] = size
		}
		want := map[uint32]map[account.Address]bool{}
		shift := c.Choose(n, "file")
		for chain := 0; chain < n; chain++ {
			var list []GenesisAddress
			for i, l := range c14Low {
				a := account.NewAddress(common.BytesToAddress([]byte{byte(chain + 1), byte(i)}), uint32(chain)<<16|l)
				id, _, _ := c14Want(sizes, a.FullShardKey)
				if want[id] == nil {
					want[id] = map[account.Address]bool{}
				}
				want[id][a] = true
				list = append(list, GenesisAddress{Address: a.ToHex()})
			}
			b, _ := json.Marshal(list)
			ioutil.WriteFile(filepath.Join(dir, fmt.Sprintf(templateFile, (chain+shift)%n)), b, 0600)
		}
		extra := account.NewAddress(common.Address{0xee}, 0)
		b, _ := json.Marshal([]GenesisAddress{{Address: extra.ToHex()}})
		ioutil.WriteFile(filepath.Join(dir, testFile), b, 0600)
		if err := UpdateGenesisAlloc(cl); err != nil {
			c.Fail("genesis-refused", "%v", err)
			return
		}
		for id, s := range cl.Quarkchain.shards {
			got := 0
			for a := range s.Genesis.Alloc {
				if a.Recipient == extra.Recipient {
					wid, _, ok := c14Want(sizes, a.FullShardKey)
					c.Check(ok && wid == id, "genesis-account-astray", "shard %d holds load test account %s", id, a.ToHex())
					continue
				}
				got++
				c.Check(want[id][a], "genesis-account-astray", "shard %d holds account %s", id, a.ToHex())
			}
			c.Check(got == len(want[id]), "genesis-account-missing", "shard %d holds %d accounts, want %d", id, got, len(want[id]))
		}
		c.Outcome("%d shards", len(cl.Quarkchain.shards))
	})
}

// ---- neighbours

func c14Power(d uint32) bool {
	for p := uint32(1); p != 0; p <<= 1 {
		if d == p {
			return true
		}
	}
	return false
}

func TestVerifC14Neighbours(t *testing.T) {
	h := kit.New("C14", "Neighbours")
	defer h.Done()
	chains := []uint32{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127}
	sizes := []uint32{1, 2, 4, 8, 16, 32, 64, 128}
	limit := uint32(kit.Tier(256, 2048))
	h.Bound("shards", int(limit))
	h.Explore("all", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		n, size := chains[c.Choose(len(chains), "chains")], sizes[c.Choose(len(sizes), "size")]
		total := n * size
		if total > limit {
			c.Outcome("beyond the bound")
			return
		}
		var bs []account.Branch
		for ch := uint32(0); ch < n; ch++ {
			for s := uint32(0); s < size; s++ {
				b, err := account.CreatBranch(ch, size, s)
				if err != nil {
					c.Fail("branch-create", "(%d, %d, %d): %v", ch, size, s, err)
					return
				}
				bs = append(bs, b)
			}
		}
		adj := make([][]int, total)
		for i, a := range bs {
			for j, b := range bs {
				got := account.IsNeighbor(a, b, total)
				if i == j {
					continue // a shard is never asked about itself
				}
				want := total <= 32
				di, dj := uint32(i), uint32(j)
				if !want {
					switch {
					case di/size == dj/size:
						want = c14Power(di%size - dj%size) || c14Power(dj%size - di%size)
					case di%size == dj%size:
						want = c14Power(di/size - dj/size) || c14Power(dj/size - di/size)
					}
				}
				c.Check(got == want, "neighbour", "%d chains of %d shards: %#x and %#x neighbours: %v, want %v", n, size, a.Value, b.Value, got, want)
				c.Check(got == account.IsNeighbor(b, a, total), "neighbour-one-way", "%d chains of %d shards: %#x and %#x neighbours one way only", n, size, a.Value, b.Value)
				if got {
					adj[i] = append(adj[i], j)
				}
			}
			c.Step()
		}
		// every shard is reached
		seen, todo := map[int]bool{0: true}, []int{0}
		for len(todo) > 0 {
			i := todo[0]
			todo = todo[1:]
			for _, j := range adj[i] {
				if !seen[j] {
					seen[j] = true
					todo = append(todo, j)
				}
			}
		}
		c.Check(uint32(len(seen)) == total, "shard-unreachable", "%d chains of %d shards: only %d of %d shards are reached", n, size, len(seen), total)
		c.State(fmt.Sprint(n, size))
		c.Outcome("all neighbours: %v", total <= 32)
	})
}

// ---- token names

func TestVerifC14Tokens(t *testing.T) {
	h := kit.New("C14", "Tokens")
	defer h.Done()
	letters := "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	depth := kit.Tier(4, 5)
	h.Bound("name_length", depth)
	first := make([]uint64, depth+2)
	pow := uint64(1)
	for l := 1; l <= depth+1; l++ {
		if l > 1 {
			first[l] = first[l-1] + pow
		}
		pow *= 36
	}
	h.Explore("all", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		// all names of one length with one first letter, in order
		l := 1 + c.Choose(depth, "length")
		lead := c.Choose(36, "first letter")
		name := make([]byte, l)
		idx := make([]int, l)
		idx[0] = lead
		count := uint64(1)
		for i := 1; i < l; i++ {
			count *= 36
		}
		id := first[l] + uint64(lead)*count
		for k := uint64(0); k < count; k++ {
			v := k
			for i := l - 1; i > 0; i-- {
				idx[i] = int(v % 36)
				v /= 36
			}
			for i := range name {
				name[i] = letters[idx[i]]
			}
			got := qcom.TokenIDEncode(string(name))
			back, err := qcom.TokenIdDecode(id + k)
			if got != id+k {
				c.Fail("token-number", "%s has number %d, want %d", name, got, id+k)
				return
			}
			if err != nil || back != string(name) {
				c.Fail("token-name", "number %d has name %q (%v), want %s", id+k, back, err, name)
				return
			}
		}
		c.State(fmt.Sprint(l, lead))
		c.Outcome("length %d", l)
	})
	h.Explore("long", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		// names of every length whose letters are among the ends of the alphabet
		l := 1 + c.Choose(12, "length")
		menu := "0Z"
		if l <= kit.Tier(6, 8) {
			menu = "09AZ"
		}
		name := make([]byte, l)
		for i := range name {
			name[i] = menu[c.Choose(len(menu), "letter")]
		}
		want := new(big.Int)
		for _, ch := range name {
			want.Mul(want, big.NewInt(36))
			want.Add(want, big.NewInt(int64(bytes.IndexByte([]byte(letters), ch)+1)))
		}
		want.Sub(want, big.NewInt(1))
		got := qcom.TokenIDEncode(string(name))
		c.Check(want.IsUint64() && got == want.Uint64(), "token-number", "%s has number %d, want %v", name, got, want)
		c.Check(got <= qcom.TOKENIDMAX, "token-number", "%s has number %d beyond the last", name, got)
		for _, d := range []int64{0, -1, 1} {
			n := new(big.Int).Add(want, big.NewInt(d))
			if n.Sign() < 0 || n.Cmp(new(big.Int).SetUint64(qcom.TOKENIDMAX)) > 0 {
				continue
			}
			back, err := qcom.TokenIdDecode(n.Uint64())
			c.Check(err == nil && len(back) <= 12 && qcom.TokenIDEncode(back) == n.Uint64(), "token-name", "number %v has name %q (%v)", n, back, err)
			c.Check(d != 0 || back == string(name), "token-name", "number %v has name %q, want %s", n, back, name)
		}
		c.Outcome("length %d", l)
	})
	h.Explore("refused", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		switch c.Choose(2, "kind") {
		case 0:
			id := []uint64{qcom.TOKENIDMAX + 1, qcom.TOKENIDMAX + 36, 1 << 63, ^uint64(0)}[c.Choose(4, "number")]
			name, err := qcom.TokenIdDecode(id)
			c.Check(err != nil, "number-beyond-last", "number %d has name %q", id, name)
		default:
			name := []string{"a", "q", "QKc", "Q C", "QKC ", "-1", "", "ZZZZZZZZZZZZZ", "0000000000000", "Q\x00", "É", ":", "/", "@", "["}[c.Choose(15, "name")]
			var got uint64
			site, _ := kit.Try(func() { got = qcom.TokenIDEncode(name) })
			c.Check(site != "", "bad-name-numbered", "name %q has number %d", name, got)
		}
		c.Outcome("refused")
	})
	c := []struct {
		name string
		id   uint64
	}{{"QKC", 35760}, {"0", 0}, {"Z", 35}, {"00", 36}, {"ZZZZZZZZZZZZ", 4873763662273663091}}
	h.Explore("known", kit.Opt{MaxDev: -1}, func(k *kit.Case) {
		e := c[k.Choose(len(c), "name")]
		got := qcom.TokenIDEncode(e.name)
		k.Check(got == e.id, "token-number", "%s has number %d, want %d", e.name, got, e.id)
		q := NewQuarkChainConfig()
		q.GenesisToken = e.name
		k.Check(q.GetDefaultChainTokenID() == e.id && q.GetDefaultChainTokenID() == e.id, "default-token", "default token %s has number %d", e.name, q.GetDefaultChainTokenID())
		k.Outcome("known")
	})
}

// ---- text and byte forms

func TestVerifC14Forms(t *testing.T) {
	h := kit.New("C14", "Forms")
	defer h.Done()
	patterns := []byte{0x00, 0x01, 0x0f, 0x10, 0x7f, 0x80, 0xa0, 0xff}
	h.Explore("address", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		// every byte position away from a background, every listed value
		bg := []byte{0, 0xff, 0x5a}[c.Choose(3, "background")]
		raw := bytes.Repeat([]byte{bg}, 24)
		pos := c.Choose(25, "position")
		if pos < 24 {
			raw[pos] = patterns[c.Choose(len(patterns), "value")]
		}
		a, err := account.CreatAddressFromBytes(raw)
		if err != nil {
			c.Fail("address-refused", "%x: %v", raw, err)
			return
		}
		key := binary.BigEndian.Uint32(raw[20:])
		c.Check(bytes.Equal(a.Recipient[:], raw[:20]) && a.FullShardKey == key, "address-parts", "%x read as %x %#x", raw, a.Recipient, a.FullShardKey)
		c.Check(a == account.NewAddress(a.Recipient, key) && account.IsSameAddress(a, account.NewAddress(a.Recipient, key)), "address-equal", "%x", raw)
		c.Check(bytes.Equal(a.ToBytes(), raw), "address-bytes", "%x written as %x", raw, a.ToBytes())
		text := "0x" + hex.EncodeToString(raw)
		c.Check(a.ToHex() == text, "address-text", "%s written as %s", text, a.ToHex())
		c.State(text)
		b, err := json.Marshal(a)
		var a2 account.Address
		c.Check(err == nil && string(b) == `"`+text+`"`, "address-json", "%s written as %s (%v)", text, b, err)
		err = json.Unmarshal(b, &a2)
		c.Check(err == nil && a2 == a, "address-json", "%s read as %s (%v)", b, a2.ToHex(), err)
		u := account.UnprefixedAddress(a)
		m := map[string]account.UnprefixedAddress{"k": u}
		b, err = json.Marshal(m)
		m2 := map[string]account.UnprefixedAddress{}
		if err == nil {
			err = json.Unmarshal(b, &m2)
		}
		c.Check(err == nil && m2["k"] == u && m2["k"].Address() == a, "address-text", "%s read as %s (%v)", b, m2["k"].Address().ToHex(), err)
		var u2 account.UnprefixedAddress
		err = u2.UnmarshalText([]byte(hex.EncodeToString(raw)))
		c.Check(err == nil && u2 == u, "address-text", "%x read as %s (%v)", raw, u2.Address().ToHex(), err)
		w, err := serialize.SerializeToBytes(&a)
		var a3 account.Address
		if err == nil {
			err = serialize.Deserialize(serialize.NewByteBuffer(w), &a3)
		}
		c.Check(err == nil && a3 == a && bytes.Equal(w, raw), "address-wire", "%x sent as %x read as %s (%v)", raw, w, a3.ToHex(), err)
		zero := true
		for _, x := range raw[:20] {
			zero = zero && x == 0
		}
		c.Check(a.IsEmpty() == zero, "address-empty", "%x empty: %v", raw, a.IsEmpty())
		c.Check(a.AddressInShard(77) == account.NewAddress(a.Recipient, 77), "address-in-shard", "%x", raw)
		// any other byte gives another address
		for i := 0; i < 24; i++ {
			o := append([]byte{}, raw...)
			o[i] ^= 1 << uint(i%8)
			oa, err := account.CreatAddressFromBytes(o)
			c.Check(err == nil && oa != a && oa.ToHex() != a.ToHex() && !account.IsSameAddress(oa, a), "addresses-confused", "%x and %x", raw, o)
		}
		// the genesis file form
		sg := NewShardGenesis()
		sg.Alloc[a] = Allocation{Balances: map[string]*big.Int{"QKC": big.NewInt(5)}}
		b, err = json.Marshal(sg)
		sg2 := new(ShardGenesis)
		if err == nil {
			err = json.Unmarshal(b, sg2)
		}
		c.Check(err == nil && len(sg2.Alloc) == 1 && sg2.Alloc[a].Balances["QKC"] != nil && sg2.Alloc[a].Balances["QKC"].Cmp(big.NewInt(5)) == 0, "genesis-address", "%s read back as %v (%v)", text, sg2.Alloc, err)
		c.Outcome("address")
	})
	h.Explore("bad", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		n := c.Choose(50, "digits")
		prefix := c.Choose(2, "prefix") == 1
		quote := c.Choose(2, "quotes") == 1
		badAt := c.Choose(3, "bad digit")
		s := bytes.Repeat([]byte("a"), n)
		if badAt > 0 && n > 0 {
			s[(n-1)*(badAt-1)] = 'g'
		}
		text := string(s)
		if prefix {
			text = "0x" + text
		}
		if quote {
			text = `"` + text + `"`
		}
		a := account.NewAddress(common.Address{9}, 9)
		before := a
		var err error
		site, val := kit.Try(func() { err = a.UnmarshalJSON([]byte(text)) })
		c.Check(site == "", "address-panic", "%s: %v", text, val)
		ok := quote && prefix && n == 48 && badAt == 0
		if n == 0 && quote && prefix {
			c.Check(err == nil && a == before, "address-none", "%s: %v", text, err)
		} else {
			c.Check((err == nil) == ok, "address-text-accepted", "%s: read as %s (%v)", text, a.ToHex(), err)
		}
		var bs []byte
		for i := 0; i < n; i++ {
			bs = append(bs, byte(i))
		}
		_, err = account.CreatAddressFromBytes(bs)
		c.Check((err == nil) == (n == 24), "address-bytes-accepted", "%d bytes: %v", n, err)
		c.Outcome("%v", ok)
	})
	h.Explore("identity", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		k := account.BytesToIdentityKey([]byte{byte(1 + c.Choose(kit.Tier(60, 250), "key"))})
		id, err := account.CreatIdentityFromKey(k)
		if err != nil {
			c.Fail("identity", "%v", err)
			return
		}
		r := id.GetRecipient()
		key, err := id.GetDefaultFullShardKey()
		want := uint32(r[0])<<8 | uint32(r[10])
		c.Check(err == nil && key == want, "default-key", "identity %x has default key %#x, want %#x", r, key, want)
		acc, err := account.NewAccountWithKey(k)
		c.Check(err == nil && acc.QKCAddress == account.NewAddress(r, want) && acc.Address() == acc.QKCAddress.ToHex() && acc.PrivateKey() == hex.EncodeToString(k.Bytes()), "account-address", "key %x: account %s", k, acc.Address())
		c.State(fmt.Sprintf("%x", r))
		c.Outcome("identity")
	})
	h.Explore("branch", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		v := []uint32{1, 2, 3, 4, 7, 0x8000, 0xffff, 0x10001, 0x10003, 0xffff0001, 0xffffffff}[c.Choose(11, "value")]
		b := account.NewBranch(v)
		w, err := serialize.SerializeToBytes(&b)
		var b2 account.Branch
		if err == nil {
			err = serialize.Deserialize(serialize.NewByteBuffer(w), &b2)
		}
		c.Check(err == nil && b2 == b && binary.BigEndian.Uint32(w) == v && len(w) == 4, "branch-wire", "branch %#x sent as %x read as %#x (%v)", v, w, b2.Value, err)
		again, err := account.CreatBranch(b.GetChainID(), b.GetShardSize(), b.GetShardID())
		c.Check(err == nil && again == b, "branch-parts", "branch %#x from its parts is %#x (%v)", v, again.Value, err)
		c.Outcome("branch")
	})
	h.Explore("numbers", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		v := uint64(1)<<uint(c.Choose(64, "bit")) + uint64(c.Choose(3, "plus")) - 1
		c.Check(qcom.IsP2(uint32(v)) == (uint32(v) == 0 || c14Power(uint32(v))), "power-of-two", "%d: %v", uint32(v), qcom.IsP2(uint32(v)))
		bits := uint32(0)
		for x := uint32(v); x > 0; x /= 2 {
			bits++
		}
		c.Check(qcom.IntLeftMostBit(uint32(v)) == bits, "left-most-bit", "%d: %d", uint32(v), qcom.IntLeftMostBit(uint32(v)))
		b := qcom.Uint32ToBytes(uint32(v))
		c.Check(len(b) == 4 && qcom.BytesToUint32(b) == uint32(v) && bytes.Equal(b, account.Uint32ToBytes(uint32(v))), "uint32-bytes", "%d: %x", uint32(v), b)
		b = qcom.EncodeToByte32(v)
		c.Check(len(b) == 32 && new(big.Int).SetBytes(b).Uint64() == v, "byte32", "%d: %x", v, b)
		b = qcom.BigToByte32(new(big.Int).SetUint64(v))
		c.Check(len(b) == 32 && new(big.Int).SetBytes(b).Uint64() == v, "byte32", "%d: %x", v, b)
		b = qcom.Uint64ToBytes(v)
		c.Check(len(b) == 8 && new(big.Int).SetBytes(b).Uint64() == v, "uint64-bytes", "%d: %x", v, b)
		c.Outcome("number")
	})
}

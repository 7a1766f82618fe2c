package core

// C21 (shard): a transaction whose signature, network, shard or nonce does not fit the shard is never executed there.

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkccommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

const c21Eth = 110000

type c21sTx struct {
	version uint32
	vTx
	dv, flipS int
}

func c21Left(v uint64, n int) []byte {
	b := new(big.Int).SetUint64(v).Bytes()
	return append(make([]byte, n-len(b)), b...)
}

// sign signs by the rules of the version, with independent means.
func (t c21sTx) sign() *types.Transaction {
	price, value := big.NewInt(t.gasPrice), big.NewInt(t.value)
	e := types.NewEvmTransaction(t.nonce, t.to, value, t.gas, price, t.fromKey, t.toKey, t.networkID, t.version, t.data, t.gasTok, t.xferTok)
	var v, r, s *big.Int
	switch t.version {
	case 2:
		chain := new(big.Int).SetUint64(uint64(t.networkID))
		var tx *ethtypes.Transaction
		var err error
		tx, err = ethtypes.SignTx(ethtypes.NewTransaction(t.nonce, t.to, value, t.gas, price, t.data), ethtypes.NewEIP155Signer(chain), vKeys[t.from])
		if err != nil {
			panic(err)
		}
		v, r, s = tx.RawSignatureValues()
		if t.networkID == 0 { // Ethereum signs chain 0 the old way
			v = new(big.Int).Add(v, big.NewInt(8))
		}
	default:
		var hash []byte
		if t.version == 0 {
			h := types.MakeSigner(t.networkID).Hash(e) // checked by the part on signing
			hash = h[:]
		} else {
			schema := "uint256 nonceuint256 gasPriceuint256 gasLimituint160 touint256 valuebytes datauint256 networkIduint32 fromFullShardKeyuint32 toFullShardKeyuint64 gasTokenIduint64 transferTokenIdstring qkcDomain"
			p := bytes.Join([][]byte{c21Left(t.nonce, 32), c21Left(uint64(t.gasPrice), 32), c21Left(t.gas, 32), t.to[:], c21Left(uint64(t.value), 32), t.data, c21Left(uint64(t.networkID), 32),
				c21Left(uint64(t.fromKey), 4), c21Left(uint64(t.toKey), 4), c21Left(t.gasTok, 8), c21Left(t.xferTok, 8), []byte("bottom-quark")}, nil)
			hash = crypto.Keccak256(crypto.Keccak256([]byte(schema)), crypto.Keccak256(p))
		}
		sig, err := crypto.Sign(hash, vKeys[t.from])
		if err != nil {
			panic(err)
		}
		r, s, v = new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64]), big.NewInt(27+int64(sig[64]))
	}
	if t.flipS == 1 {
		n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
		s = new(big.Int).Sub(n, s)
		base := int64(27)
		if t.version == 2 {
			base = 35 + 2*int64(t.networkID)
		}
		v = new(big.Int).Sub(big.NewInt(2*base+1), v)
	}
	if t.dv != 0 {
		v = new(big.Int).Add(v, big.NewInt(int64(t.dv)))
		if v.Sign() < 0 {
			v = new(big.Int)
		}
	}
	e.SetVRS(v, r, s)
	return &types.Transaction{TxType: types.EvmTx, EvmTx: e}
}

func TestVerifC21Shard(t *testing.T) {
	h := kit.New("C21", "Shard")
	defer h.Done()
	dev := kit.Tier(2, 3)
	h.Bound("fields_away_from_typical", dev)
	tok := qkccommon.TokenIDEncode("TOK")
	other := qkccommon.TokenIDEncode("ABC")
	ids := []uint32{2, 3, 65538}
	h.Explore("all", kit.Opt{MaxDev: dev}, func(c *kit.Case) {
		version := uint32(c.Choose(3, "version"))
		id := ids[c.Choose(len(ids), "shard")]
		chain := id >> 16
		home := chain<<16 | (id & 1)
		from := 0 // when version 2 begins: long ago, with the block, just after it, never
		if version == 2 {
			from = c.Dev(4, "version 2 from")
		}
		key := "c21"
		if from > 0 {
			key = "" // a configuration of its own
		}
		w := vWithPool(vNew(vOpt{id: id, key: key, alloc: map[account.Recipient]config.Allocation{
			vRecipient(0): {Balances: map[string]*big.Int{"QKC": big.NewInt(100000000), "TOK": big.NewInt(100)}},
			vRecipient(1): vQkcBal(100000000),
		}, tune: func(q *config.QuarkChainConfig) {
			q.BaseEthChainID = c21Eth
			q.EnableEIP155SignerTimestamp = 1
		}}), DefaultTxPoolConfig)
		defer w.close()
		r1 := vRoot(w.root0, 5, vAddr(2, 0), 7, 1)
		if _, err := w.s.AddRootBlock(r1); err != nil {
			c.Fail("root", "%v", err)
			return
		}
		coin := vAddr(3, home)
		b1, _, err := w.mine(w.block(w.s.CurrentBlock(), r1, coin, 1,
			vTx{from: 0, to: vRecipient(4), fromKey: home, toKey: home, gasPrice: 1, nonce: 0}.sign(),
			vTx{from: 0, to: vRecipient(4), fromKey: home, toKey: home, gasPrice: 1, nonce: 1}.sign()))
		if err != nil {
			c.Fail("valid-refused", "shard %d: ordinary transactions: %v", id, err)
			return
		}
		w.sync()
		if from > 0 {
			w.cfg.Quarkchain.EnableEIP155SignerTimestamp = []uint64{1, b1.Time() + 1, b1.Time() + 2, math.MaxUint64}[from]
		}
		x := c21sTx{version: version, vTx: vTx{from: 0, to: vRecipient(4), value: 5, gas: 40000, gasPrice: 1, nonce: 2, fromKey: home, toKey: home, gasTok: vQKC, xferTok: vQKC, networkID: vNetworkID}}
		if version == 2 {
			x.networkID = c21Eth + 1 + chain
			x.fromKey, x.toKey = chain<<16, chain<<16
		}
		pick := func(name string, n int, set func(i int)) {
			if i := c.Dev(n+1, name); i > 0 {
				set(i - 1)
			}
		}
		keys := []uint32{0, 1, 2, 3, 0x8000, 0x10000, 0x10001, 0x10002, 0x20000, 0xffff0000}
		pick("network", 6, func(i int) {
			x.networkID = []uint32{0, vNetworkID, vNetworkID + 1, c21Eth, c21Eth + 1, c21Eth + 2}[i]
			if x.networkID == 0 {
				x.vTx.networkID = 0
			}
		})
		pick("from key", len(keys), func(i int) { x.fromKey = keys[i] })
		pick("to key", len(keys), func(i int) { x.toKey = keys[i] })
		pick("nonce", 6, func(i int) { x.nonce = []uint64{0, 1, 3, 65, 66, math.MaxUint64}[i] })
		pick("signer", 2, func(i int) { x.from = i + 1 }) // a holder with another nonce, or with nothing
		pick("transferred token", 4, func(i int) { x.xferTok = []uint64{tok, other, 0, qkccommon.TOKENIDMAX + 1}[i] })
		pick("gas token", 3, func(i int) { x.gasTok = []uint64{tok, other, qkccommon.TOKENIDMAX + 1}[i] })
		pick("gas", 3, func(i int) { x.gas = []uint64{20999, 21000, 30000}[i] })
		pick("value", 3, func(i int) { x.value = []int64{0, 100, 200000000}[i] })
		pick("v", 6, func(i int) { x.dv = []int{2, -2, 8, -8, 256, -54}[i] })
		pick("other signature", 1, func(i int) { x.flipS = 1 })
		pick("claimed version", 3, func(i int) { // signed for one version, sent as another
			x.dv += 1000 * (i + 1)
		})
		claim := x.version
		if x.dv >= 900 {
			claim = uint32((int(x.version) + (x.dv+100)/1000) % 4)
			x.dv = (x.dv+100)%1000 - 100
		}
		tx := x.sign()
		if claim != x.version {
			v, r, s := tx.EvmTx.RawSignatureValues()
			e := types.NewEvmTransaction(x.nonce, x.to, big.NewInt(x.value), x.gas, big.NewInt(x.gasPrice), x.fromKey, x.toKey, x.networkID, claim, x.data, x.gasTok, x.xferTok)
			e.SetVRS(v, r, s)
			tx = &types.Transaction{TxType: types.EvmTx, EvmTx: e}
		}
		name := fmt.Sprintf("shard %d: version %d (from %d, signed as %d) network %d keys %#x -> %#x nonce %d by %d tokens %d %d gas %d value %d v%+d s%d", id, claim, from, x.version, x.networkID, x.fromKey, x.toKey, x.nonce, x.from, x.xferTok, x.gasTok, x.gas, x.value, x.dv, x.flipS)

		// what is wrong with it, in words of the rules
		shardOf := func(k uint32) (uint32, bool) { return k&^0xffff | 2 | k&1, k>>16 < 2 }
		fs, fok := shardOf(x.fromKey)
		ts, tok2 := shardOf(x.toKey)
		bad := ""
		say := func(cond bool, s string) {
			if cond && bad == "" {
				bad = s
			}
		}
		say(claim != x.version || x.dv != 0 || x.flipS != 0, "signature")
		say(!fok || fs != id, "sender's shard")
		say(!tok2, "recipient's shard")
		if x.version == 2 {
			say(x.networkID != c21Eth+1+chain, "network")
			say(from > 1, "version 2 not yet")
			say(x.fromKey>>16 != x.toKey>>16 || x.fromKey&0xffff != 0 || x.toKey&0xffff != 0, "keys of version 2")
			say(x.xferTok != vQKC || x.gasTok != vQKC, "tokens of version 2")
		} else {
			say(x.networkID != vNetworkID, "network")
		}
		state := map[int]uint64{0: 2, 1: 0, 2: 0}[x.from]
		say(x.nonce < state, "nonce used")
		say(x.nonce > state, "nonce ahead")
		say(x.from == 2, "balance")
		say(x.gasTok != vQKC, "gas token")
		need := uint64(21000)
		if ts != fs {
			need = 30000
		}
		say(x.gas < need, "gas")
		say(x.xferTok == vQKC && x.value+int64(x.gas) > 99000000, "balance")
		say(x.xferTok == tok && (x.from != 0 || x.value > 100), "balance")
		say(x.xferTok != vQKC && x.xferTok != tok, "token")
		ahead := bad == "nonce ahead"
		c.State(name)

		// the builder
		vCp := func() *types.Transaction {
			n, err := tx.CopyEvmTx()
			if err != nil {
				panic(err)
			}
			return n
		}
		w.sync()
		perr := w.s.AddTx(vCp())
		c.Check(bad == "" || ahead || perr != nil, "misfit-pooled", "%s taken into the pool although: %s", name, bad)
		c.Check(bad != "" || perr == nil || from == 1, "valid-not-pooled", "%s refused by the pool: %v", name, perr)
		w.sync()
		tm := b1.Time() + 1
		mb, err := w.s.CreateBlockToMine(&tm, &coin, nil, nil, nil)
		if err != nil {
			c.Fail("build", "%s: %v", name, err)
			return
		}
		in := 0
		for _, o := range mb.Transactions() {
			if o.Hash() == tx.Hash() {
				in++
			}
		}
		want := 0
		if bad == "" && perr == nil {
			want = 1
		}
		c.Check(in == want && len(mb.Transactions()) == in, "built-wrong", "%s is %d times in the built block of %d transactions (%s)", name, in, len(mb.Transactions()), bad)

		// the verifier
		bal := vMapStr(w.balances(b1, vRecipient(x.from)))
		b2, receipts, err := w.mine(w.block(b1, r1, coin, 2, vCp()))
		if bad != "" {
			c.Check(err != nil, "misfit-executed", "%s executed although: %s", name, bad)
			c.Check(w.s.CurrentBlock().Hash() == b1.Hash(), "head-moved", "%s: the head moved", name)
			c.Check(vMapStr(w.balances(b1, vRecipient(x.from))) == bal, "balances-moved", "%s: balances moved", name)
			c.Outcome("refused: %s", bad)
			return
		}
		if err != nil {
			c.Fail("valid-refused", "%s: %v", name, err)
			return
		}
		c.Outcome("executed, version %d", version)
		before, after := w.balances(b1, vRecipient(x.from)), w.balances(b2, vRecipient(x.from))
		n, err := w.s.GetTransactionCount(vRecipient(x.from), nil)
		c.Check(err == nil && n == x.nonce+1, "nonce", "%s: nonce is %d after it", name, n)
		g := new(big.Int)
		for k := range map[uint64]bool{vQKC: true, tok: true} {
			d := new(big.Int)
			if before[k] != nil {
				d.Add(d, before[k])
			}
			if after[k] != nil {
				d.Sub(d, after[k])
			}
			if k == x.xferTok {
				d.Sub(d, big.NewInt(x.value))
			}
			g.Add(g, d)
		}
		pays := x.gas // across shards the gas left over travels with the value
		if ts == fs {
			pays = receipts[0].GasUsed
		}
		c.Check(len(receipts) == 1 && g.IsUint64() && g.Uint64() == pays, "debit", "%s: sender pays %v besides the value, receipts %d", name, g, len(receipts))
		c.Check(receipts[0].TxHash == tx.Hash(), "receipt", "%s: receipt names %x", name, receipts[0].TxHash)
		// once only: not in the next block, not twice in one, not with the other signature
		_, _, err = w.mine(w.block(b2, r1, coin, 3, vCp()))
		c.Check(err != nil && w.s.CurrentBlock().Hash() == b2.Hash(), "executed-twice", "%s executed again", name)
		_, _, err = w.mine(w.block(b1, r1, coin, 4, vCp(), vCp()))
		c.Check(err != nil, "executed-twice", "%s executed twice in one block", name)
		w.sync()
		perr = w.s.AddTx(vCp())
		c.Check(perr != nil, "used-pooled", "%s taken into the pool again", name)
	})
}

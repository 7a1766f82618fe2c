package core

// C25: the gas estimated for a call is enough when the call is mined, one unit less is not, and asking changes nothing.

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkccommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
)

var (
	c25Tok = qkccommon.TokenIDEncode("TOK")

	c25Store  = c02At(0xa0) // stores its first input word
	c25Nest   = c02At(0xa1) // calls Store with all the gas it may pass on and its first input word, fails if Store fails
	c25Nest2  = c02At(0xa2) // calls Nest the same way
	c25Rev    = c02At(0xa3)
	c25Loop   = c02At(0xa4)
	c25Die    = c02At(0xa5) // destroys itself, paying the caller
	c25Paid   = c02At(0xa6) // fails unless paid 5 or more
	c25Invert = c02At(0xa7) // fails when given more than 60000 of gas: the search has no guarantee to find its way
	c25Pays   = c02At(0xa8) // pays 1 to a fresh account
	c25Full   = c02At(0xa9) // holds a word to give back for a refund
	c25Plain  = c02At(0xaa)
)

func c25Calls(to ethcommon.Address) []byte {
	c := []byte{0x60, 0, 0x35, 0x60, 0, 0x52} // mstore(0, word)
	c = append(c, 0x60, 0, 0x60, 0, 0x60, 32, 0x60, 0, 0x60, 0, 0x73)
	c = append(c, to[:]...)
	c = append(c, 0x5a, 0xf1) // call(gas, ...)
	at := byte(len(c) + 8)
	return append(c, 0x60, at, 0x57, 0x60, 0, 0x60, 0, 0xfd, 0x5b, 0x00)
}

type c25Call struct {
	name     string
	to       ethcommon.Address
	create   bool
	data     []byte
	value    int64
	tok      uint64
	unsteady bool // more gas may turn success into failure
}

func c25Menu() []c25Call {
	one, zero := append(make([]byte, 31), 1), make([]byte, 32)
	body := make([]byte, 60)
	for i := range body {
		body[i] = byte(i)
	}
	deploy := func(n byte) []byte { // code of n zero bytes, storing a word first
		return append([]byte{0x60, 1, 0x60, 0, 0x55, 0x60, n, 0x60, 0, 0xf3}, 0, 1)
	}
	return []c25Call{
		{name: "transfer", to: c25Plain, value: 7},
		{name: "nothing", to: c02At(0xb0)},
		{name: "calldata", to: c25Plain, data: body},
		{name: "other token", to: c25Plain, value: 9, tok: c25Tok},
		{name: "store", to: c25Store, data: one, value: 1},
		{name: "store nothing", to: c25Store, data: zero},
		{name: "give back", to: c25Full, data: zero},
		{name: "overwrite", to: c25Full, data: one},
		{name: "nested", to: c25Nest, data: one},
		{name: "nested twice", to: c25Nest2, data: one},
		{name: "nested give back", to: c25Nest2, data: zero, value: 2},
		{name: "create", create: true, data: deploy(0), value: 3},
		{name: "create 100", create: true, data: deploy(100)},
		{name: "create nothing", create: true},
		{name: "creation failing", create: true, data: []byte{0xfe}},
		{name: "reverts", to: c25Rev},
		{name: "runs forever", to: c25Loop},
		{name: "dies", to: c25Die, value: 4},
		{name: "not paid enough", to: c25Paid, value: 4},
		{name: "paid enough", to: c25Paid, value: 5},
		{name: "pays", to: c25Pays, value: 1},
		{name: "identity", to: ethcommon.Address{19: 4}, data: body},
		{name: "hash", to: ethcommon.Address{19: 2}, data: body, value: 1},
		{name: "too rich", to: c25Invert, unsteady: true},
	}
}

var c25Edge = 5

func c25Opt() vOpt {
	code := func(b ...byte) config.Allocation {
		return config.Allocation{Balances: map[string]*big.Int{"QKC": vBig(0)}, Code: b}
	}
	store := []byte{0x60, 0, 0x35, 0x60, 0, 0x55, 0x00}
	full := code(store...)
	full.Storage = map[ethcommon.Hash]ethcommon.Hash{{}: {31: 9}}
	return vOpt{key: "c25", gasLimit: 400000, pruning: true, tune: func(q *config.QuarkChainConfig) {
		for _, id := range vIDs(q) {
			a := map[ethcommon.Address]config.Allocation{
				vRecipient(1): {Balances: map[string]*big.Int{"QKC": vBig(1e12), "TOK": vBig(1000)}},
				// the value sent and some gas, but not the whole block's
				vRecipient(c25Edge): {Balances: map[string]*big.Int{"QKC": vBig(100000), "TOK": vBig(8)}},
				c25Store:            code(store...), c25Nest: code(c25Calls(c25Store)...), c25Nest2: code(c25Calls(c25Nest)...),
				c25Rev: code(0x60, 0, 0x60, 0, 0xfd), c25Loop: code(0x5b, 0x60, 0, 0x56), c25Die: code(0x33, 0xff),
				c25Paid:   code(0x34, 0x60, 4, 0x10, 0x60, 12, 0x57, 0x60, 0, 0x60, 0, 0xfd, 0x5b, 0x00),
				c25Invert: code(0x5a, 0x62, 0, 0xea, 0x60, 0x11, 0x60, 14, 0x57, 0x60, 0, 0x60, 0, 0xfd, 0x5b, 0x00),
				c25Pays:   code(0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 1, 0x61, 0xcc, 0xcc, 0x61, 0x10, 0, 0xf1, 0x60, 27, 0x57, 0x60, 0, 0x60, 0, 0xfd, 0x00, 0x00, 0x5b, 0x00),
				c25Full:   full,
			}
			g := q.GetShardConfigByFullShardID(id).Genesis
			g.Alloc = map[account.Address]config.Allocation{}
			for r, x := range a {
				g.Alloc[account.Address{Recipient: r, FullShardKey: id}] = x
			}
		}
	}}
}

func TestVerifC25Estimate(t *testing.T) {
	h := kit.New("C25", "Estimate")
	defer h.Done()
	menu := c25Menu()
	caps := []uint64{0, 20999, 21000, 21001, 30000, 53000, 60000, 100000, 400000, 400001, 1 << 31, 1<<32 - 1}
	h.Bound("calls", len(menu))
	h.Bound("gas allowed", len(caps))
	h.Explore("all", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		call := menu[c.Choose(len(menu), "call")]
		who := []int{1, c25Edge, 6}[c.Choose(3, "caller")]
		price := int64(c.Choose(2, "price"))
		gasCap := caps[c.Choose(len(caps), "cap")]
		cross := c.Bool("cross-shard")
		tok := call.tok
		if tok == 0 {
			tok = vQKC
		}
		w := vNew(c25Opt())
		defer w.close()
		r1 := vRoot(w.root0, 1, vAddr(7, 0), 0, 1)
		roots := []*types.RootBlock{w.root0, r1}
		if _, err := w.s.AddRootBlock(r1); err != nil {
			panic(err)
		}
		base := w.s.CurrentBlock()
		key := func() uint32 { return 0 }
		from := &account.Address{Recipient: vRecipient(who), FullShardKey: key()}
		fromKey := uint32(0)
		if cross {
			fromKey = 1
		}
		ask := func(gas uint64) *types.Transaction {
			var e *types.EvmTransaction
			if call.create {
				e = types.NewEvmContractCreation(0, vBig(call.value), gas, vBig(price), fromKey, key(), vNetworkID, 0, call.data, vQKC, tok)
			} else {
				e = types.NewEvmTransaction(0, call.to, vBig(call.value), gas, vBig(price), fromKey, key(), vNetworkID, 0, call.data, vQKC, tok)
			}
			return &types.Transaction{TxType: types.EvmTx, EvmTx: e}
		}
		state := func() string {
			st, _ := w.s.State()
			s := fmt.Sprintf("%x", st.IntermediateRoot(true))
			return s + fmt.Sprint(w.s.CurrentBlock().Hash().Hex(), st.GetNonce(vRecipient(who)), st.GetGasUsed())
		}
		name := fmt.Sprintf("%s by %d at price %d within %d cross %v", call.name, who, price, gasCap, cross)
		before := state()
		est, err := w.s.EstimateGas(ask(gasCap), from)
		c.Logf("%s: %d %v", name, est, err)
		c.Check(state() == before, "estimate-changed-state", "%s changed the state", name)
		sign := func(gas uint64) *types.Transaction {
			return vTx{from: who, to: call.to, create: call.create, data: call.data, value: call.value, xferTok: tok, gas: gas, gasPrice: price, fromKey: fromKey, toKey: key()}.sign()
		}
		// what really happens with so much gas
		try := byte(0)
		works := func(gas uint64) (ok bool, why string) {
			try++
			if !cross {
				_, rs, err := w.mine(w.block(base, r1, vAddr(7, 0), try, sign(gas)))
				if err != nil {
					return false, err.Error()
				}
				return rs[0].Status == types.ReceiptStatusSuccessful, fmt.Sprint("status ", rs[0].Status, " used ", rs[0].GasUsed)
			}
			o := c25Opt()
			o.id = 3
			src := vNew(o)
			defer src.close()
			if _, err := src.s.AddRootBlock(vCopyRoot(r1)); err != nil {
				panic(err)
			}
			b, rs, err := src.mine(src.block(src.s.CurrentBlock(), r1, vAddr(7, 1), try, sign(gas)))
			if err != nil {
				return false, "source: " + err.Error()
			}
			if rs[0].Status != types.ReceiptStatusSuccessful {
				return false, "source: failed"
			}
			src.close()
			src = vNew(o)
			if _, err := src.s.AddRootBlock(vCopyRoot(r1)); err != nil {
				panic(err)
			}
			_, xs, err := src.s.InsertChainForDeposits([]types.IBlock{vCopyMinor(b)}, false)
			if err != nil || len(xs) != 1 || len(xs[0]) != 1 {
				panic(fmt.Sprint("deposits: ", err, len(xs)))
			}
			d := *xs[0][0]
			hd := vHeader(3, 1, r1.Hash(), int(try))
			w.s.AddCrossShardTxListByMinorBlockHash(hd.Hash(), types.CrossShardTransactionDepositList{TXList: []*types.CrossShardTransactionDeposit{&d}})
			r2 := vRoot(r1, 1, vAddr(7, 0), 0, 2+try, hd)
			roots = append(roots, r2)
			if _, err := w.s.AddRootBlock(r2); err != nil {
				panic(err)
			}
			_, rr, err := w.mine(w.block(base, r2, vAddr(7, 0), try))
			if err != nil {
				panic(err)
			}
			for _, r := range rr {
				if r.TxHash == d.TxHash {
					return r.Status == types.ReceiptStatusSuccessful, fmt.Sprint("status ", r.Status, " used ", r.GasUsed)
				}
			}
			panic(fmt.Sprint("no receipt among ", len(rr)))
		}
		extra := uint64(0)
		if cross {
			extra = 9000
		}
		if err != nil {
			c.Outcome("no estimate")
			// then it cannot run within what was allowed either
			most := gasCap
			if most <= 21000 {
				most = w.gl.Uint64()
			}
			if most > w.gl.Uint64() {
				return // more than any block holds
			}
			if cross && most+extra > w.xgl.Uint64() {
				most = w.xgl.Uint64() - extra
			}
			ok, why := works(most + extra)
			c.Check(!ok || call.unsteady, "no-estimate", "%s: no estimate (%v), yet it runs with %d (%s)", name, err, most, why)
			return
		}
		c.Outcome("estimate")
		if cross && uint64(est)+extra > w.xgl.Uint64() {
			c.Outcome("estimate beyond what may cross")
			return
		}
		ok, why := works(uint64(est) + extra)
		if cross && strings.HasPrefix(why, "source: ") && (strings.Contains(why, "Insufficient") || strings.Contains(why, "zero balance")) {
			c.Outcome("cannot pay in the shard it comes from")
			return
		}
		c.Check(ok, "too-little", "%s: estimated %d, with which it fails: %s", name, est, why)
		if !call.unsteady && est > 21000 {
			ok, why = works(uint64(est) + extra - 1)
			c.Check(!ok, "too-much", "%s: estimated %d, yet %d is enough: %s", name, est, est-1, why)
		}
		if !cross {
			// the call, from where it was asked
			if n := w.s.CurrentBlock().NumberU64(); n != 0 {
				zero := uint64(0)
				_, err := w.s.ExecuteTx(ask(uint64(est)), from, &zero)
				c.Check(err == nil, "call", "%s: the call fails with the gas estimated, %d: %v", name, est, err)
				if !call.unsteady && est > 21000 {
					_, err := w.s.ExecuteTx(ask(uint64(est-1)), from, &zero)
					c.Check(err != nil, "call-less", "%s: the call runs with %d", name, est-1)
				}
			}
		}
	})
}

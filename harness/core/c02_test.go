package core

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkccommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/params"
)

// c02: an independent account of who holds what, kept beside the real shard.

var c02Tok = qkccommon.TokenIDEncode("TOK")

func c02At(b byte) ethcommon.Address {
	return ethcommon.HexToAddress(fmt.Sprintf("0x00000000000000000000000000000000000c02%02x", b))
}

var (
	c02Sink     = c02At(1)
	c02Revert   = c02At(2)
	c02Loop     = c02At(3)
	c02Invalid  = c02At(4)
	c02Giver    = c02At(5)  // passes 1 on to 4
	c02GiveRev  = c02At(6)  // passes 1 on to 4, then reverts
	c02TryRev   = c02At(7)  // calls the reverting contract with 2, ignores its failure
	c02TooMuch  = c02At(8)  // tries to pass on more than it has
	c02Dies     = c02At(9)  // destroys itself in favour of 4
	c02DiesSelf = c02At(10) // destroys itself in favour of itself
	c02DieTwice = c02At(11) // pays 1 to the dying contract twice
	c02Creator  = c02At(12) // creates a contract and endows it with 3
	c02CreaFail = c02At(13) // the same, but the creation reverts
	c02CallCode = c02At(14) // callcode of sink with value 2: moves nothing
	c02Delegate = c02At(15) // delegates to the giver: gives 1 of its own
	c02Deep     = c02At(16) // calls the giver with 1, which gives, then calls the loop with little gas
	c02Toggle   = c02At(17) // flips a slot: earns a refund every second time
	c02DieLate  = c02At(18) // without value: destroys itself in favour of 4; with value: keeps it
	c02PayDead  = c02At(19) // has c02DieLate die, then pays it 1: burnt
	c02StatRich = c02At(20) // static call of the giver: fails, moves nothing
	c02Zero     = ethcommon.Address{}
)

var c02Manager = vm.SystemContracts[vm.GENERAL_NATIVE_TOKEN].Address()

const c02ForeignRate = 60 // percent of the unused fee returned when it is paid in the other token
const c02Exchange = 2     // what one unit of the other token is worth

func c02Call(op string, to ethcommon.Address, value int, gas string) string {
	v := ""
	if op == "f1" || op == "f2" {
		v = fmt.Sprintf("60%02x", value)
	}
	return "6000600060006000" + v + fmt.Sprintf("73%x", to) + gas + op
}

func c02Codes() map[ethcommon.Address]string {
	x4 := vRecipient(4)
	return map[ethcommon.Address]string{
		c02Sink:     "00",
		c02Revert:   "60006000fd",
		c02Loop:     "5b600056",
		c02Invalid:  "fe",
		c02Giver:    c02Call("f1", x4, 1, "5a") + "00",
		c02GiveRev:  c02Call("f1", x4, 1, "5a") + "60006000fd",
		c02TryRev:   c02Call("f1", c02Revert, 2, "5a") + "00",
		c02TooMuch:  c02Call("f1", x4, 255, "5a") + "00",
		c02Dies:     fmt.Sprintf("73%xff", x4),
		c02DiesSelf: "30ff",
		c02DieTwice: c02Call("f1", c02Dies, 1, "5a") + c02Call("f1", c02Dies, 1, "5a") + "00",
		c02Creator:  "600060006003f000",
		c02CreaFail: "63600080fd600052" + "6004601c6003f000", // init code: 6000 80 fd
		c02CallCode: c02Call("f2", c02Sink, 2, "5a") + "00",
		c02Delegate: c02Call("f4", c02Giver, 0, "5a") + "00",
		c02Deep:     c02Call("f1", c02Giver, 1, "5a") + c02Call("f1", c02Loop, 1, "6110005b") + "00",
		c02Toggle:   "6000541560005500",
		c02DieLate:  "34601d57" + fmt.Sprintf("73%xff", x4) + "0000005b00",
		c02PayDead:  c02Call("f1", c02DieLate, 0, "5a") + c02Call("f1", c02DieLate, 1, "5a") + "00",
		c02StatRich: c02Call("fa", c02Giver, 0, "612710") + "00",
	}
}

type c02Ledger map[ethcommon.Address]map[uint64]int64

func (l c02Ledger) add(a ethcommon.Address, tok uint64, v int64) {
	if l[a] == nil {
		l[a] = map[uint64]int64{}
	}
	l[a][tok] += v
}
func (l c02Ledger) move(from, to ethcommon.Address, tok uint64, v int64) {
	l.add(from, tok, -v)
	l.add(to, tok, v)
}
func (l c02Ledger) copy() c02Ledger {
	n := c02Ledger{}
	for a, m := range l {
		for t, v := range m {
			n.add(a, t, v)
		}
	}
	return n
}
func (l c02Ledger) total(tok uint64) (s int64) {
	for _, m := range l {
		s += m[tok]
	}
	return
}
func (l c02Ledger) String() string {
	var r []string
	for a, m := range l {
		for t, v := range m {
			if v != 0 {
				r = append(r, fmt.Sprintf("%x/%d=%d", a[16:], t, v))
			}
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func c02Diff(want, got c02Ledger) string {
	all := map[ethcommon.Address]map[uint64]bool{}
	for _, l := range []c02Ledger{want, got} {
		for a, m := range l {
			for t := range m {
				if all[a] == nil {
					all[a] = map[uint64]bool{}
				}
				all[a][t] = true
			}
		}
	}
	var r []string
	for a, m := range all {
		for t := range m {
			if want[a][t] != got[a][t] {
				r = append(r, fmt.Sprintf("%x token %d: holds %d, should hold %d", a, t, got[a][t], want[a][t]))
			}
		}
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

// c02State: the model.
type c02State struct {
	l      c02Ledger
	slot   bool // c02Toggle's slot
	nonces map[ethcommon.Address]uint64
	dead   map[ethcommon.Address]bool
	made   map[ethcommon.Address]bool // created by an arrival; its code accepts everything
}

func (s *c02State) copy() *c02State {
	n := &c02State{l: s.l.copy(), slot: s.slot, nonces: map[ethcommon.Address]uint64{}, dead: map[ethcommon.Address]bool{}, made: map[ethcommon.Address]bool{}}
	for k, v := range s.nonces {
		n.nonces[k] = v
	}
	for k, v := range s.dead {
		n.dead[k] = v
	}
	for k, v := range s.made {
		n.made[k] = v
	}
	return n
}

// call applies what the outermost call of a transaction does; extra is the gas it takes beyond the intrinsic gas, -1 if
// this model does not know, -2 for all of it.
func (s *c02State) call(from, to ethcommon.Address, tok uint64, v int64, key uint32) (ok bool, extra int64) {
	keep := s.copy()
	dying := map[ethcommon.Address]bool{}
	ok, extra = s.inner(from, to, tok, v, key, dying)
	if !ok {
		*s = *keep
		return
	}
	for a := range dying {
		s.dead[a] = true
		s.l[a] = map[uint64]int64{}
	}
	return
}

func (s *c02State) inner(from, to ethcommon.Address, tok uint64, v int64, key uint32, dying map[ethcommon.Address]bool) (ok bool, extra int64) {
	x4 := ethcommon.Address(vRecipient(4))
	if s.l[from][tok] < v {
		return false, 0
	}
	code := c02Codes()[to] != "" && !s.dead[to]
	if s.made[to] || code && (to == c02Sink || tok == vQKC || v == 0) {
		if tok != vQKC && v != 0 {
			return false, 0 // the contract does not ask which token it was paid in
		}
	} else if code && tok != vQKC {
		return false, map[ethcommon.Address]int64{c02Revert: 6, c02Loop: -2, c02Invalid: -2}[to] - map[bool]int64{true: 0, false: 1}[to == c02Revert || to == c02Loop || to == c02Invalid]
	}
	s.l.move(from, to, tok, v)
	if !code {
		return true, 0
	}
	give := func(target ethcommon.Address, v int64) bool {
		ok, _ := s.inner(to, target, tok, v, key, dying)
		return ok
	}
	die := func() {
		s.l.move(to, x4, vQKC, s.l[to][vQKC])
		dying[to] = true
	}
	switch to {
	case c02Sink:
		return true, 0
	case c02Revert:
		return false, 6
	case c02Loop, c02Invalid:
		return false, -2
	case c02Giver:
		give(x4, 1)
	case c02GiveRev:
		return false, -1
	case c02TryRev, c02TooMuch, c02CallCode, c02CreaFail, c02StatRich:
	case c02Dies:
		die()
	case c02DiesSelf:
		s.l[to][vQKC] = 0
		dying[to] = true
	case c02DieTwice:
		give(c02Dies, 1)
		give(c02Dies, 1)
	case c02Creator:
		if s.l[to][vQKC] >= 3 && tok == vQKC {
			k := key
			n := s.nonces[to]
			s.l.move(to, vm.CreateAddress(to, &k, n), tok, 3)
			s.nonces[to] = n + 1
		}
	case c02Delegate:
		give(x4, 1)
	case c02Deep:
		give(c02Giver, 1)
	case c02Toggle:
		s.slot = !s.slot
		if s.slot {
			return true, 3 + 200 + 3 + 3 + 20000
		}
		g := int64(21000 + 3 + 200 + 3 + 3 + 5000)
		r := g / 2
		if r > 15000 {
			r = 15000
		}
		return true, g - r - 21000
	case c02DieLate:
		if v == 0 {
			die()
		}
	case c02PayDead:
		give(c02DieLate, 0)
		give(c02DieLate, 1)
	}
	return true, -1
}

type c02Item struct {
	name string
	tx   *vTx
	dep  *c02Dep
	all  bool // the value is all the sender can afford
	over int64
	bad  bool // never valid
	root int64
}
type c02Dep struct {
	to        ethcommon.Address
	value     int64
	tok       uint64
	price     int64
	gas       int64
	data      string
	create    bool
	rate      uint8
	initOK    bool
	initExtra int64
}

func c02Items() []c02Item {
	var l []c02Item
	tx := func(name string, v vTx, f ...func(*c02Item)) {
		if v.gasPrice == 0 {
			v.gasPrice = 3
		}
		i := c02Item{name: name, tx: &v}
		for _, g := range f {
			g(&i)
		}
		l = append(l, i)
	}
	x4 := vRecipient(4)
	all := func(i *c02Item) { i.all = true }
	over := func(i *c02Item) { i.all = true; i.over = 1 }
	bad := func(i *c02Item) { i.bad = true }
	tx("send", vTx{to: x4, value: 7})
	tx("send tokens", vTx{to: x4, value: 7, xferTok: c02Tok})
	tx("send with data and spare gas", vTx{to: x4, value: 7, data: []byte{0, 1, 2, 0, 0}, gas: 30001})
	tx("send to self", vTx{to: vRecipient(0), value: 9})
	tx("send to the miner", vTx{to: vRecipient(5), value: 9})
	tx("send to nobody", vTx{to: c02Zero, value: 9})
	tx("send everything", vTx{to: x4}, all)
	tx("send one more than everything", vTx{to: x4}, over)
	tx("poor sends too many tokens", vTx{from: 1, to: x4, value: 11, xferTok: c02Tok}, bad)
	tx("too little gas", vTx{to: x4, gas: 20999}, bad)
	tx("too little gas for another shard", vTx{to: x4, toKey: 1, gas: 29999}, bad)
	tx("gas the sender cannot pay", vTx{from: 1, to: x4, gas: 40000}, bad)
	for _, c := range []struct {
		n string
		a ethcommon.Address
	}{{"sink", c02Sink}, {"revert", c02Revert}, {"loop", c02Loop}, {"giver", c02Giver}, {"give and revert", c02GiveRev},
		{"inner revert", c02TryRev}, {"too much", c02TooMuch}, {"dying", c02Dies}, {"dying for itself", c02DiesSelf}, {"dying twice", c02DieTwice},
		{"creator", c02Creator}, {"failing creator", c02CreaFail}, {"callcode", c02CallCode}, {"delegate", c02Delegate}, {"deep", c02Deep},
		{"toggle", c02Toggle}, {"dying late", c02DieLate}, {"pay the dead", c02PayDead}, {"static", c02StatRich}} {
		tx("call "+c.n, vTx{to: c.a, value: 5, gas: 200000})
	}
	tx("call dying late for nothing", vTx{to: c02DieLate, gas: 200000})
	tx("pay sink in tokens", vTx{to: c02Sink, value: 5, xferTok: c02Tok, gas: 100000})
	tx("call sink, tokens, no value", vTx{to: c02Sink, xferTok: c02Tok, gas: 100000})
	tx("pay giver in tokens", vTx{to: c02Giver, value: 5, xferTok: c02Tok, gas: 100000})
	tx("create", vTx{create: true, value: 6, gas: 100000, data: ethcommon.FromHex("60016000f3")})
	tx("create, reverts", vTx{create: true, value: 6, gas: 100000, data: ethcommon.FromHex("60006000fd")})
	tx("create, fails", vTx{create: true, value: 6, gas: 100000, data: ethcommon.FromHex("fe")})
	tx("create, code too dear", vTx{create: true, value: 6, gas: 60000, data: ethcommon.FromHex("6104006000f3")})
	tx("create with tokens", vTx{create: true, value: 6, gas: 100000, xferTok: c02Tok, data: ethcommon.FromHex("60016000f3")})
	tx("to other shard", vTx{to: x4, toKey: 1, value: 11, gas: 30000})
	tx("to other shard, spare gas", vTx{to: c02Sink, toKey: 1, value: 11, gas: 50001, data: []byte{1, 2}})
	tx("tokens to other shard", vTx{to: x4, toKey: 1, value: 11, xferTok: c02Tok, gas: 31000})
	tx("create on other shard", vTx{create: true, toKey: 1, value: 11, gas: 120000, data: ethcommon.FromHex("60016000f3")})
	tx("to other shard, everything", vTx{to: x4, toKey: 1, gas: 31000}, all)
	tx("fee in tokens", vTx{to: x4, value: 7, gas: 21021, gasTok: c02Tok})
	tx("fee in tokens, loops", vTx{to: c02Loop, value: 7, gas: 25000, gasTok: c02Tok})
	tx("fee in tokens, to other shard", vTx{to: x4, toKey: 1, value: 7, gas: 31001, gasTok: c02Tok})
	tx("fee and value in tokens", vTx{to: x4, value: 7, gas: 21021, gasTok: c02Tok, xferTok: c02Tok})
	tx("blocked sends little", vTx{from: 2, to: x4, value: 7, gas: 30000})
	tx("blocked sends much", vTx{from: 2, to: x4, value: 9000000, gas: 30000})
	tx("blocked sends much to other shard", vTx{from: 2, to: x4, toKey: 1, value: 9000000, gas: 40000})

	dep := func(name string, d c02Dep) {
		if d.tok == 0 {
			d.tok = vQKC
		}
		if d.rate == 0 {
			d.rate = 100
		}
		l = append(l, c02Item{name: "arrival: " + name, dep: &d})
	}
	dep("plain", c02Dep{to: x4, value: 13, price: 3})
	dep("free", c02Dep{to: x4, value: 13})
	dep("tokens", c02Dep{to: x4, value: 13, price: 1, tok: c02Tok})
	dep("spare gas", c02Dep{to: x4, value: 13, price: 3, gas: 1001})
	dep("spare gas, partly returned", c02Dep{to: x4, value: 13, price: 3, gas: 1001, rate: c02ForeignRate})
	dep("sink", c02Dep{to: c02Sink, value: 13, price: 3, gas: 1001})
	dep("sink without gas", c02Dep{to: c02Sink, value: 13, price: 3})
	dep("sink, tokens", c02Dep{to: c02Sink, value: 13, price: 3, gas: 1001, tok: c02Tok})
	dep("revert", c02Dep{to: c02Revert, value: 13, price: 3, gas: 1001, rate: c02ForeignRate})
	dep("loop", c02Dep{to: c02Loop, value: 13, price: 3, gas: 1001})
	dep("giver", c02Dep{to: c02Giver, value: 13, price: 3, gas: 90000})
	dep("giver and revert", c02Dep{to: c02GiveRev, value: 13, price: 3, gas: 90000})
	dep("toggle", c02Dep{to: c02Toggle, value: 13, price: 3, gas: 90000})
	dep("dying", c02Dep{to: c02Dies, value: 13, price: 3, gas: 90000})
	dep("creation", c02Dep{to: c02At(200), value: 13, price: 3, gas: 90000, create: true, data: "60016000f3", initOK: true, initExtra: -1})
	dep("creation reverts", c02Dep{to: c02At(200), value: 13, price: 3, gas: 90000, create: true, data: "60006000fd", initExtra: 6})
	dep("creation fails", c02Dep{to: c02At(200), value: 13, price: 3, gas: 900, create: true, data: "fe", initExtra: -2})
	dep("send to the new contract's address", c02Dep{to: c02At(200), value: 2, tok: c02Tok})
	dep("creation over a contract", c02Dep{to: c02Sink, value: 13, price: 3, gas: 900, create: true, data: "60016000f3", initExtra: -2})
	l = append(l, c02Item{name: "root reward", root: 1001})
	return l
}

func c02Opt(evmTime uint64) vOpt {
	al := map[account.Recipient]config.Allocation{
		vRecipient(0): {Balances: map[string]*big.Int{"QKC": big.NewInt(5000000), "TOK": big.NewInt(1000000)}},
		vRecipient(1): {Balances: map[string]*big.Int{"QKC": big.NewInt(100000), "TOK": big.NewInt(10)}},
		vRecipient(2): vQkcBal(10000000),
		c02Manager:    vQkcBal(100000000),
	}
	for a, code := range c02Codes() {
		b := map[string]*big.Int{}
		if a == c02DieLate || a == c02Dies {
			b["QKC"] = big.NewInt(40)
		}
		al[a] = config.Allocation{Balances: b, Code: ethcommon.FromHex(code)}
	}
	return vOpt{key: fmt.Sprint("c02", evmTime), gasLimit: 3000000, alloc: al, tune: func(q *config.QuarkChainConfig) {
		q.EnableEvmTimeStamp = evmTime
		q.RewardTaxRate = big.NewRat(1, 3)
		q.LocalFeeRate = big.NewRat(2, 3)
		q.RewardCalculateRate = big.NewRat(1, 2)
		for _, id := range vIDs(q) {
			sc := q.GetShardConfigByFullShardID(id)
			sc.CoinbaseAmount = big.NewInt(1000)
			p := sc.PoswConfig
			p.Enabled = true
			p.WindowSize = 100
			p.DiffDivider = 10
			p.TotalStakePerBlock = big.NewInt(2000000)
		}
	}}
}

const c02Reward = 666 // floor(1000*2/3)

func c02Rate(fee int64) int64 { return fee * 2 / 3 }

func c02Dump(s *vShard, b *types.MinorBlock) c02Ledger {
	st, err := s.s.StateAt(b.Root())
	if err != nil {
		panic(err)
	}
	l := c02Ledger{}
	for a, d := range st.RawDump().Accounts {
		for t, v := range d.Balance {
			if !v.IsInt64() {
				panic(fmt.Sprint("huge balance ", a, t, v))
			}
			l.add(ethcommon.HexToAddress(a), t, v.Int64())
		}
	}
	return l
}

// c02World: a node that executes and mines, another that verifies what the first one mined.
type c02World struct {
	c       *kit.Case
	a, b    *vShard
	root    *types.RootBlock
	roots   int
	miner   int
	st      *c02State
	txs     []c02Item
	arrived []c02Item // not yet consumed
	deps    []*types.CrossShardTransactionDeposit
	evm     bool
	mined   map[int]int64 // blocks mined per account: each holds back a stake
}

func c02New(c *kit.Case, miner int, evmTime uint64) *c02World {
	w := &c02World{c: c, a: vNew(c02Opt(evmTime)), b: vNew(c02Opt(evmTime)), miner: miner, evm: evmTime < 1<<40}
	w.root = w.a.root0
	w.addRoot(nil, 0)
	// account 2 mines the first block: from now on its stake is held back
	b := w.a.block(w.a.s.CurrentBlock(), w.root, vAddr(2, 0), 0)
	b, _, err := w.a.mine(b)
	if err != nil {
		panic(err)
	}
	if err := w.b.add(b); err != nil {
		panic(err)
	}
	w.st = &c02State{l: c02Dump(w.a, b), nonces: map[ethcommon.Address]uint64{}, dead: map[ethcommon.Address]bool{}, made: map[ethcommon.Address]bool{}}
	x, err := w.a.s.StateAt(b.Root())
	if err != nil {
		panic(err)
	}
	w.st.nonces[c02Creator] = x.GetNonce(c02Creator)
	w.mined = map[int]int64{2: 1}
	return w
}

func (w *c02World) close() { w.a.close(); w.b.close() }

func (w *c02World) addRoot(deps []*types.CrossShardTransactionDeposit, amount int64) {
	w.roots++
	var hs []*types.MinorBlockHeader
	if len(deps) > 0 {
		h := vHeader(3, uint64(w.roots), w.root.Hash(), w.roots)
		for _, s := range []*vShard{w.a, w.b} {
			s.s.AddCrossShardTxListByMinorBlockHash(h.Hash(), types.CrossShardTransactionDepositList{TXList: deps})
		}
		hs = append(hs, h)
	}
	r := vRoot(w.root, 5, vAddr(6, 0), amount, byte(w.roots), hs...)
	for _, s := range []*vShard{w.a, w.b} {
		if _, err := s.s.AddRootBlock(vCopyRoot(r)); err != nil {
			panic(err)
		}
	}
	w.root = r
}

func (w *c02World) take(it c02Item) {
	switch {
	case it.tx != nil:
		w.txs = append(w.txs, it)
	case it.dep != nil:
		d := it.dep
		x := vDeposit(w.roots*100+len(w.deps), vAddr(6, 1), account.Address{Recipient: d.to, FullShardKey: 0}, d.value, d.tok, d.price, d.gas, ethcommon.FromHex(d.data), d.create)
		x.RefundRate = d.rate
		w.addRoot([]*types.CrossShardTransactionDeposit{x}, 0)
		w.arrived = append(w.arrived, it)
		w.deps = append(w.deps, x)
	default:
		w.addRoot(nil, it.root)
		w.arrived = append(w.arrived, it)
		w.deps = append(w.deps, nil)
	}
}

func c02Intrinsic(v vTx) int64 {
	g := int64(21000)
	if v.create {
		g = 53000
	}
	for _, b := range v.data {
		if b == 0 {
			g += 4
		} else {
			g += 68
		}
	}
	if v.toKey != v.fromKey {
		g += 9000
	}
	return g
}

// seal executes everything collected as one block and compares.
func (w *c02World) seal() {
	c := w.c
	defer func() { w.txs = nil }()
	miner := ethcommon.Address(vRecipient(w.miner))
	head := w.a.s.CurrentBlock()
	st := w.st.copy()
	fees := int64(0) // credited to the miner
	type exp struct {
		hash    ethcommon.Hash
		name    string
		ok      bool
		lo, hi  int64
		price   int64
		receipt func(g int64)
	}
	// the transactions' values must be known before execution: "everything" is computed from the model's state, so
	// the block is built and executed item by item on the model with the gas taken from the real receipts. An item
	// whose value depends on an earlier item of the same block uses the balance at the start of the block.
	block := w.a.block(head, w.root, vAddr(w.miner, 0), byte(len(w.txs)))
	valid := true
	var txs []*types.Transaction
	var vs []vTx
	mayFail := false
	var names []string
	nonce := map[int]uint64{}
	start := w.st.l.copy()
	for _, it := range w.txs {
		v := *it.tx
		if v.gas == 0 {
			v.gas = 21000
		}
		if v.xferTok == 0 {
			v.xferTok = vQKC
		}
		if v.gasTok == 0 {
			v.gasTok = vQKC
		}
		from := ethcommon.Address(vRecipient(v.from))
		if it.all {
			v.value = start[from][vQKC] - int64(v.gas)*v.gasPrice + it.over
			if v.value < 0 {
				c.Stop()
			}
		}
		if it.bad || it.over > 0 || it.all && nonce[v.from] > 0 || v.create && v.toKey != v.fromKey && !w.evm {
			mayFail = true
		}
		if x := start[from]; x[v.gasTok] < int64(v.gas)*v.gasPrice || x[v.xferTok] < v.value || v.gasTok == v.xferTok && x[v.gasTok] < v.value+int64(v.gas)*v.gasPrice {
			mayFail = true
		}
		for _, o := range w.txs[:len(vs)] {
			mayFail = mayFail || o.all && o.tx.from == v.from
		}
		v.nonce = st.nonces[from] + nonce[v.from]
		nonce[v.from]++
		vs = append(vs, v)
		t := v.sign()
		txs = append(txs, t)
		block.AddTx(t)
		names = append(names, it.name)
	}
	for _, it := range w.arrived {
		names = append(names, it.name)
	}
	c.Logf("block of miner %d: %s", w.miner, strings.Join(names, " + "))
	mined, receipts, err := w.a.mine(block)
	c.Step()
	rc := map[ethcommon.Hash]*types.Receipt{}
	for _, r := range receipts {
		rc[r.TxHash] = r
	}
	// model: arrivals first
	price := func(d *c02Dep) int64 { return d.price }
	var bad string
	for i, it := range w.arrived {
		if it.dep == nil {
			st.l.add(ethcommon.Address(vRecipient(6)), vQKC, it.root)
			continue
		}
		if err != nil {
			break
		}
		d := it.dep
		from := ethcommon.Address(vRecipient(6))
		if !w.evm {
			st.l.add(d.to, d.tok, d.value)
			f := c02Rate(9000 * d.price)
			st.l.add(miner, vQKC, f)
			fees += f
			continue
		}
		r := rc[w.deps[i].TxHash]
		c.Check(r != nil, "receipt", "no receipt for %q", it.name)
		st.l.add(from, d.tok, d.value)
		var ok bool
		var extra int64
		if d.create {
			ok, extra = d.initOK, d.initExtra
			if c02Codes()[d.to] != "" && !st.dead[d.to] || st.nonces[d.to] != 0 {
				ok, extra = false, -2
			}
			if ok {
				st.l.move(from, d.to, d.tok, d.value)
				st.nonces[d.to] = 1
				st.made[d.to] = true
			}
		} else {
			ok, extra = st.call(from, d.to, d.tok, d.value, 0)
		}
		c.Check((r.Status == types.ReceiptStatusSuccessful) == ok, "status", "%q: status %d", it.name, r.Status)
		if s := c02Gas(r.GasUsed, 9000, 9000+d.gas, extra); s != "" {
			bad = fmt.Sprintf("%q: %s", it.name, s)
		}
		g := int64(r.GasUsed)
		left := (9000 + d.gas - g) * price(d)
		st.l.add(from, vQKC, left*int64(d.rate)/100)
		st.l.add(c02Zero, vQKC, left-left*int64(d.rate)/100)
		f := c02Rate(g * price(d))
		st.l.add(miner, vQKC, f)
		fees += f
	}
	nx := 0
	var wantX []string
	for i, v := range vs {
		it := w.txs[i]
		from := ethcommon.Address(vRecipient(v.from))
		cost := int64(v.gas) * v.gasPrice
		have := st.l[from]
		need := map[uint64]int64{v.gasTok: cost}
		need[v.xferTok] += v.value
		for t, n := range need {
			if have[t] < n || (t != vQKC && have[t] == 0) {
				valid = false
			}
		}
		if it.bad || int64(v.gas) < c02Intrinsic(v) || (it.over > 0 && valid && v.value+cost > have[vQKC]) {
			valid = false
		}
		if v.create && v.toKey != v.fromKey && !w.evm {
			valid = false
		}
		if err != nil || !valid {
			break
		}
		r := rc[txs[i].Hash()]
		c.Check(r != nil, "receipt", "no receipt for %q", it.name)
		p := v.gasPrice
		rate := int64(100)
		st.l.add(from, v.gasTok, -cost)
		if v.gasTok != vQKC {
			p = v.gasPrice * c02Exchange
			rate = c02ForeignRate
			st.l.add(c02Manager, v.gasTok, cost)
			st.l.add(c02Manager, vQKC, -int64(v.gas)*p)
		}
		st.nonces[from]++
		intr := c02Intrinsic(v)
		held := w.mined[v.from]
		if v.from == w.miner {
			held++
		}
		blocked := held > 0 && v.value+held*2000000 > st.l[from][vQKC]
		to := ethcommon.Address(v.to)
		g := int64(r.GasUsed)
		var ok bool
		var extra int64
		spent := int64(0) // gas the sender pays for
		switch {
		case v.toKey != v.fromKey && blocked:
			ok = false
			spent = int64(v.gas)
			if g != spent {
				bad = fmt.Sprintf("%q: the receipt says %d gas, %d were burnt", it.name, g, spent)
			}
			f := c02Rate(spent * p)
			st.l.add(miner, vQKC, f)
			fees += f
		case v.toKey != v.fromKey:
			ok = true
			nx++
			st.l.add(from, v.xferTok, -v.value)
			spent = int64(v.gas)
			remote := int64(v.gas) - intr
			if !w.evm {
				left := remote * p
				st.l.add(from, vQKC, left*rate/100)
				st.l.add(c02Zero, vQKC, left-left*rate/100)
				remote = 0
			}
			if want := map[bool]int64{true: intr - 9000, false: intr}[w.evm]; g != want {
				bad = fmt.Sprintf("%q: the receipt says %d gas, %d were used here", it.name, g, want)
			}
			f := c02Rate((intr - 9000) * p)
			st.l.add(miner, vQKC, f)
			fees += f
			tok := v.xferTok
			k := uint32(0)
			if v.create {
				to = vm.CreateAddress(from, &k, st.nonces[from])
			}
			wantX = append(wantX, fmt.Sprintf("%x %x/%d->%x/%d value %d of %d gas %d at %d rate %d data %x create %v", txs[i].Hash(), from, 0, to, v.toKey, v.value, tok, remote, p, rate, v.data, v.create))
		default:
			switch {
			case blocked:
				ok, extra = false, -2
			case v.create:
				a := vm.CreateAddress(from, &v.toKey, st.nonces[from]-1)
				switch it.name {
				case "create":
					ok, extra = true, -1
					st.l.move(from, a, v.xferTok, v.value)
				case "create, reverts":
					extra = 6
				case "create, fails", "create, code too dear":
					extra = -2
				default:
					extra = 0
				}
			default:
				ok, extra = st.call(from, to, v.xferTok, v.value, v.toKey)
			}
			if s := c02Gas(r.GasUsed, intr, int64(v.gas), extra); s != "" {
				bad = fmt.Sprintf("%q: %s", it.name, s)
			}
			left := (int64(v.gas) - g) * p
			st.l.add(from, vQKC, left*rate/100)
			st.l.add(c02Zero, vQKC, left-left*rate/100)
			f := c02Rate(g * p)
			st.l.add(miner, vQKC, f)
			fees += f
		}
		c.Check((r.Status == types.ReceiptStatusSuccessful) == ok, "status", "%q: status %d", it.name, r.Status)
	}
	if err != nil {
		c.Check(mayFail, "refused", "[%s] refused: %v", strings.Join(names, " + "), err)
		valid = false
	}
	if !valid {
		c.Check(err != nil, "accepted", "a block with a transaction that cannot run was accepted: %v", names)
		c.Check(w.a.s.CurrentBlock().Hash() == head.Hash(), "head", "a refused block became the head")
		c.Outcome("refused")
		return
	}
	w.arrived, w.deps = nil, nil
	st.l.add(miner, vQKC, c02Reward)
	got := c02Dump(w.a, mined)
	c.Check(bad == "", "gas", "%s", bad)
	d := c02Diff(st.l, got)
	c.Check(d == "", "balances", "after [%s]: %s", strings.Join(names, " + "), d)
	cb := vMapStr(mined.CoinbaseAmount().GetBalanceMap())
	want := vMapStr(map[uint64]*big.Int{vQKC: big.NewInt(c02Reward + fees)})
	c.Check(cb == want, "coinbase", "the block claims %s, reward and fees are %s", cb, want)

	_, xs, err := w.b.s.InsertChainForDeposits([]types.IBlock{vCopyMinor(mined)}, false)
	c.Check(err == nil, "verifier", "another node refuses [%s]: %v", strings.Join(names, " + "), err)
	var gotX []string
	for _, l := range xs {
		for _, x := range l {
			gotX = append(gotX, fmt.Sprintf("%x %x/%d->%x/%d value %d of %d gas %d at %d rate %d data %x create %v", x.TxHash, x.From.Recipient, x.From.FullShardKey, x.To.Recipient, x.To.FullShardKey,
				x.Value.Value, x.TransferTokenID, x.GasRemained.Value, x.GasPrice.Value, x.RefundRate, x.MessageData, x.CreateContract))
			c.Check(x.GasTokenID == vQKC && !x.IsFromRootChain, "outgoing", "a transfer to another shard claims gas token %d, root %v", x.GasTokenID, x.IsFromRootChain)
		}
	}
	c.Check(strings.Join(gotX, "\n") == strings.Join(wantX, "\n"), "outgoing", "transfers to other shards after [%s]:\n%s\nshould be\n%s", strings.Join(names, " + "), strings.Join(gotX, "\n"), strings.Join(wantX, "\n"))
	c.Check(c02Diff(st.l, c02Dump(w.b, w.b.s.CurrentBlock())) == "", "verifier", "the verifier's balances differ")
	// what was stored says the same
	for i, r := range w.a.s.GetReceiptsByHash(mined.Hash()) {
		if i < len(txs) {
			c.Check(r.GasUsed == rc[txs[i].Hash()].GasUsed, "receipt", "stored receipt %d of [%s] says %d gas, not %d", i, strings.Join(names, " + "), r.GasUsed, rc[txs[i].Hash()].GasUsed)
		}
	}
	w.st = st
	w.mined[w.miner]++
	c.Outcome("accepted with %d receipts, %d outgoing", len(receipts), nx)
}

func c02Gas(got uint64, base, limit, extra int64) string {
	g := int64(got)
	switch {
	case extra >= 0 && g != base+extra:
		return fmt.Sprintf("used %d gas, not %d", g, base+extra)
	case extra == -2 && g != limit:
		return fmt.Sprintf("used %d gas, not all %d", g, limit)
	case g < base/2 || g > limit:
		return fmt.Sprintf("used %d gas, outside %d..%d", g, base, limit)
	}
	return ""
}

func (w *c02World) key() string {
	return fmt.Sprint(w.a.s.CurrentBlock().Root().Hex(), len(w.arrived), w.miner)
}

func TestVerifC02(t *testing.T) {
	PayNativeTokenAsGas = func(s vm.StateDB, c *params.ChainConfig, tok, gas uint64, p *big.Int) (uint8, *big.Int, error) {
		if tok != c02Tok {
			return 0, new(big.Int), fmt.Errorf("no rate for token %d", tok)
		}
		return c02ForeignRate, new(big.Int).Mul(p, big.NewInt(c02Exchange)), nil
	}
	h := kit.New("C02", "conservation")
	defer h.Done()
	items := c02Items()
	run := func(name string, depth int, evmTime uint64, pick func(c02Item) bool) {
		var l []c02Item
		for _, it := range items {
			if pick(it) {
				l = append(l, it)
			}
		}
		h.Bound("items, "+name, len(l))
		h.Bound("items in a row, "+name, depth)
		h.Explore(name, kit.Opt{MaxDev: -1}, func(c *kit.Case) {
			miner := []int{5, 0}[c.Choose(2, "miner")]
			w := c02New(c, miner, evmTime)
			defer w.close()
			for i := 0; i < depth; i++ {
				w.take(l[c.Choose(len(l), "item")])
				if i == depth-1 || c.Bool("end the block") {
					w.seal()
					if i < depth-1 {
						c.Visit(w.key(), depth-i-1)
					}
				}
			}
		})
	}
	run("contracts", kit.Tier(2, 3), 1, func(c02Item) bool { return true })
	run("before contracts", kit.Tier(2, 3), 1<<60, func(it c02Item) bool {
		switch {
		case it.tx != nil:
			return !it.tx.create && c02Codes()[it.tx.to] == "" && len(it.tx.data) == 0
		case it.dep != nil:
			return !it.dep.create && c02Codes()[it.dep.to] == "" && it.dep.gas == 0
		}
		return true
	})
}

package core

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	qkccommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/vm"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	ethcommon "github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"
)

var (
	c22Tok  = qkccommon.TokenIDEncode("TOK")
	c22None = qkccommon.TokenIDEncode("NONE") // nobody holds it

	c22X      = c02At(0x80)
	c22A      = c02At(0x81)
	c22B      = c02At(0x82)
	c22X4     = c02At(0x84)
	c22X5     = c02At(0x85)
	c22Fresh  = c02At(0x86)
	c22SinkQ  = c02At(0x87) // asks which token it is paid in
	c22SinkP  = c02At(0x88) // does not
	c22Rev    = c02At(0x89)
	c22Loop   = c02At(0x8a)
	c22Passes = c02At(0x8b) // asks, then passes 1 of whatever it is paid in on to X5
	c22Prober = c02At(0x8c) // writes its storage

	c22Current  = ethcommon.HexToAddress("000000000000000000000000000000514b430001")
	c22Transfer = ethcommon.HexToAddress("000000000000000000000000000000514b430002")
	c22Deploy   = ethcommon.HexToAddress("000000000000000000000000000000514b430003")
	c22Mint     = ethcommon.HexToAddress(vm.MintMNTAddr)
	c22Balance  = ethcommon.HexToAddress(vm.BalanceMNTAddr)
	c22Minter   = vm.SystemContracts[vm.NON_RESERVED_NATIVE_TOKEN].Address()
	c22Staking  = vm.SystemContracts[vm.ROOT_CHAIN_POSW].Address()
)

func c22Pre(a ethcommon.Address) bool {
	return a == c22Current || a == c22Transfer || a == c22Deploy || a == c22Mint || a == c22Balance
}

func c22Word(v *big.Int) []byte { return ethcommon.LeftPadBytes(v.Bytes(), 32) }

type c22In struct {
	name  string
	to    ethcommon.Address // transfer: recipient; mint: receiver; balance: holder
	tok   *big.Int
	value int64
	cut   int // bytes removed from the end
	index int64
	extra []byte // passed on to the recipient
}

func (in c22In) bytes(target ethcommon.Address) []byte {
	var d []byte
	switch target {
	case c22Transfer, c22Mint:
		d = append(append(append(d, ethcommon.LeftPadBytes(in.to[:], 32)...), c22Word(in.tok)...), c22Word(big.NewInt(in.value))...)
		if target == c22Transfer {
			d = append(d, in.extra...)
		}
	case c22Balance:
		d = append(append(d, ethcommon.LeftPadBytes(in.to[:], 32)...), c22Word(in.tok)...)
	case c22Deploy:
		if in.index >= 0 {
			d = c22Word(big.NewInt(in.index))
		}
	}
	return d[:len(d)-in.cut]
}

var c22MaxTok = new(big.Int).SetUint64(qkccommon.TOKENIDMAX)

func c22OKTok(t *big.Int) bool { return t.Cmp(c22MaxTok) <= 0 }

// the model

type c22M struct {
	bal    map[ethcommon.Address]map[uint64]int64
	mark   map[ethcommon.Address]bool
	made   bool // the staking contract
	exists map[ethcommon.Address]bool
	dying  map[ethcommon.Address]bool
}

func c22Copy(m *c22M) *c22M {
	n := &c22M{bal: map[ethcommon.Address]map[uint64]int64{}, mark: map[ethcommon.Address]bool{}, exists: map[ethcommon.Address]bool{}, dying: map[ethcommon.Address]bool{}, made: m.made}
	for a, x := range m.bal {
		n.bal[a] = map[uint64]int64{}
		for t, v := range x {
			n.bal[a][t] = v
		}
	}
	for a, v := range m.mark {
		n.mark[a] = v
	}
	for a, v := range m.exists {
		n.exists[a] = v
	}
	for a, v := range m.dying {
		n.dying[a] = v
	}
	return n
}

type c22Frame struct {
	self, sender ethcommon.Address
	value        int64
	static       bool
	queried      bool
}

type c22W struct {
	m    *c22M
	tok  uint64
	a, b func(w *c22W, f *c22Frame) bool // what A's and B's code does; false: fails
	aAt  ethcommon.Address
}

func (w *c22W) has(a ethcommon.Address, t uint64) int64 { return w.m.bal[a][t] }
func (w *c22W) move(from, to ethcommon.Address, t uint64, v int64) {
	for _, x := range []ethcommon.Address{from, to} {
		if w.m.bal[x] == nil {
			w.m.bal[x] = map[uint64]int64{}
		}
	}
	w.m.bal[from][t] -= v
	w.m.bal[to][t] += v
	w.m.exists[to] = true
}

func (w *c22W) code(a ethcommon.Address) func(*c22W, *c22Frame) bool {
	switch a {
	case w.aAt:
		return w.a
	case c22B:
		return w.b
	case c22SinkQ:
		return func(w *c22W, f *c22Frame) bool { f.queried = true; return true }
	case c22SinkP:
		return func(w *c22W, f *c22Frame) bool { return true }
	case c22Rev, c22Loop:
		return func(w *c22W, f *c22Frame) bool { return false }
	case c22Passes:
		return func(w *c22W, f *c22Frame) bool {
			f.queried = true
			if f.static {
				return false
			}
			w.call("CALL", f, c22X5, 1, c22In{})
			return true
		}
	case c22Prober:
		return func(w *c22W, f *c22Frame) bool {
			if f.static {
				return false
			}
			w.m.mark[f.self] = true
			return true
		}
	}
	return nil
}

// call: what a call from f's code does; whether it succeeds.
func (w *c22W) call(kind string, f *c22Frame, target ethcommon.Address, v int64, in c22In) bool {
	if target == c22Current {
		defer func() { f.queried = true }()
	}
	keep := c22Copy(w.m)
	tok := w.tok
	g := &c22Frame{self: target, sender: f.self, value: v, static: f.static}
	switch kind {
	case "CALL":
		if w.has(f.self, tok) < v {
			return false
		}
		if !w.m.exists[target] && !c22Pre(target) && v == 0 {
			return true
		}
		w.move(f.self, target, tok, v)
	case "CALLCODE":
		if w.has(f.self, tok) < v {
			return false
		}
		g.self = f.self
	case "DELEGATECALL":
		g.self, g.sender, g.value = f.self, f.sender, f.value
	case "STATICCALL":
		g.static, g.value = true, 0
	}
	ok := true
	if c22Pre(target) {
		ok = w.builtin(target, f, g, in)
	} else if code := w.code(target); code != nil {
		ok = code(w, g)
		if ok && !g.queried && tok != vQKC && g.value != 0 {
			ok = false
		}
	}
	if !ok {
		w.m = keep
	}
	w.tok = tok
	return ok
}

func (w *c22W) builtin(target ethcommon.Address, f, g *c22Frame, in c22In) bool {
	switch target {
	case c22Current:
		return true
	case c22Balance:
		return c22OKTok(in.tok)
	case c22Transfer:
		if in.cut > 0 || g.static || !c22OKTok(in.tok) || in.to == c22Transfer {
			return false
		}
		t := in.tok.Uint64()
		if w.has(g.sender, t) < in.value {
			return false
		}
		w.tok = t
		return w.call("CALL", &c22Frame{self: f.self, sender: f.sender}, in.to, in.value, c22In{})
	case c22Mint:
		if g.static || in.value == 0 || !c22OKTok(in.tok) || in.tok.Uint64() == vQKC || g.sender != c22Minter || in.cut >= 32 {
			return false
		}
		t := in.tok.Uint64()
		if w.m.bal[in.to] == nil {
			w.m.bal[in.to] = map[uint64]int64{}
		}
		w.m.bal[in.to][t] += in.value
		w.m.exists[in.to] = true
		return true
	case c22Deploy:
		if g.static || in.index > 1 || w.m.made || w.tok != vQKC {
			return false
		}
		w.m.made = true
		return true
	}
	panic("?")
}

// the real thing

const c22Gas = 10000000

func c22State(db state.Database, extra func(*state.StateDB)) *state.StateDB {
	s, err := state.New(ethcommon.Hash{}, db)
	if err != nil {
		panic(err)
	}
	s.SetQuarkChainConfig(vSharedConfig(vOpt{key: "c22", alloc: nil}).Quarkchain)
	s.SetTimeStamp(100)
	s.SetFullShardKey(0)
	set := func(a ethcommon.Address, q, t int64, code string) {
		s.AddBalance(a, big.NewInt(q), vQKC)
		if t > 0 {
			s.AddBalance(a, big.NewInt(t), c22Tok)
		}
		if code != "" {
			s.SetCode(a, ethcommon.FromHex(code))
			s.SetNonce(a, 1)
		}
	}
	set(c22X, 1000, 500, "")
	set(c22X4, 1, 0, "")
	set(c22X5, 1, 0, "")
	ask := "6000600060006000600073" + fmt.Sprintf("%x", c22Current) + "5af150"
	set(c22SinkQ, 0, 0, ask+"00")
	set(c22SinkP, 0, 0, "00")
	set(c22Rev, 0, 0, "60006000fd")
	set(c22Loop, 0, 0, "5b600056")
	set(c22Passes, 7, 0, ask+"600060006000600060017"+"3"+fmt.Sprintf("%x", c22X5)+"5af15000")
	set(c22Prober, 0, 0, "600160005500")
	extra(s)
	return s
}

func c22EVM(s *state.StateDB, origin ethcommon.Address, tok uint64) *vm.EVM {
	key := uint32(0)
	return vm.NewEVM(vm.Context{
		CanTransfer: CanTransfer, Transfer: Transfer, TransferFailureByPoswBalanceCheck: TransferFailureByPoswBalanceCheck,
		GetHash: func(uint64) ethcommon.Hash { return ethcommon.Hash{} }, Origin: origin, GasPrice: new(big.Int),
		BlockNumber: big.NewInt(1), Time: big.NewInt(100), Difficulty: big.NewInt(1), GasLimit: c22Gas, ToFullShardKey: &key,
		GasTokenID: vQKC, TransferTokenID: tok,
	}, s, params.TestChainConfig, vm.Config{})
}

var c22Accounts = []ethcommon.Address{c22X, c22A, c22B, c22X4, c22X5, c22Fresh, c22SinkQ, c22SinkP, c22Rev, c22Loop, c22Passes, c22Prober,
	c22Current, c22Transfer, c22Deploy, c22Mint, c22Balance, c22Minter, c22Staking}
var c22Names = []string{"X", "A", "B", "X4", "X5", "fresh", "sinkQ", "sinkP", "reverter", "loop", "passes", "prober", "CURRENT", "TRANSFER", "DEPLOY", "MINT", "BALANCE", "minter", "staking"}

func c22Show(bal func(ethcommon.Address, uint64) int64, mark func(ethcommon.Address) bool, made bool) string {
	var r []string
	for i, a := range c22Accounts {
		for _, t := range []uint64{vQKC, c22Tok, c22None} {
			if v := bal(a, t); v != 0 {
				r = append(r, fmt.Sprintf("%s/%s=%d", c22Names[i], map[uint64]string{vQKC: "QKC", c22Tok: "TOK", c22None: "NONE"}[t], v))
			}
		}
		if mark(a) {
			r = append(r, c22Names[i]+" written")
		}
	}
	if made {
		r = append(r, "staking contract deployed")
	}
	return strings.Join(r, " ")
}

func c22Real(s *state.StateDB) string {
	return c22Show(func(a ethcommon.Address, t uint64) int64 { return s.GetBalance(a, t).Int64() },
		func(a ethcommon.Address) bool { return s.GetState(a, ethcommon.Hash{}) != (ethcommon.Hash{}) },
		len(s.GetCode(c22Staking)) > 0)
}
func c22Model(m *c22M) string {
	return c22Show(func(a ethcommon.Address, t uint64) int64 { return m.bal[a][t] }, func(a ethcommon.Address) bool { return m.mark[a] }, m.made)
}

func c22Init(s *state.StateDB) *c22M {
	m := &c22M{bal: map[ethcommon.Address]map[uint64]int64{}, mark: map[ethcommon.Address]bool{}, exists: map[ethcommon.Address]bool{}, dying: map[ethcommon.Address]bool{}}
	for _, a := range c22Accounts {
		m.bal[a] = map[uint64]int64{}
		for _, t := range []uint64{vQKC, c22Tok, c22None} {
			m.bal[a][t] = s.GetBalance(a, t).Int64()
		}
		m.exists[a] = s.Exist(a)
	}
	return m
}

func c22Inputs(thorough bool) []struct {
	target ethcommon.Address
	in     c22In
} {
	type ti = struct {
		target ethcommon.Address
		in     c22In
	}
	var l []ti
	tokens := []*big.Int{new(big.Int).SetUint64(vQKC), new(big.Int).SetUint64(c22Tok), new(big.Int).SetUint64(c22None)}
	wrap := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).SetUint64(c22Tok))
	over := new(big.Int).Add(c22MaxTok, big.NewInt(1))
	for i, to := range c22Accounts {
		switch to {
		case c22X4, c22Fresh, c22SinkQ, c22SinkP, c22Rev, c22Passes, c22Prober, c22Transfer, c22Current, c22X:
		case c22Loop:
			if !thorough {
				continue
			}
		default:
			continue
		}
		for _, t := range tokens {
			for _, v := range []int64{0, 2, 100000} {
				if (t == tokens[2] || to == c22X || to == c22Current || v == 100000) && to != c22X4 && !thorough {
					continue
				}
				l = append(l, ti{c22Transfer, c22In{name: fmt.Sprintf("transfer %d of %d to %s", v, t, c22Names[i]), to: to, tok: t, value: v}})
			}
		}
	}
	for _, t := range []*big.Int{wrap, over} {
		l = append(l, ti{c22Transfer, c22In{name: fmt.Sprintf("transfer 2 of %d", t), to: c22X4, tok: t, value: 2}})
		l = append(l, ti{c22Balance, c22In{name: fmt.Sprintf("balance of %d", t), to: c22X, tok: t}})
	}
	l = append(l, ti{c22Transfer, c22In{name: "transfer, short input", to: c22X4, tok: tokens[1], value: 2, cut: 1}})
	nested := c22In{to: c22X4, tok: tokens[1], value: 2}.bytes(c22Transfer)
	for _, v := range []int64{0, 2} {
		l = append(l, ti{c22Transfer, c22In{name: fmt.Sprintf("transfer %d to the transfer contract, which is to transfer 2", v), to: c22Transfer, tok: tokens[1], value: v, extra: nested}})
	}
	l = append(l, ti{c22Balance, c22In{name: "balance", to: c22X, tok: tokens[1]}})
	l = append(l, ti{c22Current, c22In{name: "current token"}})
	for _, t := range append(append([]*big.Int{}, tokens...), wrap, over) {
		for _, v := range []int64{0, 9} {
			for _, to := range []ethcommon.Address{c22X4, c22Fresh} {
				if (v == 0 || to == c22Fresh) && t != tokens[2] {
					continue
				}
				l = append(l, ti{c22Mint, c22In{name: fmt.Sprintf("mint %d of %d for %x", v, t, to[19]), to: to, tok: t, value: v}})
			}
		}
	}
	for _, i := range []int64{-1, 1, 2, 4} {
		l = append(l, ti{c22Deploy, c22In{name: fmt.Sprintf("deploy %d", i), index: i}})
	}
	return l
}

// c22Op: code of one call with the input put into memory first.
func c22Op(kind string, target ethcommon.Address, v int64, in []byte) string {
	var s strings.Builder
	n := len(in)
	for i := 0; i < n; i += 32 {
		w := make([]byte, 32)
		copy(w, in[i:])
		fmt.Fprintf(&s, "7f%x60%02x52", w, i)
	}
	fmt.Fprintf(&s, "60006000"+"60%02x6000", n)
	if kind == "CALL" || kind == "CALLCODE" {
		fmt.Fprintf(&s, "62%06x", v)
	}
	fmt.Fprintf(&s, "73%x5a%s50", target, map[string]string{"CALL": "f1", "CALLCODE": "f2", "DELEGATECALL": "f4", "STATICCALL": "fa"}[kind])
	return s.String()
}

var c22Ends = []string{"stop", "revert", "invalid"}
var c22EndCode = map[string]string{"stop": "00", "revert": "60006000fd", "invalid": "fe"}

func TestVerifC22(t *testing.T) {
	for _, a := range []ethcommon.Address{c22Mint, c22Balance} {
		vm.PrecompiledContractsByzantium[a].SetEnableTime(0)
	}
	h := kit.New("C22", "tokens")
	defer h.Done()
	db := state.NewDatabase(ethdb.NewMemDatabase())
	inputs := c22Inputs(!kit.Quick())
	h.Bound("builtin inputs", len(inputs))
	type op struct {
		kind string
		v    int64
	}
	ops := []op{{"CALL", 0}, {"CALL", 2}, {"CALL", 99999}, {"CALLCODE", 0}, {"CALLCODE", 2}, {"DELEGATECALL", 0}, {"STATICCALL", 0}}

	h.Explore("nested", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		w := &c22W{tok: vQKC, aAt: c22A}
		entry := c.Choose(kit.Tier(3, 4), "entry")
		v0 := []int64{0, 3, 3, 0}[entry]
		if entry >= 2 {
			w.tok = c22Tok
		}
		system := c.Bool("A is the minting contract")
		if system {
			w.aAt = c22Minter
		}
		op1 := ops[c.Choose(len(ops), "A's call")]
		if op1.v == 99999 {
			op1.v = 2 // A's own failing call would hide B
		}
		aAsks := c.Bool("A asks")
		aEnd := c22Ends[c.Choose(3, "A ends")]
		viaB := c.Bool("through B")
		if system && entry == 2 || kit.Quick() && viaB && aEnd == "invalid" {
			c.Stop()
		}
		bAsks, bEnd, after := false, "stop", false
		op2 := op1
		k := -1
		if viaB {
			op2 = ops[c.Choose(len(ops), "B's call")]
			bAsks = c.Bool("B asks")
			bEnd = c22Ends[c.Choose(kit.Tier(2, 3), "B ends")]
			after = c.Bool("B pays X5 afterwards")
			if n := map[bool]int{true: 1}; kit.Quick() && n[bAsks]+n[after]+n[bEnd != "stop"] > 1 {
				c.Stop()
			}
		}
		const nlocal = 4
		k = c.Choose(len(inputs)+nlocal, "action")
		var target ethcommon.Address
		var in c22In
		local := ""
		switch {
		case k < len(inputs):
			target, in = inputs[k].target, inputs[k].in
		case k == len(inputs):
			target, in.name = c22X4, "pay X4"
		case k == len(inputs)+1:
			target, in.name = c22Fresh, "pay a new account"
		case k == len(inputs)+2:
			target, in.name = c22Prober, "call the prober"
		default:
			local = "write"
			if op2 != ops[0] && viaB {
				c.Stop()
			}
		}
		data := in.bytes(target)
		actCode := c22Op(op2.kind, target, op2.v, data)
		act := func(w *c22W, f *c22Frame) bool {
			if f.static && op2.kind == "CALL" && op2.v > 0 {
				return false
			}
			w.call(op2.kind, f, target, op2.v, in)
			return true
		}
		if local != "" {
			actCode = "60016000" + "55"
			act = func(w *c22W, f *c22Frame) bool {
				if f.static {
					return false
				}
				w.m.mark[f.self] = true
				return true
			}
		}
		ask := c22Op("CALL", c22Current, 0, nil)
		tail := c22Op("CALL", c22X5, 1, nil)
		codeB, codeA := "", ""
		if bAsks {
			codeB += ask
		}
		codeB += actCode
		if after {
			codeB += tail
		}
		codeB += c22EndCode[bEnd]
		bRun := func(w *c22W, f *c22Frame) bool {
			if bAsks {
				f.queried = true
			}
			if !act(w, f) {
				return false
			}
			if after {
				if f.static {
					return false
				}
				w.call("CALL", f, c22X5, 1, c22In{})
			}
			return bEnd == "stop"
		}
		if aAsks {
			codeA += ask
		}
		if viaB {
			codeA += c22Op(op1.kind, c22B, op1.v, nil)
		} else {
			codeA += actCode
		}
		codeA += c22EndCode[aEnd]
		w.b = bRun
		w.a = func(w *c22W, f *c22Frame) bool {
			if aAsks {
				f.queried = true
			}
			if viaB {
				w.call(op1.kind, f, c22B, op1.v, c22In{})
			} else if !act(w, f) {
				return false
			}
			return aEnd == "stop"
		}
		s := c22State(db, func(s *state.StateDB) {
			for a, code := range map[ethcommon.Address]string{w.aAt: codeA, c22B: codeB} {
				s.SetCode(a, ethcommon.FromHex(code))
				s.SetNonce(a, 1)
				s.AddBalance(a, big.NewInt(50), vQKC)
				s.AddBalance(a, big.NewInt(50), c22Tok)
			}
		})
		w.m = c22Init(s)
		c.Logf("X calls A (minter: %v) with %d of %d; A asks %v, %s %d to B %v, ends %s; B asks %v, %s %d: %s%s, then pays %v, ends %s", system, v0, w.tok, aAsks, op1.kind, op1.v, viaB, aEnd, bAsks, op2.kind, op2.v, in.name, local, after, bEnd)
		evm := c22EVM(s, c22X, w.tok)
		before := c22Real(s)
		snap := s.Snapshot()
		_, left, err := evm.Call(vm.AccountRef(c22X), w.aAt, nil, c22Gas, big.NewInt(v0))
		c.Step()
		want := w.call("CALL", &c22Frame{self: c22X, sender: c22X}, w.aAt, v0, c22In{})
		c.Check((err == nil) == want, "verdict", "the call ends with %v, should succeed: %v", err, want)
		c.Check(left <= c22Gas, "gas", "%d gas left of %d", left, c22Gas)
		got, exp := c22Real(s), c22Model(w.m)
		c.Check(got == exp, "tokens", "afterwards: %s\nshould be: %s\nbefore: %s", got, exp, before)
		if err != nil {
			c.Check(got == before, "undone", "a failing call changed %s into %s", before, got)
		}
		s.RevertToSnapshot(snap)
		c.Check(c22Real(s) == before, "revert", "undoing the call leaves %s, before: %s", c22Real(s), before)
		c.Outcome("%v", want)
	})

	// every number of a system contract, before and after the time it may be deployed at
	numbers := []string{"", "00", "01", "02", "03", "04", "05", "7fffffff", "ffffffff", "0100000001", "7fffffffffffffff", "8000000000000000", "8000000000000001",
		"ffffffffffffffff", "010000000000000001", "010000000000000002", strings.Repeat("ff", 32)}
	h.Bound("numbers of system contracts", len(numbers))
	h.Explore("deploy", kit.Opt{MaxDev: -1, Workers: 1}, func(c *kit.Case) {
		no := numbers[c.Choose(len(numbers), "number")]
		from := []uint64{0, 99, 100, 101, 1<<64 - 1}[c.Choose(5, "deployable from")]
		chain := c.Choose(2, "chain")
		again := c.Bool("twice")
		tok := []uint64{vQKC, c22Tok}[c.Choose(2, "token")]
		for _, k := range []int{vm.NON_RESERVED_NATIVE_TOKEN, vm.GENERAL_NATIVE_TOKEN} {
			vm.SystemContracts[k].SetTimestamp(from)
			defer vm.SystemContracts[k].SetTimestamp(1<<64 - 1)
		}
		s := c22State(db, func(s *state.StateDB) {})
		s.SetFullShardKey(uint32(chain) << 16)
		var data []byte
		if no != "" {
			data = ethcommon.LeftPadBytes(ethcommon.FromHex(no), 32)
		}
		n := new(big.Int).SetBytes(data)
		if n.Sign() == 0 {
			n = big.NewInt(1)
		}
		want := tok == vQKC && n.Cmp(big.NewInt(3)) <= 0 && (n.Int64() == 1 || from <= 100) && (n.Int64() != 2 || chain == 0)
		evm := c22EVM(s, c22X, tok)
		c.Logf("deploying system contract %s on chain %d at 100, deployable from %d, token %d", no, chain, from, tok)
		for round := 0; round < 2; round++ {
			left, err := uint64(0), error(nil)
			site, val := kit.Try(func() { _, left, err = evm.Call(vm.AccountRef(c22X), c22Deploy, data, c22Gas, big.NewInt(0)) })
			c.Check(val == nil, "deploy crash", "deploying system contract number %s: panic at %s: %v", no, site, val)
			c.Step()
			c.Check((err == nil) == (want && round == 0), "deploy", "deploying system contract number %s, attempt %d: %v, should succeed: %v", no, round+1, err, want && round == 0)
			c.Check(left < c22Gas && (err == nil || left == 0), "deploy gas", "deploying leaves %d gas (%v)", left, err)
			for k := 1; k <= 3; k++ {
				made := len(s.GetCode(vm.SystemContracts[k].Address())) > 0
				c.Check(made == (want && int64(k) == n.Int64()), "deployed", "system contract %d is there: %v, number %s was asked for (attempt %d, %v)", k, made, no, round+1, err)
			}
			if !again {
				break
			}
		}
		c.Outcome("%v", want)
	})

	// the built-in contracts called directly, with exact gas
	gases := []uint64{0, 2, 3, 399, 400, 8999, 9000, 9001, 33999, 34000, 100000}
	h.Bound("gas limits", len(gases))
	h.Explore("direct", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		x := inputs[c.Choose(len(inputs), "input")]
		gas := gases[c.Choose(len(gases), "gas")]
		static := c.Bool("static")
		caller := []ethcommon.Address{c22X, c22Minter}[c.Choose(2, "caller")]
		v0 := []int64{0, 3}[c.Choose(2, "value")]
		tok := []uint64{vQKC, c22Tok}[c.Choose(2, "token")]
		chain := c.Choose(2, "chain")
		if static && v0 > 0 {
			c.Stop()
		}
		w := &c22W{tok: tok, aAt: c22A}
		s := c22State(db, func(s *state.StateDB) {
			s.AddBalance(c22Minter, big.NewInt(50), vQKC)
			s.AddBalance(c22Minter, big.NewInt(50), c22Tok)
		})
		s.SetFullShardKey(uint32(chain) << 16)
		w.m = c22Init(s)
		m0 := c22Copy(w.m)
		before := c22Real(s)
		evm := c22EVM(s, caller, tok)
		data := x.in.bytes(x.target)
		c.Logf("%x calls %s with %d gas, %d of %d, static %v on chain %d", caller[18:], x.in.name, gas, v0, tok, static, chain)
		var ret []byte
		var left uint64
		var err error
		if static {
			ret, left, err = evm.StaticCall(vm.AccountRef(caller), x.target, data, gas)
		} else {
			ret, left, err = evm.Call(vm.AccountRef(caller), x.target, data, gas, big.NewInt(v0))
		}
		c.Step()
		// gas
		need, ok := int64(0), true
		exists := m0.exists[x.in.to]
		leftWant := int64(-1) // unknown
		t := uint64(0)
		if x.in.tok != nil && c22OKTok(x.in.tok) {
			t = x.in.tok.Uint64()
		}
		have := w.has(caller, t)
		if t == tok {
			have -= v0
		}
		switch x.target {
		case c22Current:
			need = 3
		case c22Balance:
			need = 400
		case c22Deploy:
			need = -1
		case c22Mint:
			need = 9000
			if !exists {
				need += 25000
			}
			ok = chain == 0
		case c22Transfer:
			if x.in.value > 0 {
				need = 9000
				if !exists {
					need += 25000
				}
			}
		}
		var want bool
		if need > int64(gas) || !ok || x.target == c22Deploy && gas < 100000 {
			want, leftWant = false, 0
		} else {
			kind := "CALL"
			if static {
				kind = "STATICCALL"
			}
			if x.target == c22Deploy {
				gas = 0
			}
			want = w.call(kind, &c22Frame{self: caller, sender: caller}, x.target, v0, x.in)
			if want {
				leftWant = int64(gas) - need
			} else {
				leftWant = 0
			}
			if x.target == c22Transfer && x.in.cut == 0 && !static && c22OKTok(x.in.tok) && x.in.to != c22Transfer {
				stip := int64(0)
				if x.in.value > 0 {
					stip = 2300
				}
				left0 := int64(gas) - need + stip
				switch {
				case have < x.in.value:
					leftWant = int64(gas) - need
				case x.in.to == c22X4 || x.in.to == c22Fresh || x.in.to == c22X:
					leftWant = left0
				case x.in.to == c22Rev:
					leftWant = left0 - 6
					if left0 < 6 {
						leftWant = 0
					}
				case x.in.to == c22Current:
					leftWant = left0 - 3
					if left0 < 3 {
						want, leftWant = false, 0
						w.m = m0
					}
				case x.in.to == c22Loop:
					leftWant = 0
				case x.in.to == c22SinkP:
					leftWant = left0
				default: // gas for running the contract is not modelled
					if err != nil {
						want, w.m = false, m0
					}
					leftWant = -1
				}
			}
			if x.target == c22Deploy {
				leftWant = -1
				if err != nil && evmOutOfGas(err) {
					want, w.m = false, m0
				}
			}
		}
		c.Check((err == nil) == want, "verdict", "ends with %v, should succeed: %v", err, want)
		if leftWant >= 0 {
			c.Check(int64(left) == leftWant, "gas", "leaves %d gas, should leave %d", left, leftWant)
		}
		got, exp := c22Real(s), c22Model(w.m)
		c.Check(got == exp, "tokens", "afterwards: %s\nshould be: %s\nbefore: %s", got, exp, before)
		if err == nil {
			switch x.target {
			case c22Current:
				c.Check(new(big.Int).SetBytes(ret).Uint64() == tok && len(ret) == 32, "answer", "the current token is %x", ret)
			case c22Balance:
				c.Check(new(big.Int).SetBytes(ret).Int64() == s.GetBalance(x.in.to, t).Int64() && len(ret) == 32, "answer", "the balance is %x", ret)
			case c22Mint:
				c.Check(new(big.Int).SetBytes(ret).Int64() == 1 && len(ret) == 32, "answer", "minting answers %x", ret)
			}
		}
		c.Outcome("%v", want)
	})
}

func evmOutOfGas(err error) bool { return err == vm.ErrOutOfGas || err == vm.ErrCodeStoreOutOfGas }

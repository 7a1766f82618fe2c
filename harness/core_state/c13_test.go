package state

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
)

// Reference model: a plain map of accounts, copied wholesale for snapshots.
type vAcc struct {
	nonce     uint64
	bal       map[uint64]int64 // an entry may be zero: the encoding of an account distinguishes it
	sticky    bool             // more than 16 tokens were stored: the account stays in the wide representation
	code      string
	sto       map[int]int
	committed map[int]int
	suicided  bool
	// the stored encoding of an account that only ever had zero entries differs from
	// that of one without entries until the account is written again
	zeroMark bool
}

type vModel struct {
	acc    map[int]*vAcc
	refund uint64
	logs   []int
}

func (a *vAcc) copy() *vAcc {
	n := *a
	n.bal, n.sto, n.committed = map[uint64]int64{}, map[int]int{}, map[int]int{}
	for k, v := range a.bal {
		n.bal[k] = v
	}
	for k, v := range a.sto {
		n.sto[k] = v
	}
	for k, v := range a.committed {
		n.committed[k] = v
	}
	return &n
}
func (m *vModel) copy() *vModel {
	n := &vModel{acc: map[int]*vAcc{}, refund: m.refund, logs: append([]int{}, m.logs...)}
	for k, v := range m.acc {
		n.acc[k] = v.copy()
	}
	return n
}
func newVAcc() *vAcc {
	return &vAcc{bal: map[uint64]int64{}, sto: map[int]int{}, committed: map[int]int{}}
}
func (a *vAcc) nonzero() int {
	n := 0
	for _, v := range a.bal {
		if v > 0 {
			n++
		}
	}
	return n
}
func (a *vAcc) empty() bool { return a.nonce == 0 && a.code == "" && !a.sticky && a.nonzero() == 0 }
func (m *vModel) get(i int) *vAcc {
	if m.acc[i] == nil {
		m.acc[i] = newVAcc()
	}
	m.acc[i].zeroMark = false
	return m.acc[i]
}
func (m *vModel) finalise() {
	for k, a := range m.acc {
		if a.suicided || a.empty() {
			delete(m.acc, k)
			continue
		}
		a.committed = map[int]int{}
		for x, v := range a.sto {
			a.committed[x] = v
		}
		if !a.sticky && a.nonzero() > types.TokenTrieThreshold {
			a.sticky = true
		}
	}
	m.refund = 0
}
func (m *vModel) reopen() {
	m.finalise()
	for _, a := range m.acc {
		if !a.sticky && a.nonzero() == 0 && len(a.bal) > 0 {
			a.zeroMark = true
		}
		for k, v := range a.bal {
			if v == 0 {
				delete(a.bal, k)
			}
		}
	}
	m.logs = nil
}

var vAddr = []common.Address{common.HexToAddress("0xa1"), common.HexToAddress("0xb2"), common.HexToAddress("0xc3")}

func vKey(i int) common.Hash   { return common.BigToHash(big.NewInt(int64(i + 1))) }
func vVal(i int) common.Hash   { return common.BigToHash(big.NewInt(int64(i))) }
func vCode(s string) []byte    { return []byte(s) }
func vTok(i int) uint64        { return uint64(100 + i*37) }
func vThash(i int) common.Hash { return common.BigToHash(big.NewInt(int64(900 + i))) }

const vFSK = 0x10001

type vSys struct {
	c     *kit.Case
	db    Database
	disk  ethdb.Database
	s     *StateDB
	m     *vModel
	snaps []int
	ms    []*vModel
	// originals left behind by copies, with the model they must keep matching
	olds   []*StateDB
	oldMs  []*vModel
	toks   []uint64
	mid    bool
	oldMid []bool
}

func (y *vSys) compare(s *StateDB, m *vModel, who string) {
	c := y.c
	for i, ad := range vAddr[:2] {
		a := m.acc[i]
		ex := a != nil
		if a == nil {
			a = newVAcc()
		}
		c.Check(s.Exist(ad) == ex, "exist", "%s: Exist(%d)=%v want %v", who, i, s.Exist(ad), ex)
		c.Check(s.Empty(ad) == (!ex || a.empty()), "empty", "%s: Empty(%d)=%v", who, i, s.Empty(ad))
		if !ex { // reading the nonce or the balances of an absent account creates an empty one
			for _, t := range y.toks {
				c.Check(s.GetBalance(ad, t).Sign() == 0, "balance", "%s: balance of absent account", who)
			}
			c.Check(len(s.GetCode(ad)) == 0 && s.GetState(ad, vKey(0)) == common.Hash{}, "absent", "%s: code or storage of absent account %d", who, i)
			continue
		}
		c.Check(s.GetNonce(ad) == a.nonce, "nonce", "%s: nonce(%d)=%d want %d", who, i, s.GetNonce(ad), a.nonce)
		for _, t := range y.toks {
			c.Check(s.GetBalance(ad, t).Cmp(big.NewInt(a.bal[t])) == 0, "balance", "%s: balance(%d,token %d)=%v want %d", who, i, t, s.GetBalance(ad, t), a.bal[t])
		}
		if ex {
			got := s.GetBalances(ad).GetBalanceMap()
			for t, v := range a.bal {
				g := got[t]
				if g == nil {
					g = new(big.Int)
				}
				c.Check(g.Cmp(big.NewInt(v)) == 0, "balances-listing", "%s: listing of all balances (%d) has token %d = %v want %d", who, i, t, g, v)
			}
			for t, v := range got {
				c.Check(v.Cmp(big.NewInt(a.bal[t])) == 0, "balances-listing", "%s: listing of all balances (%d) has token %d = %v want %d", who, i, t, v, a.bal[t])
			}
		}
		c.Check(string(s.GetCode(ad)) == a.code, "code", "%s: code(%d)=%q want %q", who, i, s.GetCode(ad), a.code)
		c.Check(s.GetCodeSize(ad) == len(a.code), "codesize", "%s: codesize(%d)", who, i)
		wantHash := common.Hash{}
		if ex {
			wantHash = crypto.Keccak256Hash(vCode(a.code))
		}
		_ = wantHash
		c.Check(s.GetCodeHash(ad) == wantHash, "codehash", "%s: codehash(%d)", who, i)
		for k := 0; k < 2; k++ {
			c.Check(s.GetState(ad, vKey(k)) == vVal(a.sto[k]), "storage", "%s: storage(%d,%d)=%x want %d", who, i, k, s.GetState(ad, vKey(k)), a.sto[k])
			c.Check(s.GetCommittedState(ad, vKey(k)) == vVal(a.committed[k]), "committed", "%s: committed storage(%d,%d)=%x want %d", who, i, k, s.GetCommittedState(ad, vKey(k)), a.committed[k])
		}
		c.Check(s.HasSuicided(ad) == (ex && a.suicided), "suicided", "%s: HasSuicided(%d)=%v", who, i, s.HasSuicided(ad))
	}
	c.Check(s.GetRefund() == m.refund, "refund", "%s: refund=%d want %d", who, s.GetRefund(), m.refund)
	logs := s.Logs()
	c.Check(len(logs) == len(m.logs), "logs", "%s: %d logs want %d", who, len(logs), len(m.logs))
	byIdx := map[uint32]byte{}
	for _, l := range logs {
		byIdx[l.Index] = l.Data[0]
	}
	for i, d := range m.logs {
		c.Check(byIdx[uint32(i)] == byte(d), "logs", "%s: log %d is %d want %d", who, i, byIdx[uint32(i)], d)
	}
}

func (m *vModel) String() string {
	var b strings.Builder
	for i := 0; i < 3; i++ {
		a := m.acc[i]
		if a == nil {
			continue
		}
		ts := []int{}
		for t := range a.bal {
			ts = append(ts, int(t))
		}
		sort.Ints(ts)
		fmt.Fprintf(&b, "%d:n%d c%s s%v w%v z%v x%v[", i, a.nonce, a.code, a.suicided, a.sticky, a.zeroMark, a.sto)
		for _, t := range ts {
			fmt.Fprintf(&b, "%d=%d ", t, a.bal[uint64(t)])
		}
		b.WriteString("]")
	}
	fmt.Fprintf(&b, " r%d l%v", m.refund, m.logs)
	return b.String()
}

// rebuild writes the model's contents into a fresh state in a canonical order.
func (y *vSys) rebuild(m *vModel) common.Hash {
	key := fmt.Sprintf("%v", m)
	if r, ok := vRoots.Load(key); ok {
		return r.(common.Hash)
	}
	r := y.rebuild1(m)
	vRoots.Store(key, r)
	return r
}

var vRoots, vInit sync.Map

func (y *vSys) rebuild1(m *vModel) common.Hash {
	db := NewDatabase(ethdb.NewMemDatabase())
	s, _ := New(common.Hash{}, db)
	s.SetFullShardKey(vFSK)
	for i := 0; i < 3; i++ {
		a := m.acc[i]
		if a == nil {
			continue
		}
		if a.sticky {
			for k := 0; k < 17; k++ {
				s.SetBalance(vAddr[i], big.NewInt(1), uint64(5000+k))
			}
			s.Finalise(true)
			for k := 0; k < 17; k++ {
				s.SetBalance(vAddr[i], new(big.Int), uint64(5000+k))
			}
		}
		s.SetNonce(vAddr[i], a.nonce)
		for t, v := range a.bal {
			s.SetBalance(vAddr[i], big.NewInt(v), t)
		}
		if a.zeroMark {
			s.SetBalance(vAddr[i], new(big.Int), 1)
		}
		if a.code != "" {
			s.SetCode(vAddr[i], vCode(a.code))
		}
		for k, v := range a.sto {
			s.SetState(vAddr[i], vKey(k), vVal(v))
		}
	}
	r, err := s.Commit(true)
	y.c.Check(err == nil, "commit", "rebuild: %v", err)
	return r
}

func (y *vSys) open(root common.Hash, db Database) *StateDB {
	s, err := New(root, db)
	y.c.Check(err == nil, "reopen", "reopening root %x: %v", root, err)
	s.SetFullShardKey(vFSK)
	s.Prepare(vThash(0), common.Hash{}, 0)
	return s
}

type vOp struct {
	name    string
	enabled func(y *vSys) bool
	do      func(y *vSys)
}

func opAdd(i int, tk uint64, v int64) vOp {
	return vOp{fmt.Sprintf("AddBalance(%d,t%d,%d)", i, tk, v), nil, func(y *vSys) {
		y.s.AddBalance(vAddr[i], big.NewInt(v), tk)
		a := y.m.get(i)
		if v != 0 {
			a.bal[tk] += v
		}
	}}
}
func opSub(i int, tk uint64, v int64) vOp {
	return vOp{fmt.Sprintf("SubBalance(%d,t%d,%d)", i, tk, v), func(y *vSys) bool { return y.m.acc[i] != nil && y.m.acc[i].bal[tk] >= v }, func(y *vSys) {
		y.s.SubBalance(vAddr[i], big.NewInt(v), tk)
		y.m.get(i).bal[tk] -= v
	}}
}
func opSet(i int, tk uint64, v int64) vOp {
	return vOp{fmt.Sprintf("SetBalance(%d,t%d,%d)", i, tk, v), nil, func(y *vSys) {
		y.s.SetBalance(vAddr[i], big.NewInt(v), tk)
		y.m.get(i).bal[tk] = v
	}}
}
func opNonce(i int) vOp {
	return vOp{fmt.Sprintf("SetNonce(%d,+1)", i), nil, func(y *vSys) {
		n := y.m.get(i).nonce + 1
		y.s.SetNonce(vAddr[i], n)
		y.m.get(i).nonce = n
	}}
}
func opCode(i int, code string) vOp {
	return vOp{fmt.Sprintf("SetCode(%d,%q)", i, code), nil, func(y *vSys) {
		y.s.SetCode(vAddr[i], vCode(code))
		y.m.get(i).code = code
	}}
}
func opSto(i, k, v int) vOp {
	return vOp{fmt.Sprintf("SetState(%d,k%d,%d)", i, k, v), nil, func(y *vSys) {
		y.s.SetState(vAddr[i], vKey(k), vVal(v))
		if a := y.m.acc[i]; a != nil && a.sto[k] == v {
			return
		}
		y.m.get(i).sto[k] = v
	}}
}
func opCreate(i int) vOp {
	return vOp{fmt.Sprintf("Create(%d)", i), nil, func(y *vSys) {
		y.s.CreateAccount(vAddr[i])
		y.s.SetNonce(vAddr[i], 1)
		old := y.m.acc[i]
		n := newVAcc()
		n.nonce = 1
		if old != nil {
			n.bal, n.sticky = old.copy().bal, old.sticky
		}
		y.m.acc[i] = n
	}}
}
func opSuicide(i int) vOp {
	return vOp{fmt.Sprintf("Suicide(%d)", i), nil, func(y *vSys) {
		ok := y.s.Suicide(vAddr[i])
		a := y.m.acc[i]
		y.c.Check(ok == (a != nil), "suicide", "Suicide(%d)=%v", i, ok)
		if a != nil {
			a.suicided = true
			a.bal = map[uint64]int64{}
			a.sticky = false
		}
	}}
}
func opRefund() vOp {
	return vOp{"AddRefund", nil, func(y *vSys) { y.s.AddRefund(7); y.m.refund += 7 }}
}
func opSubRefund() vOp {
	return vOp{"SubRefund", func(y *vSys) bool { return y.m.refund >= 3 }, func(y *vSys) { y.s.SubRefund(3); y.m.refund -= 3 }}
}
func opLog() vOp {
	return vOp{"AddLog", nil, func(y *vSys) {
		d := len(y.m.logs) + 10*len(y.snaps)
		y.s.AddLog(&types.Log{Data: []byte{byte(d)}})
		y.m.logs = append(y.m.logs, d)
	}}
}
func opTx(n int) vOp {
	return vOp{fmt.Sprintf("Prepare(%d)", n), nil, func(y *vSys) { y.s.Prepare(vThash(n), common.Hash{}, n) }}
}
func opSnap() vOp {
	return vOp{"Snapshot", func(y *vSys) bool { return len(y.snaps) < 3 }, func(y *vSys) {
		y.snaps = append(y.snaps, y.s.Snapshot())
		y.ms = append(y.ms, y.m.copy())
	}}
}
func opRevert(fromTop int) vOp {
	return vOp{fmt.Sprintf("Revert(top-%d)", fromTop), func(y *vSys) bool { return len(y.snaps) > fromTop }, func(y *vSys) {
		i := len(y.snaps) - 1 - fromTop
		y.s.RevertToSnapshot(y.snaps[i])
		y.m = y.ms[i]
		y.snaps, y.ms = y.snaps[:i], y.ms[:i]
	}}
}
func opFinalise() vOp {
	return vOp{"Finalise", func(y *vSys) bool { return !y.mid }, func(y *vSys) {
		y.s.Finalise(true)
		y.m.finalise()
		y.snaps, y.ms = nil, nil
	}}
}
func opRoot() vOp {
	return vOp{"IntermediateRoot", func(y *vSys) bool { return !y.mid }, func(y *vSys) {
		y.m.finalise()
		y.snaps, y.ms = nil, nil
		got, want := y.s.IntermediateRoot(true), y.rebuild(y.m)
		y.c.Check(got == want, "root", "intermediate root %x, rebuilding the same contents gives %x", got, want)
	}}
}
func opReopen(disk bool) vOp {
	return vOp{fmt.Sprintf("Commit+Reopen(disk=%v)", disk), nil, func(y *vSys) {
		want := y.m.copy()
		want.finalise()
		root, err := y.s.Commit(true)
		y.c.Check(err == nil, "commit", "commit: %v", err)
		exp := y.rebuild(want)
		y.c.Check(root == exp, "root", "committed root %x, rebuilding the same contents gives %x", root, exp)
		y.mid = false
		y.m.reopen()
		y.snaps, y.ms = nil, nil
		if disk {
			y.c.Check(y.db.TrieDB().Commit(root, false) == nil, "commit", "flush")
			y.db = NewDatabase(y.disk)
		}
		y.s = y.open(root, y.db)
	}}
}

// A copy taken in the middle of a transaction has no journal: only reads, further
// writes and a commit are defined on it until it is committed.
func opCopy(mid bool) vOp {
	name := "Finalise+Copy"
	if mid {
		name = "Copy(mid-transaction)"
	}
	return vOp{name, func(y *vSys) bool { return len(y.olds) < 2 }, func(y *vSys) {
		if !mid {
			if y.mid {
				y.c.Stop()
			}
			opFinalise().do(y)
		}
		y.oldMid = append(y.oldMid, y.mid)
		y.mid = y.mid || mid
		n := y.s.Copy()
		n.SetFullShardKey(vFSK)
		n.Prepare(vThash(0), common.Hash{}, 0)
		y.olds = append(y.olds, y.s)
		y.oldMs = append(y.oldMs, y.m.copy())
		y.s = n
		y.snaps, y.ms = nil, nil
	}}
}

func (y *vSys) init(scen int) {
	y.disk = ethdb.NewMemDatabase()
	y.db = NewDatabase(y.disk)
	y.m = &vModel{acc: map[int]*vAcc{}}
	y.s = y.open(common.Hash{}, y.db)
	y.toks = []uint64{vTok(0), vTok(1), vTok(16), vTok(17), 1}
	n := 0
	switch scen {
	case 1:
		n = 1
	case 2:
		n = 16
	case 3:
		n = 17
	}
	type cached struct {
		root common.Hash
		m    *vModel
		keys [][]byte
		vals [][]byte
	}
	if v, ok := vInit.Load(scen); ok && n > 0 {
		cc := v.(*cached)
		for i := range cc.keys {
			y.disk.Put(cc.keys[i], cc.vals[i])
		}
		y.m = cc.m.copy()
		y.s = y.open(cc.root, y.db)
		return
	}
	for i := 0; i < n; i++ {
		opSet(0, vTok(i), int64(2+i%2)).do(y)
	}
	if n > 0 {
		opCode(1, "c").do(y)
		opSto(1, 0, 1).do(y)
		opSet(1, vTok(0), 2).do(y)
		opReopen(true).do(y)
		cc := &cached{root: y.s.IntermediateRoot(true), m: y.m.copy()}
		mem := y.disk.(*ethdb.MemDatabase)
		for _, k := range mem.Keys() {
			v, _ := mem.Get(k)
			cc.keys, cc.vals = append(cc.keys, k), append(cc.vals, v)
		}
		vInit.Store(scen, cc)
	}
}

func (y *vSys) all() {
	y.compare(y.s, y.m, "state")
	for i := range y.olds {
		y.compare(y.olds[i], y.oldMs[i], "original of a copy")
	}
}

func (y *vSys) final() {
	for i := range y.olds {
		w := y.oldMs[i].copy()
		w.finalise()
		want, got := y.rebuild(w), common.Hash{}
		if y.oldMid[i] {
			got, _ = y.olds[i].Commit(true)
		} else {
			got = y.olds[i].IntermediateRoot(true)
		}
		y.c.Check(got == want, "root", "root of the original of a copy %x, rebuilding the same contents gives %x", got, want)
		y.oldMs[i] = w
	}
	opReopen(true).do(y)
	for i := range y.olds {
		y.compare(y.olds[i], y.oldMs[i], "original of a copy after all")
	}
	y.compare(y.s, y.m, "reopened state")
}

func TestVerifC13(t *testing.T) {
	h := kit.New("C13", "state-sequences")
	defer h.Done()
	run := func(name string, depth int, scens []int, ops []vOp) {
		h.Bound(name, fmt.Sprintf("all sequences of %d of %d operations, %d initial states", depth, len(ops), len(scens)))
		h.Explore(name, kit.Opt{MaxDev: -1}, func(c *kit.Case) {
			y := &vSys{c: c}
			sc := scens[c.Choose(len(scens), "scenario")]
			y.init(sc)
			c.Logf("initial state %d", sc)
			for d := 0; d < depth; d++ {
				en := []vOp{}
				for _, o := range ops {
					if o.enabled == nil || o.enabled(y) {
						en = append(en, o)
					}
				}
				o := en[c.Choose(len(en), "op")]
				c.Logf("%s", o.name)
				o.do(y)
				c.Step()
				y.all()
				c.State(fmt.Sprintf("%v|%d|%d", y.m, len(y.snaps), len(y.olds)))
			}
			y.final()
			c.Outcome("scenario %d %s => %v", sc, strings.Join(c.Log(), " "), y.m)
		})
	}
	// one account's tokens around the switch of representation
	run("tokens", kit.Tier(4, 5), []int{0, 1, 2, 3}, []vOp{opAdd(0, vTok(0), 1), opSub(0, vTok(0), 2), opAdd(0, vTok(17), 3), opSub(0, vTok(17), 3), opSet(0, vTok(1), 0), opSnap(), opRevert(0), opFinalise(), opReopen(true), opCopy(false), opCopy(true), opSuicide(0), opCreate(0), opAdd(0, 1, 0)})
	run("tokens-undo", kit.Tier(6, 7), []int{2, 3}, []vOp{opAdd(0, vTok(17), 3), opSub(0, vTok(0), 2), opSnap(), opRevert(0), opFinalise(), opSuicide(0)})
	run("contract", kit.Tier(4, 5), []int{0, 1}, []vOp{opSto(1, 0, 2), opSto(1, 0, 0), opSto(1, 1, 3), opCode(1, "dd"), opNonce(1), opSuicide(1), opCreate(1), opAdd(1, vTok(0), 5), opSnap(), opRevert(0), opFinalise(), opReopen(false), opCopy(false), opCopy(true)})
	run("undo", kit.Tier(5, 6), []int{1}, []vOp{opSto(1, 0, 2), opAdd(1, vTok(1), 4), opSuicide(1), opCreate(1), opSnap(), opRevert(0), opRevert(1), opLog(), opRefund()})
	run("mixed", kit.Tier(4, 4), []int{1}, []vOp{opAdd(0, vTok(0), 1), opSub(0, vTok(0), 1), opSto(1, 0, 0), opNonce(0), opLog(), opTx(1), opRefund(), opSubRefund(), opSnap(), opRevert(0), opRevert(1), opRoot(), opReopen(true), opCopy(false), opCopy(true), opAdd(1, vTok(0), 0), opAdd(1, vTok(1), 0)})
}

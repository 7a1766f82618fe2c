package miner

// C19 (miner side): the real miner with the real engine over a chain stand-in. A script of calls
// is made by the node, and events (new head, start, stop, errors) are placed at chosen calls which
// the miner's own loops make. No call may hang, and at the end, with mining on, current work must
// be handed out to everybody and its solution must reach the chain.

import (
	"errors"
	"fmt"
	"math/big"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/consensus/doublesha256"
	"github.com/QuarkChain/goquarkchain/core/types"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
)

const vPatience = 20 * time.Second

// vHung counts hanging calls: enough of them end the exploration
var vHung int32

type vInj struct {
	call  string // create, tip, syncing, insert, seal
	nth   int
	event string // new head, start, stop, fail
}

type vBlk struct {
	b   types.IBlock
	gen uint64
}

type vChain struct {
	mu       sync.Mutex
	m        *Miner
	tip      uint64
	seq      uint64
	blocks   map[common.Hash]vBlk
	inserted []types.IBlock
	calls    map[string]int
	inj      []vInj
	used     int
	lastCall time.Time
	hung     []string
	sealed   uint64 // head of the last default work given to the engine
	created  uint64 // generation of the last block created for the default coinbase
	wg       sync.WaitGroup
}

var vDefault = account.NewAddress(common.BytesToAddress([]byte{1, 2, 3}), 0)
var vElse = account.NewAddress(common.BytesToAddress([]byte{9, 9}), 1)

// do makes a call which must return
func (v *vChain) do(what string, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(vPatience):
		v.mu.Lock()
		v.hung = append(v.hung, what)
		atomic.AddInt32(&vHung, 1)
		v.mu.Unlock()
		return false
	}
}

func (v *vChain) head() {
	v.mu.Lock()
	v.tip++
	v.mu.Unlock()
	v.m.HandleNewTip()
}

// at is called by everything the miner calls; it says whether this call has to fail
func (v *vChain) at(call string) bool {
	v.mu.Lock()
	n := v.calls[call]
	v.calls[call]++
	v.lastCall = time.Now()
	var evs []string
	for _, i := range v.inj {
		if i.call == call && i.nth == n {
			evs = append(evs, i.event)
			v.used++
		}
	}
	v.mu.Unlock()
	fail := false
	for _, e := range evs {
		var f func()
		switch e {
		case "fail":
			fail = true
			continue
		case "new head":
			f = v.head
		case "start":
			f = func() { v.m.SetMining(true) }
		case "stop":
			f = func() { v.m.SetMining(false) }
		}
		done := make(chan struct{})
		e := e
		v.wg.Add(1)
		go func() { v.do(e+" during "+call, f); close(done); v.wg.Done() }()
		select {
		case <-done:
		case <-time.After(40 * time.Millisecond):
		}
	}
	return fail
}

func (v *vChain) GetDefaultCoinbaseAddress() account.Address { return vDefault }
func (v *vChain) GetTip() uint64 {
	v.at("tip")
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.tip
}
func (v *vChain) IsSyncing() bool {
	var pcs [20]uintptr
	n := runtime.Callers(2, pcs[:])
	for fs, more := runtime.CallersFrames(pcs[:n]), true; more; {
		var f runtime.Frame
		f, more = fs.Next()
		if strings.HasSuffix(f.Function, "HandleNewTip") {
			return v.at("syncing at a new head")
		}
	}
	return v.at("syncing")
}
func (v *vChain) CreateBlockToMine(addr *account.Address) (types.IBlock, *big.Int, uint64, error) {
	v.mu.Lock()
	a := vDefault
	if addr != nil {
		a = *addr
	}
	v.seq++
	gen := v.tip
	b := types.NewRootBlockWithHeader(&types.RootBlockHeader{
		Number: uint32(v.tip + 1), Coinbase: a, Time: v.seq, Difficulty: big.NewInt(3), ToTalDifficulty: big.NewInt(0), CoinbaseAmount: types.NewEmptyTokenBalances(),
	})
	v.blocks[b.Header().SealHash()] = vBlk{b, gen}
	v.mu.Unlock()
	if v.at("create") {
		return nil, nil, 0, errors.New("cannot create a block")
	}
	v.mu.Lock()
	if a == vDefault {
		v.created = gen
	}
	v.mu.Unlock()
	return b, b.Difficulty(), 1, nil
}
func (v *vChain) InsertMinedBlock(b types.IBlock) error {
	if v.at("insert") {
		return errors.New("cannot insert")
	}
	v.mu.Lock()
	v.inserted = append(v.inserted, b)
	v.mu.Unlock()
	return nil
}

// quiet waits until the miner has made no call for a while
func (v *vChain) quiet() {
	for i := 0; i < 200; i++ {
		v.mu.Lock()
		idle := time.Since(v.lastCall)
		v.mu.Unlock()
		if idle > 15*time.Millisecond {
			return
		}
		time.Sleep(3 * time.Millisecond)
	}
}

type vEngine struct {
	consensus.Engine
	v *vChain
}

func (e *vEngine) Seal(chain consensus.ChainReader, block types.IBlock, diff *big.Int, div uint64, results chan<- types.IBlock, stop <-chan struct{}) error {
	if e.v.at("seal") {
		return errors.New("cannot seal")
	}
	err := e.Engine.Seal(chain, block, diff, div, results, stop)
	if err == nil && block.Coinbase() == vDefault {
		e.v.mu.Lock()
		if g := e.v.blocks[block.IHeader().SealHash()].gen; g > e.v.sealed {
			e.v.sealed = g
		}
		e.v.mu.Unlock()
	}
	return err
}

func TestVerifC19Miner(t *testing.T) {
	h := kit.New("C19", "Miner")
	defer h.Done()
	steps := kit.Tier(3, 4)
	maxInj := 2
	nth := kit.Tier(2, 3)
	h.Bound("calls in a script", steps)
	h.Bound("events placed in the miner's own calls", maxInj)
	ops := []string{"start", "stop", "new head", "get", "get other", "submit"}
	var points []vInj
	for n := 0; n < nth; n++ {
		for _, c := range []string{"create", "tip", "syncing", "syncing at a new head", "insert", "seal"} {
			for _, e := range []string{"fail", "new head", "start", "stop"} {
				if c == "tip" && e == "fail" || (c == "tip" || c == "insert" || c == "syncing at a new head") && n > 1 {
					continue
				}
				points = append(points, vInj{c, n, e})
			}
		}
	}
	// The scripts of full length are run without events, shorter ones with events (pairs of events
	// only at the first calls)
	run := func(c *kit.Case, script []string, inj []vInj, hurry bool) {
		if atomic.LoadInt32(&vHung) > 40 {
			h.Abort()
		}
		calc := &consensus.EthDifficultyCalculator{AdjustmentCutoff: 7, AdjustmentFactor: 512, MinimumDifficulty: big.NewInt(3)}
		ctx := &service.ServiceContext{}
		ctx.SetTimestamp(time.Now())
		v := &vChain{tip: 10, blocks: map[common.Hash]vBlk{}, calls: map[string]int{}, inj: inj}
		eng := &vEngine{doublesha256.New(calc, true, nil), v}
		m := New(ctx, v, eng)
		v.m = m
		solve := func(hash common.Hash) (types.IBlock, uint64) {
			v.mu.Lock()
			b := v.blocks[hash].b
			v.mu.Unlock()
			for n := uint64(0); ; n++ {
				if eng.VerifySeal(nil, b.WithMingResult(n, common.Hash{}, nil).IHeader(), big.NewInt(3)) == nil {
					return b, n
				}
			}
		}
		get := func(what string, a *account.Address) *consensus.MiningWork {
			var w *consensus.MiningWork
			var err error
			if !v.do(what, func() { w, err = m.GetWork(a) }) {
				c.Fail("hangs "+what, "%s never returns (script %v, events %v)", what, script, inj)
			}
			if err != nil {
				return nil
			}
			v.mu.Lock()
			b, ok := v.blocks[w.HeaderHash]
			v.mu.Unlock()
			want := vDefault
			if a != nil {
				want = *a
			}
			c.Check(ok, "unknown work", "%s gives work which was never created", what)
			c.Check(b.b.Coinbase() == want, "coinbase", "%s gives work for %v", what, b.b.Coinbase())
			c.Check(b.b.NumberU64() == w.Number, "number", "%s gives number %d for block %d", what, w.Number, b.b.NumberU64())
			return w
		}
		mining := false
		var work *consensus.MiningWork
		var workGen uint64
		for _, op := range script {
			switch op {
			case "start", "stop":
				mining = op == "start"
				if !v.do(op, func() { m.SetMining(mining) }) {
					c.Fail("hangs "+op, "%s never returns (script %v, events %v)", op, script, inj)
				}
			case "new head":
				if !v.do(op, v.head) {
					c.Fail("hangs "+op, "%s never returns (script %v, events %v)", op, script, inj)
				}
			case "get", "get other":
				var a *account.Address
				if op == "get other" {
					a = &vElse
				}
				if w := get(op, a); w != nil {
					work = w
					v.mu.Lock()
					workGen = v.blocks[w.HeaderHash].gen
					cur := v.tip
					v.mu.Unlock()
					if len(inj) == 0 && !hurry {
						c.Check(workGen == cur, "stale", "%s gives work on head %d though the head is %d (script %v)", op, workGen, cur, script)
					}
				}
			case "submit":
				if work == nil {
					break
				}
				b, n := solve(work.HeaderHash)
				v.mu.Lock()
				before := len(v.inserted)
				cur := v.tip
				v.mu.Unlock()
				var ok bool
				want := mining && workGen == cur
				superseded := false
				end := time.Now().Add(vPatience)
				for first := true; first || !ok && want && len(inj) == 0 && !hurry && time.Now().Before(end); first = false {
					// work just handed out reaches the engine a moment later
					if !first {
						time.Sleep(2 * time.Millisecond)
					}
					// newer work of the same miner on the same head supersedes
					if now, err := eng.GetWork(b.Coinbase()); err == nil && now.HeaderHash != work.HeaderHash {
						want, superseded = false, true
					}
					if !v.do(op, func() { ok = m.SubmitWork(n, work.HeaderHash, common.Hash{}, nil) }) {
						c.Fail("hangs "+op, "%s never returns (script %v, events %v)", op, script, inj)
					}
				}
				if len(inj) == 0 && !hurry {
					c.Check(ok == want || superseded, "submit", "submission answered %v, expected %v (mining %v, work on head %d of %d, script %v)", ok, want, mining, workGen, cur, script)
					v.quiet()
					v.mu.Lock()
					got := v.inserted[before:]
					v.mu.Unlock()
					if ok {
						end := time.Now().Add(vPatience)
						for len(got) == 0 && time.Now().Before(end) {
							time.Sleep(time.Millisecond)
							v.mu.Lock()
							got = v.inserted[before:]
							v.mu.Unlock()
						}
					}
					c.Check((len(got) == 1) == ok, "insert", "submission answered %v but %d blocks were inserted (script %v)", ok, len(got), script)
					if ok {
						c.Check(got[0].IHeader().SealHash() == b.IHeader().SealHash() && got[0].IHeader().GetNonce() == n, "insert", "another block was inserted")
					}
				}
			}
			if !hurry {
				v.quiet()
			}
			c.Step()
		}
		// if mining is on, the engine must get work on the head, whatever failed before
		on := mining
		for _, i := range inj {
			on = on && i.event != "stop" && i.call != "syncing at a new head"
		}
		for end := time.Now().Add(vPatience); on; {
			v.mu.Lock()
			ok := v.sealed == v.tip
			hung := len(v.hung)
			v.mu.Unlock()
			if ok || hung > 0 {
				break
			}
			if time.Now().After(end) {
				c.Fail("no sealing", "mining is on but no work on the head ever reaches the engine (script %v, events %v)", script, inj)
			}
			time.Sleep(2 * time.Millisecond)
		}
		// the end: mining on, a new head
		if !v.do("start", func() { m.SetMining(true) }) {
			c.Fail("hangs start", "starting never returns (script %v, events %v)", script, inj)
		}
		if len(inj) > 0 {
			v.quiet()
		}
		v.mu.Lock()
		v.inj = nil
		v.mu.Unlock()
		v.wg.Wait() // every event has returned or is noted as hanging
		if !v.do("start", func() { m.SetMining(true) }) {
			c.Fail("hangs start", "starting never returns (script %v, events %v)", script, inj)
		}
		if !v.do("new head", v.head) {
			c.Fail("hangs new head", "a new head never returns (script %v, events %v)", script, inj)
		}
		end := time.Now().Add(vPatience)
		for {
			v.mu.Lock()
			ok := v.created == v.tip
			hung := append([]string{}, v.hung...)
			v.mu.Unlock()
			if len(hung) > 0 {
				c.Fail("hangs "+hung[0], "%v never returned (script %v, events %v)", hung, script, inj)
			}
			if ok {
				break
			}
			if time.Now().After(end) {
				c.Fail("no work on the new head", "no block is created on a new head any more (script %v, events %v)", script, inj)
			}
			time.Sleep(2 * time.Millisecond)
		}
		v.quiet()
		for _, a := range []*account.Address{nil, &vElse} {
			// work which is created on demand reaches the engine a moment later
			get("get", a)
			v.quiet()
			var b types.IBlock
			var n uint64
			var n0 int
			ok := false
			for end := time.Now().Add(vPatience); !ok; {
				w := get("get", a)
				if w == nil {
					c.Fail("no work", "no work is handed out (script %v, events %v)", script, inj)
				}
				v.mu.Lock()
				gen, cur := v.blocks[w.HeaderHash].gen, v.tip
				n0 = len(v.inserted)
				v.mu.Unlock()
				c.Check(gen == cur, "stale at the end", "work on head %d is handed out long after head %d (script %v, events %v)", gen, cur, script, inj)
				b, n = solve(w.HeaderHash)
				if !v.do("submit", func() { ok = m.SubmitWork(n, w.HeaderHash, common.Hash{}, nil) }) {
					c.Fail("hangs submit", "a submission never returns (script %v, events %v)", script, inj)
				}
				if !ok && time.Now().After(end) {
					c.Fail("right solution refused", "a right solution of the work just handed out is refused (script %v, events %v)", script, inj)
				}
				if !ok {
					time.Sleep(2 * time.Millisecond)
				}
			}
			end := time.Now().Add(vPatience)
			for {
				v.mu.Lock()
				got := v.inserted[n0:]
				v.mu.Unlock()
				if len(got) > 0 {
					last := got[len(got)-1]
					c.Check(last.IHeader().SealHash() == b.IHeader().SealHash() && last.IHeader().GetNonce() == n, "insert", "another block was inserted")
					break
				}
				if time.Now().After(end) {
					c.Fail("solution lost", "an accepted solution never reaches the chain (script %v, events %v)", script, inj)
				}
				time.Sleep(time.Millisecond)
			}
			c.Step()
		}
		m.Stop()
		eng.Close()
		c.State(fmt.Sprint(script, inj, hurry))
	}
	h.Explore("scripts", kit.Opt{MaxDev: -1, Workers: 100}, func(c *kit.Case) {
		hurry := c.Choose(2, "hurry") == 1
		var script []string
		for i := 0; i < steps+1; i++ {
			script = append(script, ops[c.Choose(len(ops), "op")])
		}
		run(c, script, nil, hurry)
	})
	h.Explore("events", kit.Opt{MaxDev: -1, Workers: 400}, func(c *kit.Case) {
		var inj []vInj
		n := 1 + c.Choose(maxInj, "events")
		script := []string{"start"}
		for i := 0; i < steps-n; i++ {
			script = append(script, ops[c.Choose(len(ops), "op")])
		}
		a := c.Choose(len(points), "event")
		inj = append(inj, points[a])
		if n > 1 {
			inj = append(inj, points[c.Choose(len(points), "second event")])
			if points[a].nth > 0 && kit.Quick() {
				c.Stop()
			}
		}
		run(c, script, inj, c.Choose(2, "hurry") == 1)
	})
}

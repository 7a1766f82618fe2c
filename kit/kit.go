// Package zzverif is the exhaustive explorer shared by all harnesses. It is put
// into the module through go's -overlay; it is never part of /repo.
//
// An execution is a function of a sequence of choices. Explore enumerates every
// sequence (depth-first over the choice tree, by re-execution), optionally
// bounding the number of deviations (non-zero answers of Dev) and merging states
// (Visit). Every failing execution is re-executed before it is believed and is
// written as a replay file holding its choice sequence.
package zzverif

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type point struct {
	N      int
	Choice int
	Dev    bool
}

type failure struct {
	sig, msg string
}

type prune struct{}

// Case is one execution.
type Case struct {
	h      *Harness
	ph     *phase
	prefix []point
	trail  []point
	devs   int
	log    []string
	quiet  bool
	aux    map[string]interface{}
}

type phase struct {
	name     string
	maxDev   int
	seen     sync.Map // key -> *int64 (best remaining depth)
	execs    int64
	pruned   int64
	diverged int64
	complete bool
}

// Violation is what is written to a replay file.
type Violation struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Phase    string   `json:"phase"`
	Choices  []int    `json:"choices"`
	Sig      string   `json:"signature"`
	Message  string   `json:"message"`
	Log      []string `json:"operations"`
}

// Fragment is one harness's contribution to the evidence file.
type Fragment struct {
	Property    string                 `json:"property"`
	Harness     string                 `json:"harness"`
	Executions  int64                  `json:"executions"`
	States      int64                  `json:"states"`
	Transitions int64                  `json:"transitions"`
	Distinct    int64                  `json:"distinct"`
	Nontrivial  int64                  `json:"nontrivial"`
	Exhaustive  bool                   `json:"exhaustive"`
	Bounds      map[string]interface{} `json:"bounds"`
	Samples     []string               `json:"samples"`
	Violations  []Violation            `json:"violations"`
	Notes       []string               `json:"notes"`
	Done        bool                   `json:"done"`
	WallS       float64                `json:"wall_s"`
}

// Harness collects the results of one test function.
type Harness struct {
	Prop, Name string
	start      time.Time
	deadline   time.Time
	mu         sync.Mutex
	frag       Fragment
	distinct   sync.Map
	nDistinct  int64
	states     sync.Map
	nStates    int64
	trans      int64
	sigs       map[string]int
	replay     *Violation
	outDir     string
	stop       int32
	closed     bool
}

func Quick() bool { return os.Getenv("VERIF_TIER") != "thorough" }

// Tier returns q on the quick tier and th on the thorough tier.
func Tier(q, th int) int {
	if Quick() {
		return q
	}
	return th
}

func New(prop, name string) *Harness {
	h := &Harness{Prop: prop, Name: name, start: time.Now(), sigs: map[string]int{}}
	h.outDir = os.Getenv("VERIF_OUT")
	if h.outDir == "" {
		h.outDir = os.TempDir()
	}
	budget := Tier(240, 1500)
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			budget = v
		}
	}
	h.deadline = h.start.Add(time.Duration(budget) * time.Second)
	h.frag = Fragment{Property: prop, Harness: name, Exhaustive: true, Bounds: map[string]interface{}{}}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			v := new(Violation)
			if json.Unmarshal(b, v) == nil {
				h.replay = v
			}
		}
	}
	return h
}

func (h *Harness) Bound(k string, v interface{}) {
	h.mu.Lock()
	h.frag.Bounds[k] = v
	h.mu.Unlock()
}

func (h *Harness) Note(f string, a ...interface{}) {
	h.mu.Lock()
	if len(h.frag.Notes) < 50 {
		h.frag.Notes = append(h.frag.Notes, fmt.Sprintf(f, a...))
	}
	h.mu.Unlock()
}

func (h *Harness) expired() bool { return time.Now().After(h.deadline) }

// Opt are the options of Explore.
type Opt struct {
	MaxDev  int // bound on non-zero Dev answers; <0: none
	Workers int // 0: number of processors
	Hang    time.Duration
}

// Explore runs body for every choice sequence.
func (h *Harness) Explore(name string, o Opt, body func(c *Case)) {
	if h.replay != nil {
		if h.replay.Harness != h.Name || h.replay.Phase != name {
			return
		}
		ph := &phase{name: name, maxDev: -1}
		pre := make([]point, len(h.replay.Choices))
		for i, c := range h.replay.Choices {
			pre[i] = point{N: -1, Choice: c}
		}
		c := &Case{h: h, ph: ph, prefix: pre, quiet: true}
		if f := c.exec(body); f != nil {
			h.record(c, f)
		}
		fmt.Printf("replay operations:\n  %s\n", strings.Join(c.log, "\n  "))
		return
	}
	if atomic.LoadInt32(&h.stop) != 0 {
		h.mu.Lock()
		h.frag.Exhaustive = false
		h.mu.Unlock()
		return
	}
	ph := &phase{name: name, maxDev: o.MaxDev}
	w := o.Workers
	if w <= 0 {
		w = runtime.NumCPU()
	}
	hang := o.Hang
	if hang == 0 {
		hang = 100 * time.Second
	}
	var (
		mu     sync.Mutex
		cond   = sync.NewCond(&mu)
		stack  = [][]point{nil}
		active int
		cut    bool
		wg     sync.WaitGroup
	)
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && active > 0 && !cut {
					cond.Wait()
				}
				if cut || len(stack) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				pre := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()

				c := &Case{h: h, ph: ph, prefix: pre}
				timer := time.AfterFunc(hang, func() { h.hung(c, pre) })
				f := c.exec(body)
				timer.Stop()
				atomic.AddInt64(&ph.execs, 1)
				if f != nil {
					h.confirm(c, f, body)
				}
				var push [][]point
				if f == nil || f.sig != "" {
					devs := 0
					for i := 0; i < len(c.trail); i++ {
						p := c.trail[i]
						if i >= len(pre) {
							for alt := p.N - 1; alt >= 1; alt-- {
								if p.Dev && ph.maxDev >= 0 && devs+1 > ph.maxDev {
									continue
								}
								n := make([]point, i+1)
								copy(n, c.trail[:i])
								n[i] = point{N: p.N, Choice: alt, Dev: p.Dev}
								push = append(push, n)
							}
						}
						if p.Dev && p.Choice != 0 {
							devs++
						}
					}
				}
				mu.Lock()
				// push in reverse so that the shallowest alternative is explored last (DFS order)
				stack = append(stack, push...)
				active--
				if h.expired() || atomic.LoadInt32(&h.stop) != 0 {
					if len(stack) > 0 || active > 0 {
						cut = true
					}
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.frag.Executions += ph.execs
	if cut {
		h.frag.Exhaustive = false
		h.frag.Notes = append(h.frag.Notes, "phase "+name+" stopped before it was complete")
	}
	if ph.diverged > 0 {
		h.frag.Exhaustive = false
		h.frag.Notes = append(h.frag.Notes, fmt.Sprintf("phase %s: %d executions diverged while replaying a prefix", name, ph.diverged))
	}
	h.frag.Bounds["phase "+name] = map[string]interface{}{"executions": ph.execs, "merged": ph.pruned, "max_deviations": o.MaxDev, "complete": !cut}
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("%s %s/%s: executions=%d merged=%d diverged=%d complete=%v t=%.1fs\n", h.Prop, h.Name, name, ph.execs, ph.pruned, ph.diverged, !cut, time.Since(h.start).Seconds())
	}
}

func (h *Harness) hung(c *Case, pre []point) {
	buf := make([]byte, 1<<18)
	n := runtime.Stack(buf, true)
	h.mu.Lock()
	log := append([]string{}, c.log...)
	h.mu.Unlock()
	v := Violation{Property: h.Prop, Harness: h.Name, Phase: c.ph.name, Sig: "hang", Message: "execution did not end\n" + string(buf[:n]), Log: log}
	for _, p := range pre {
		v.Choices = append(v.Choices, p.Choice)
	}
	h.mu.Lock()
	h.frag.Violations = append(h.frag.Violations, v)
	h.mu.Unlock()
	h.flush(false)
	fmt.Printf("HANG %s %s\n", h.Prop, h.Name)
	os.Exit(3)
}

func (c *Case) exec(body func(c *Case)) (f *failure) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *failure:
				f = x
			case prune:
				f = nil
			case divergence:
				atomic.AddInt64(&c.ph.diverged, 1)
				f = &failure{sig: ""}
			default:
				st := string(debug.Stack())
				f = &failure{sig: "panic:" + panicSite(st), msg: fmt.Sprintf("panic: %v\n%s", r, st)}
			}
		}
	}()
	body(c)
	return nil
}

type divergence struct{}

// panicSite names the topmost repository function of a panic's stack.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "QuarkChain/goquarkchain/") && !strings.Contains(l, "zzverif") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/QuarkChain/goquarkchain/")
		}
	}
	return "?"
}

// confirm re-executes a failing case; a violation is believed only when every
// re-execution fails the same way.
func (h *Harness) confirm(c *Case, f *failure, body func(c *Case)) {
	if f.sig == "" {
		return
	}
	h.mu.Lock()
	n := h.sigs[f.sig]
	h.sigs[f.sig] = n + 1
	h.mu.Unlock()
	if n >= 3 {
		return // enough instances of this signature
	}
	for i := 0; i < 4; i++ {
		c2 := &Case{h: h, ph: c.ph, prefix: append([]point{}, c.trail...), quiet: true}
		f2 := c2.exec(body)
		if f2 == nil || f2.sig != f.sig {
			h.Note("a failure did not reproduce and was dismissed: %s %.300s (choices %v)", f.sig, f.msg, c.choices())
			h.mu.Lock()
			h.sigs[f.sig]--
			h.mu.Unlock()
			return
		}
	}
	h.record(c, f)
}

func (c *Case) choices() []int {
	r := []int{}
	for _, p := range c.trail {
		r = append(r, p.Choice)
	}
	return r
}

func (h *Harness) record(c *Case, f *failure) {
	v := Violation{Property: h.Prop, Harness: h.Name, Phase: c.ph.name, Choices: c.choices(), Sig: f.sig, Message: f.msg, Log: c.log}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.frag.Violations = append(h.frag.Violations, v)
	if len(h.frag.Violations) >= 12 {
		atomic.StoreInt32(&h.stop, 1)
	}
}

// Choose enumerates 0..n-1.
func (c *Case) Choose(n int, label string) int { return c.choose(n, label, false) }

// Points executes body once with every choice 0 and returns the number of choices it asked for.
func Points(body func(c *Case)) int {
	h := &Harness{stop: 1}
	c := &Case{h: h, ph: &phase{}, quiet: true}
	c.exec(body)
	return len(c.trail)
}

// Dev enumerates 0..n-1, where every non-zero answer is a deviation.
func (c *Case) Dev(n int, label string) int { return c.choose(n, label, true) }

// Bool enumerates false, true.
func (c *Case) Bool(label string) bool { return c.choose(2, label, false) == 1 }

func (c *Case) choose(n int, label string, dev bool) int {
	if n <= 0 {
		panic(prune{})
	}
	i := len(c.trail)
	p := point{N: n, Dev: dev}
	if i < len(c.prefix) {
		q := c.prefix[i]
		if q.N >= 0 && (q.N != n || q.Dev != dev) || q.Choice >= n {
			panic(divergence{})
		}
		p.Choice = q.Choice
	}
	c.trail = append(c.trail, p)
	return p.Choice
}

// Abort ends the exploration after the executions now running (enough failures were seen).
func (h *Harness) Abort() { atomic.StoreInt32(&h.stop, 1) }

// Frontier tells whether the execution is beyond the replayed prefix.
func (c *Case) Frontier() bool { return len(c.trail) >= len(c.prefix) }

// Visit merges states: the execution ends when key was reached before with at
// least as much remaining depth.
func (c *Case) Visit(key string, remaining int) {
	if !c.Frontier() || c.quiet {
		return
	}
	k := sha256.Sum256([]byte(key))
	v, loaded := c.ph.seen.LoadOrStore(k, remaining)
	if !loaded {
		c.h.state(k)
		return
	}
	if v.(int) >= remaining {
		atomic.AddInt64(&c.ph.pruned, 1)
		panic(prune{})
	}
	c.ph.seen.Store(k, remaining)
}

// State counts a state without merging.
func (c *Case) State(key string) {
	if c.Frontier() && !c.quiet {
		c.h.state(sha256.Sum256([]byte(key)))
	}
}

func (h *Harness) state(k [32]byte) {
	var s [16]byte
	copy(s[:], k[:])
	if _, ok := h.states.LoadOrStore(s, struct{}{}); !ok {
		atomic.AddInt64(&h.nStates, 1)
	}
}

// Step counts a transition of the system under check.
func (c *Case) Step() {
	if c.Frontier() && !c.quiet {
		atomic.AddInt64(&c.h.trans, 1)
	}
}

// Outcome counts distinct non-trivial outcomes.
func (c *Case) Outcome(format string, a ...interface{}) {
	if c.quiet {
		return
	}
	c.h.outcome(fmt.Sprintf(format, a...))
}

func (h *Harness) outcome(s string) {
	k := sha256.Sum256([]byte(s))
	var q [16]byte
	copy(q[:], k[:])
	if _, ok := h.distinct.LoadOrStore(q, struct{}{}); !ok {
		n := atomic.AddInt64(&h.nDistinct, 1)
		if n <= 3 || n == 100 || n == 1000 {
			h.mu.Lock()
			if len(s) > 600 {
				s = s[:600]
			}
			h.frag.Samples = append(h.frag.Samples, s)
			h.mu.Unlock()
		}
	}
}

// Logf records an operation for the replay file.
func (c *Case) Logf(format string, a ...interface{}) {
	c.h.mu.Lock()
	c.log = append(c.log, fmt.Sprintf(format, a...))
	c.h.mu.Unlock()
}

// Log returns the operations recorded so far.
func (c *Case) Log() []string { return c.log }

// Fail ends the execution with a violation. sig identifies the kind of failure.
func (c *Case) Fail(sig, format string, a ...interface{}) {
	panic(&failure{sig: sig, msg: fmt.Sprintf(format, a...)})
}

// Check fails unless ok.
func (c *Case) Check(ok bool, sig, format string, a ...interface{}) {
	if !ok {
		c.Fail(sig, format, a...)
	}
}

// Stop ends the execution without a verdict.
func (c *Case) Stop() { panic(prune{}) }

// Try runs f and returns the panic it raised, if any, with its site.
func Try(f func()) (site string, val interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case *failure, prune, divergence:
				panic(r)
			}
			val = r
			site = panicSite(string(debug.Stack()))
		}
	}()
	f()
	return "", nil
}

// Done writes the fragment.
func (h *Harness) Done() {
	if r := recover(); r != nil { // deferred: a panic outside an execution is not an end
		h.flush(false)
		panic(r)
	}
	h.flush(true)
}

func (h *Harness) flush(done bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.frag.Done = done
	h.frag.States = atomic.LoadInt64(&h.nStates)
	h.frag.Transitions = atomic.LoadInt64(&h.trans)
	h.frag.Distinct = atomic.LoadInt64(&h.nDistinct)
	h.frag.WallS = time.Since(h.start).Seconds()
	sort.Slice(h.frag.Violations, func(i, j int) bool {
		return len(h.frag.Violations[i].Choices) < len(h.frag.Violations[j].Choices)
	})
	b, _ := json.MarshalIndent(h.frag, "", " ")
	name := filepath.Join(h.outDir, "frag-"+h.Prop+"-"+h.Name+".json")
	_ = os.WriteFile(name, b, 0644)
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("%s %s: exec=%d states=%d trans=%d distinct=%d viol=%d exhaustive=%v %.1fs\n", h.Prop, h.Name, h.frag.Executions, h.frag.States, h.frag.Transitions, h.frag.Distinct, len(h.frag.Violations), h.frag.Exhaustive, h.frag.WallS)
		for _, v := range h.frag.Violations {
			fmt.Printf("  VIOL %s [%s] %.1500s\n     ops: %s\n", v.Sig, v.Phase, v.Message, strings.Join(v.Log, "; "))
		}
		for _, n := range h.frag.Notes {
			fmt.Printf("  NOTE %.400s\n", n)
		}
	}
}

// Hex is a short helper for messages.
func Hex(b []byte) string { return hex.EncodeToString(b) }

// Devs tells how many deviations the execution has taken so far.
func (c *Case) Devs() int {
	n := 0
	for _, p := range c.trail {
		if p.Dev && p.Choice != 0 {
			n++
		}
	}
	return n
}

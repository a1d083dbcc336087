package main

import (
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vimagination.zapto.org/ics"
)

// A suite is a bounded space of executions. Run draws every decision from its
// Ctx; the explorer enumerates all decision sequences: decisions made with
// Choose are enumerated completely, decisions made with Dev may take a
// non-default alternative at most Bound times per execution.
type suite struct {
	Name  string
	Bound int
	About string
	Run   func(*Ctx)

	Serial bool   // one execution at a time
	TZ     string // zone of the process, if not the usual one
}

type point struct {
	n, c uint32
	dev  bool
}

type skipExec struct{}

type failure struct {
	Sig     string // short stable identification of what failed
	Detail  string // expected/actual, input
	Suite   string
	Choices []uint32
	Repeat  string
}

// Ctx is the decision source and recorder of one execution.
type Ctx struct {
	prefix []uint32
	pts    []point
	cost   int
	bound  int
	fail   *failure
	note   string
	want   bool // a written-out sample is wanted
	traces int  // calls into the implementation
	hseed  maphash.Seed
	hashes map[uint64]struct{}

	both   bool                      // judge also encodes what was accepted
	onText func(*Ctx, string)        // replaces judge in a borrowed suite
	onCal  func(*Ctx, *ics.Calendar) // replaces checkObject in a borrowed suite
}

func (c *Ctx) at(n int, dev bool) int {
	if n <= 0 {
		panic("harness: empty choice")
	}
	i := len(c.pts)
	var v uint32
	if i < len(c.prefix) {
		v = c.prefix[i]
		if int(v) >= n {
			panic(fmt.Sprintf("harness: choice %d out of %d at %d", v, n, i))
		}
	}
	c.pts = append(c.pts, point{uint32(n), v, dev})
	if dev && v != 0 {
		c.cost++
	}
	return int(v)
}

// Choose enumerates 0..n-1 completely.
func (c *Ctx) Choose(n int) int { return c.at(n, false) }

// Dev enumerates 0..n-1, where anything but 0 uses up one deviation.
func (c *Ctx) Dev(n int) int { return c.at(n, true) }

// Bool is a complete two-way choice.
func (c *Ctx) Bool() bool { return c.at(2, false) == 1 }

// Skip abandons an execution that is outside the space.
func (c *Ctx) Skip() { panic(skipExec{}) }

// Fail records a property violation (the first one counts).
func (c *Ctx) Fail(sig, format string, args ...any) {
	if c.fail == nil {
		c.fail = &failure{Sig: sig, Detail: fmt.Sprintf(format, args...)}
	}
}

// Note writes out the execution when a sample is wanted.
func (c *Ctx) Note(format string, args ...any) {
	if c.want {
		c.note = fmt.Sprintf(format, args...)
	}
}

// Outcome counts distinct observed outcomes.
func (c *Ctx) Outcome(b ...string) {
	if len(c.hashes) >= 1<<17 {
		return
	}
	var h maphash.Hash
	h.SetSeed(c.hseed)
	for _, s := range b {
		h.WriteString(s)
		h.WriteByte(0)
	}
	c.hashes[h.Sum64()] = struct{}{}
}

type suiteResult struct {
	Name       string   `json:"suite"`
	About      string   `json:"about"`
	Bound      int      `json:"deviation_bound"`
	Executions int64    `json:"executions"`
	Skipped    int64    `json:"skipped"`
	States     int64    `json:"states"`
	Trans      int64    `json:"transitions"`
	Traces     int64    `json:"impl_calls"`
	MaxDepth   int      `json:"max_depth"`
	Outcomes   int      `json:"distinct_outcomes"`
	Exhaustive bool     `json:"exhaustive"`
	WallS      float64  `json:"wall_s"`
	Samples    []string `json:"samples,omitempty"`
}

// task is the set of executions base+[alt], alt in [from,to).
type task struct {
	base     []uint32
	from, to uint32
	root     bool
}

type explorer struct {
	s        *suite
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []task
	idle     int
	workers  int
	stop     atomic.Bool
	stopTime atomic.Bool
	hungry   atomic.Int32
	fails    []*failure
	sigs     map[string]int
	res      suiteResult
	deadline time.Time
	hseed    maphash.Seed
	known    func(*failure) bool
	knownHit map[string]int
}

const (
	maxFails    = 12
	harnessExit = 3
)

// journal slots let the supervising process see which execution a worker is in.
type journal struct{ mem []byte }

const slotSize = 4096

func (j *journal) begin(w int, suiteID uint32, ch []uint32) {
	if j == nil {
		return
	}
	b := j.mem[w*slotSize : (w+1)*slotSize]
	seq := binary.LittleEndian.Uint64(b)
	binary.LittleEndian.PutUint32(b[8:], suiteID)
	n := len(ch)
	if n > 900 {
		n = 900
	}
	binary.LittleEndian.PutUint32(b[12:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(b[16+4*i:], ch[i])
	}
	binary.LittleEndian.PutUint64(b, (seq|1)+2) // odd: active
}

func (j *journal) end(w int) {
	if j == nil {
		return
	}
	b := j.mem[w*slotSize:]
	seq := binary.LittleEndian.Uint64(b)
	binary.LittleEndian.PutUint64(b, (seq+1)&^1)
}

func runOnce(s *suite, c *Ctx) (skipped bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skipExec); ok {
				skipped = true
				return
			}
			if m, ok := r.(string); !ok || !strings.HasPrefix(m, "harness:") {
				// panics in the implementation are caught at the call, so this
				// is a result the comparison could not digest
				c.Fail("malformed result", "comparing the result panicked: %v\n%s", r, debug.Stack())
				return
			}
			fmt.Fprintf(os.Stderr, "harness panic in %s %v: %v\n%s\n", s.Name, choicesOf(c), r, debug.Stack())
			os.Exit(harnessExit)
		}
	}()
	s.Run(c)
	return
}

func choicesOf(c *Ctx) []uint32 {
	ch := make([]uint32, len(c.pts))
	for i, p := range c.pts {
		ch[i] = p.c
	}
	return ch
}

func trimZeros(ch []uint32) []uint32 {
	for len(ch) > 0 && ch[len(ch)-1] == 0 {
		ch = ch[:len(ch)-1]
	}
	return ch
}

func explore(s *suite, id uint32, j *journal, deadline time.Time, known func(*failure) bool) (suiteResult, []*failure, map[string]int) {
	x := &explorer{s: s, deadline: deadline, hseed: maphash.MakeSeed(), sigs: map[string]int{}, known: known, knownHit: map[string]int{}}
	x.cond = sync.NewCond(&x.mu)
	x.workers = runtime.GOMAXPROCS(0)
	if *fWork > 0 {
		x.workers = *fWork
	}
	if s.Serial {
		x.workers = 1
	}
	x.queue = []task{{root: true, to: 1}}
	x.res = suiteResult{Name: s.Name, About: s.About, Bound: s.Bound, States: 1}
	start := time.Now()
	all := make(map[uint64]struct{})
	var wg sync.WaitGroup
	for w := 0; w < x.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			h := x.worker(w, id, j)
			x.mu.Lock()
			for k := range h {
				all[k] = struct{}{}
			}
			x.mu.Unlock()
		}(w)
	}
	wg.Wait()
	x.res.Outcomes = len(all)
	x.res.WallS = time.Since(start).Seconds()
	x.res.Exhaustive = !x.stop.Load()
	return x.res, x.fails, x.knownHit
}

func (x *explorer) worker(w int, id uint32, j *journal) map[uint64]struct{} {
	var local []task
	var r suiteResult
	hashes := make(map[uint64]struct{})
	ctx := &Ctx{bound: x.s.Bound, hseed: x.hseed, hashes: hashes}
	iter := 0
	for {
		if len(local) == 0 {
			t, ok := x.take()
			if !ok {
				break
			}
			local = append(local, t)
		}
		// take one execution from the most recent task
		t := &local[len(local)-1]
		var prefix []uint32
		if t.root {
			local = local[:len(local)-1]
		} else {
			prefix = make([]uint32, len(t.base)+1)
			copy(prefix, t.base)
			prefix[len(t.base)] = t.from
			t.from++
			if t.from >= t.to {
				local = local[:len(local)-1]
			}
		}
		ctx.prefix, ctx.pts, ctx.cost, ctx.fail, ctx.note, ctx.traces = prefix, ctx.pts[:0], 0, nil, "", 0
		ctx.want = r.Executions == 40 || r.Executions == 4000 || (w == 0 && r.Executions == 0)
		j.begin(w, id, prefix)
		skipped := runOnce(x.s, ctx)
		j.end(w)
		r.Executions++
		if skipped {
			r.Skipped++
		}
		if ctx.note != "" && len(r.Samples) < 2 {
			r.Samples = append(r.Samples, ctx.note)
		}
		r.Traces += int64(ctx.traces)
		if len(ctx.pts) > r.MaxDepth {
			r.MaxDepth = len(ctx.pts)
		}
		if len(prefix) > 0 {
			r.States++
			r.Trans++
		}
		// children
		cost := 0
		for i, p := range ctx.pts {
			if i >= len(prefix) {
				r.States++
				r.Trans++
				if p.n > 1 && (!p.dev || cost < x.s.Bound) {
					ch := make([]uint32, i)
					for k := 0; k < i; k++ {
						ch[k] = ctx.pts[k].c
					}
					local = append(local, task{base: ch, from: 1, to: p.n})
				}
			}
			if p.dev && p.c != 0 {
				cost++
			}
		}
		if ctx.fail != nil && !skipped {
			f := ctx.fail
			f.Suite = x.s.Name
			f.Choices = trimZeros(choicesOf(ctx))
			rep := 0
			for k := 0; k < 5; k++ {
				c2 := &Ctx{bound: x.s.Bound, hseed: x.hseed, hashes: map[uint64]struct{}{}, prefix: f.Choices}
				j.begin(w, id, f.Choices)
				runOnce(x.s, c2)
				j.end(w)
				if c2.fail != nil && c2.fail.Sig == f.Sig {
					rep++
				}
			}
			f.Repeat = fmt.Sprintf("%d/5", rep)
			x.report(f)
		}
		iter++
		if x.hungry.Load() > 0 && len(local) > 0 && iter%8 == 0 {
			local = x.share(local)
		}
		if iter%64 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
			x.stop.Store(true)
		}
		if x.stop.Load() {
			break
		}
	}
	if x.stop.Load() {
		x.mu.Lock()
		x.cond.Broadcast()
		x.mu.Unlock()
	}
	x.mu.Lock()
	x.res.Executions += r.Executions
	x.res.Skipped += r.Skipped
	x.res.States += r.States
	x.res.Trans += r.Trans
	x.res.Traces += r.Traces
	if r.MaxDepth > x.res.MaxDepth {
		x.res.MaxDepth = r.MaxDepth
	}
	if len(x.res.Samples) < 4 {
		x.res.Samples = append(x.res.Samples, r.Samples...)
	}
	x.mu.Unlock()
	return hashes
}

func (x *explorer) report(f *failure) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.known != nil && x.known(f) {
		x.knownHit[f.Sig]++
		return
	}
	x.sigs[f.Sig]++
	if x.sigs[f.Sig] > 1 {
		// keep the smallest example per signature
		for i, o := range x.fails {
			if o.Sig == f.Sig && len(f.Choices) < len(o.Choices) {
				x.fails[i] = f
			}
		}
	} else {
		x.fails = append(x.fails, f)
	}
	if len(x.fails) >= maxFails || x.sigs[f.Sig] > 40 {
		x.stop.Store(true)
	}
}

func (x *explorer) take() (task, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.idle++
	x.hungry.Add(1)
	defer x.hungry.Add(-1)
	for len(x.queue) == 0 {
		if x.idle == x.workers || x.stop.Load() {
			x.cond.Broadcast()
			return task{}, false
		}
		x.cond.Wait()
	}
	x.idle--
	t := x.queue[len(x.queue)-1]
	x.queue = x.queue[:len(x.queue)-1]
	return t, true
}

// share gives away half of the oldest (largest) work.
func (x *explorer) share(local []task) []task {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(local) > 1 {
		n := len(local) / 2
		x.queue = append(x.queue, local[:n]...)
		local = append([]task(nil), local[n:]...)
	} else if t := &local[0]; !t.root && t.to-t.from > 1 {
		mid := t.from + (t.to-t.from)/2
		x.queue = append(x.queue, task{base: t.base, from: mid, to: t.to})
		t.to = mid
	}
	x.cond.Broadcast()
	return local
}

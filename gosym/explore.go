package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Harness struct {
	name string
	fn   *ssa.Function
	st   *HStats
}

type Job struct {
	h      *Harness
	prefix []dec
	model  *Model
}

type Vector struct {
	Harness string     `json:"h"`
	Inputs  []VecInput `json:"in"`
	ID      int        `json:"id"`
	Tier    string     `json:"tier,omitempty"`
	Repeat  int        `json:"repeat,omitempty"`
	Timeout int        `json:"timeout_ms,omitempty"`
}

type VecInput struct {
	N   string            `json:"n"`
	K   string            `json:"k"`
	V   uint64            `json:"v"`
	Pts map[string]uint64 `json:"pts,omitempty"` // blob contents by index
}

type ObsVal struct {
	L string `json:"l"`
	V string `json:"v"`
}

type Violation struct {
	Harness string
	Label   string
	Msg     string
	Where   string
	Order   bool // depends on map iteration order
	Vec     Vector
}

type Sample struct {
	Vec Vector
	Obs []ObsVal
}

type HStats struct {
	mu           sync.Mutex
	paths        int64
	ended        int64 // infeasible assumption
	skipped      int64
	instrs       int64
	forks        int64
	asserts      int64
	assertQ      int64
	inconclusive map[string]int
	covers       map[string]int
	violations   map[string][]Violation
	samples      []Sample
	stopped      bool
	wall         time.Duration
	pending      int64
	start        time.Time
	maxSteps     int64
}

type Explorer struct {
	prog       *ssa.Program
	repl       map[string]*ssa.Function
	mainInit   *ssa.Function
	orderPkgs  map[string]bool
	solverCmd  []string
	timeoutMS  int
	maxSteps   int64
	nworkers   int
	deadline   time.Time
	violated   atomic.Int64 // when the first violation was found (Unix time), or 0
	grace      int64        // seconds to keep exploring once a violation was found, or 0 for no limit
	debug      bool
	maxSamples int
	tier       string
	funcFilter string

	mu     sync.Mutex
	cond   *sync.Cond
	queue  []*Job
	idle   int
	done   bool
	hungry atomic.Bool

	funcs                                         map[string]int
	queries, sat, unsat, unk, cacheHit, branchUnk int64
	solverTime, maxQuery                          time.Duration
	initTime                                      time.Duration
}

type worker struct {
	e   *Explorer
	m   *Machine
	id  int
	job *Job
}

func (e *Explorer) newWorker(id int) *worker {
	m := &Machine{prog: e.prog, types: NewUniverse(e.prog), tt: NewTerms(), globals: map[*ssa.Global]*Object{},
		codes: map[*ssa.Function]*Code{}, finfo: map[*ssa.Function]*funcInfo{}, funcsSeen: map[*ssa.Function]bool{},
		orderPkgs: e.orderPkgs, replacements: e.repl, debug: e.debug}
	m.solver = NewSolver(m.tt, e.solverCmd, e.timeoutMS)
	w := &worker{e: e, m: m, id: id}
	m.clock = w.poll
	m.expired = w.expired
	m.onViolation = w.violation
	m.coverHit = w.cover
	// run package initialisation concretely
	m.initPhase = true
	m.maxSteps = 1 << 40
	t0 := time.Now()
	m.startPath(e.mainInit)
	res := m.run()
	if res.kind != "done" {
		fmt.Fprintf(os.Stderr, "gosym: initialisation failed: %s %s\n%s", res.kind, res.msg, m.stack())
		os.Exit(3)
	}
	m.initPhase = false
	m.finished = false
	e.initTime = time.Since(t0)
	m.trail = nil
	m.totalSteps = 0
	m.funcsSeen = map[*ssa.Function]bool{}
	return w
}

func (w *worker) expired() bool {
	e := w.e
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		return true
	}
	if t := e.violated.Load(); t != 0 && e.grace > 0 && time.Now().Unix() > t+e.grace {
		return true
	}
	return false
}

func (w *worker) poll() bool {
	e := w.e
	w.m.solver.slow = false
	if w.expired() {
		return true
	}
	if e.hungry.Load() && len(w.m.cps) > 0 && w.m.rpos >= len(w.m.replay) {
		w.export()
	}
	return false
}

func (w *worker) export() {
	m := w.m
	cp := m.cps[0]
	var prefix []dec
	prefix = append(prefix, m.declog[:cp.logLen]...)
	prefix = append(prefix, cp.replay...)
	m.cps = m.cps[1:]
	w.e.push(&Job{h: w.job.h, prefix: prefix, model: cp.model})
}

func (e *Explorer) push(j *Job) {
	e.mu.Lock()
	atomic.AddInt64(&j.h.st.pending, 1)
	e.queue = append(e.queue, j)
	e.hungry.Store(len(e.queue) < e.idle)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) pop() *Job {
	e.mu.Lock()
	defer e.mu.Unlock()
	for len(e.queue) == 0 {
		e.idle++
		if e.idle == e.nworkers {
			e.done = true
			e.cond.Broadcast()
			return nil
		}
		e.hungry.Store(true)
		e.cond.Wait()
		if e.done {
			return nil
		}
		e.idle--
	}
	j := e.queue[0]
	e.queue = e.queue[1:]
	e.hungry.Store(len(e.queue) < e.idle)
	return j
}

func (w *worker) loop() {
	for {
		j := w.e.pop()
		if j == nil {
			break
		}
		w.runJob(j)
		h := j.h.st
		if atomic.AddInt64(&h.pending, -1) == 0 {
			h.mu.Lock()
			h.wall = time.Since(h.start)
			h.mu.Unlock()
		}
	}
	e, m := w.e, w.m
	e.mu.Lock()
	for f := range m.funcsSeen {
		e.funcs[f.String()]++
	}
	s := m.solver
	e.queries += s.queries
	e.sat += s.satN
	e.unsat += s.unsatN
	e.unk += s.unkN
	e.cacheHit += s.cacheHit
	e.branchUnk += m.branchUnk
	e.solverTime += s.time
	e.maxQuery = max(e.maxQuery, s.maxTime)
	e.mu.Unlock()
	s.Close()
}

func (w *worker) runJob(j *Job) {
	m := w.m
	w.job = j
	st := j.h.st
	m.undoTo(0)
	if m.tt.n > 2000000 {
		s := m.solver
		e := w.e
		e.mu.Lock()
		e.queries += s.queries
		e.sat += s.satN
		e.unsat += s.unsatN
		e.unk += s.unkN
		e.cacheHit += s.cacheHit
		e.solverTime += s.time
		e.mu.Unlock()
		s.Close()
		m.tt = NewTerms()
		m.solver = NewSolver(m.tt, e.solverCmd, e.timeoutMS)
	}
	m.pc, m.declog, m.cps = nil, nil, nil
	m.stamp++
	m.cpStamp = m.stamp
	m.pathSnap = pathSnap{}
	m.inputLog, m.obsLog = nil, nil
	m.replay, m.rpos = j.prefix, 0
	if len(j.prefix) == 0 {
		m.replay = nil
	}
	if j.model != nil {
		m.model = m.tt.CloneModel(j.model)
	} else {
		m.model = m.tt.NewModel()
	}
	m.maxSteps = w.e.maxSteps
	st.mu.Lock()
	if st.start.IsZero() {
		st.start = time.Now()
	}
	st.mu.Unlock()
	steps0 := m.totalSteps
	a0, q0, u0 := m.asserts, m.assertQ, m.branchUnk
	var forks int64
	m.startPath(j.h.fn)
	for {
		res := m.run()
		w.handle(res)
		if res.kind == "stopped" {
			break
		}
		if w.e.hungry.Load() && len(m.cps) > 1 {
			w.export()
		}
		n := len(m.cps)
		if n == 0 {
			break
		}
		forks++
		cp := m.cps[n-1]
		m.cps = m.cps[:n-1]
		m.undoTo(cp.trail)
		m.pc = m.pc[:cp.pcLen]
		m.declog = m.declog[:cp.logLen]
		m.top = cp.top
		m.pathSnap = cp.snap
		m.replay, m.rpos = cp.replay, 0
		m.model = cp.model
		m.cpStamp = cp.prevCp
		m.hookPending = false
		m.finished = false
		if m.model == nil {
			panic("nil model")
		}
	}
	st.mu.Lock()
	st.instrs += m.totalSteps - steps0
	st.forks += forks
	st.asserts += m.asserts - a0
	st.assertQ += m.assertQ - q0
	if m.branchUnk > u0 {
		st.inconclusive["solver gave no answer on a branch"] += int(m.branchUnk - u0)
	}
	st.mu.Unlock()
}

func (w *worker) cover(label string) {
	st := w.job.h.st
	st.mu.Lock()
	st.covers[label]++
	st.mu.Unlock()
}

// checkModel verifies the engine invariant that the current model satisfies the path condition.
func (m *Machine) checkModel() bool {
	for _, c := range m.pc {
		if m.tt.Eval(c, m.model) == 0 {
			return false
		}
	}
	return true
}

func (m *Machine) vector(h string, md *Model) Vector {
	v := Vector{Harness: h, Inputs: []VecInput{}}
	for _, in := range m.inputLog[:m.pathSnap.inputs] {
		vi := VecInput{N: in.name, K: in.kind}
		if in.kind == "blob" {
			if in.n.t != nil {
				vi.V = m.tt.Eval(in.n.t, md)
			} else {
				vi.V = in.n.c
			}
			for i, t := range in.ts {
				if x := m.tt.Eval(t, md); x != 0 && uint64(i) < vi.V {
					if vi.Pts == nil {
						vi.Pts = map[string]uint64{}
					}
					vi.Pts[fmt.Sprint(i)] = x
				}
			}
			for k, x := range md.uf {
				if k.name == in.uf && x != 0 && k.idx < vi.V {
					if vi.Pts == nil {
						vi.Pts = map[string]uint64{}
					}
					vi.Pts[fmt.Sprint(k.idx)] = x
				}
			}
		} else {
			vi.V = m.tt.Eval(in.t, md)
		}
		v.Inputs = append(v.Inputs, vi)
	}
	return v
}

func (m *Machine) observed(md *Model) []ObsVal {
	var out []ObsVal
	for _, o := range m.obsLog[:m.pathSnap.obs] {
		var sb strings.Builder
		if o.raw {
			for _, t := range o.ts {
				fmt.Fprintf(&sb, "%02x", m.tt.Eval(t, md))
			}
		} else {
			fmt.Fprintf(&sb, "%d", int64(m.tt.Eval(o.ts[0], md)))
		}
		out = append(out, ObsVal{o.label, sb.String()})
	}
	return out
}

func (w *worker) violation(m *Machine, label, msg string, md *Model) {
	st := w.job.h.st
	w.e.violated.CompareAndSwap(0, time.Now().Unix())
	st.mu.Lock()
	defer st.mu.Unlock()
	if len(st.violations[label]) >= 4 {
		return
	}
	st.violations[label] = append(st.violations[label], Violation{Harness: w.job.h.name, Label: label, Msg: msg,
		Where: m.where(), Order: m.pathSnap.mapOrder != 0, Vec: m.vector(w.job.h.name, md)})
}

func (w *worker) handle(res pathResult) {
	m := w.m
	st := w.job.h.st
	note := func(s string) {
		st.mu.Lock()
		st.inconclusive[s]++
		st.mu.Unlock()
	}
	switch res.kind {
	case "done", "skip", "panic", "violation", "budget":
		if !m.checkModel() {
			note("model does not satisfy the path condition")
			return
		}
	}
	st.mu.Lock()
	st.maxSteps = max(st.maxSteps, m.pathSnap.steps)
	st.mu.Unlock()
	switch res.kind {
	case "done":
		st.mu.Lock()
		st.paths++
		n := st.paths
		st.mu.Unlock()
		// sample: first few, then at doubling distances
		if n <= 4 || n&(n-1) == 0 || n%97 == 0 {
			st.mu.Lock()
			full := len(st.samples) >= w.e.maxSamples
			st.mu.Unlock()
			if !full {
				s := Sample{Vec: m.vector(w.job.h.name, m.model), Obs: m.observed(m.model)}
				st.mu.Lock()
				st.samples = append(st.samples, s)
				st.mu.Unlock()
			}
		}
	case "end":
		st.mu.Lock()
		st.ended++
		st.mu.Unlock()
		if res.msg == "assume-unknown" {
			note("solver gave no answer on an assumption")
		}
	case "skip":
		st.mu.Lock()
		st.skipped++
		st.mu.Unlock()
	case "panic":
		w.violation(m, "panic in "+m.panicAt, res.msg, m.model)
		st.mu.Lock()
		st.skipped++
		st.mu.Unlock()
	case "violation":
		w.violation(m, "allocation", res.msg+" @ "+m.where(), m.model)
		st.mu.Lock()
		st.skipped++
		st.mu.Unlock()
	case "budget":
		w.violation(m, "no-termination", res.msg, m.model)
		note("instruction budget exhausted")
	case "stopped":
		st.mu.Lock()
		st.stopped = true
		st.mu.Unlock()
	default:
		note(res.kind + ": " + res.msg)
		if w.e.debug {
			fmt.Fprintf(os.Stderr, "== %s %s: %s\n%s", w.job.h.name, res.kind, res.msg, m.stack())
		}
	}
}

func (e *Explorer) Run(hs []*Harness) {
	e.cond = sync.NewCond(&e.mu)
	e.funcs = map[string]int{}
	for _, h := range hs {
		h.st = &HStats{inconclusive: map[string]int{}, covers: map[string]int{}, violations: map[string][]Violation{}}
		e.push(&Job{h: h})
	}
	var wg sync.WaitGroup
	for i := 0; i < e.nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := e.newWorker(i)
			w.loop()
		}()
	}
	all := make(chan bool)
	go func() { wg.Wait(); close(all) }()
	if e.deadline.IsZero() {
		<-all
		return
	}
	select {
	case <-all:
	case <-time.After(time.Until(e.deadline) + 150*time.Second):
		for _, h := range hs { // never seen: workers notice that time is up
			h.st.mu.Lock()
			h.st.stopped = true
			h.st.mu.Unlock()
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	tt        *Terms
	cmdline   []string
	cmd       *exec.Cmd
	in        *bufio.Writer
	hasUF     bool
	slow      bool        // a query took long: poll the clock
	expired   func() bool // set while code is executed; true ends the path
	inc       io.WriteCloser
	out       *bufio.Reader
	declared  map[string]bool
	defs      []*Term // terms with defd set
	queries   int64
	satN      int64
	unsatN    int64
	unkN      int64
	cacheHit  int64
	time      time.Duration
	maxTime   time.Duration
	cache     map[string]cacheEnt
	timeoutMS int
	dump      io.Writer
}

type cacheEnt struct {
	r Result
	m *Model // partial
}

func NewSolver(tt *Terms, cmdline []string, timeoutMS int) *Solver {
	s := &Solver{tt: tt, cmdline: cmdline, timeoutMS: timeoutMS, cache: map[string]cacheEnt{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.declared = map[string]bool{}
	for _, t := range s.defs {
		t.defd = false
	}
	s.defs = nil
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n")
	if strings.Contains(s.cmdline[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMS))
		if !s.hasUF {
			s.send("(set-logic QF_BV)\n")
		}
	} else {
		s.send("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	}
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.dump != nil {
		io.WriteString(s.dump, x)
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if !started && (b == ' ' || b == '\n' || b == '\r' || b == '\t') {
			continue
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			started = true
			continue
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		} else if !started {
			// atom
			l, err := s.out.ReadString('\n')
			sb.WriteString(strings.TrimSpace(l))
			return sb.String(), err
		}
	}
}

func (s *Solver) define(t *Term) {
	switch t.op {
	case OpConst:
		return
	case OpVar:
		if !s.declared[t.name] {
			s.declared[t.name] = true
			s.send(fmt.Sprintf("(declare-fun |%s| () %s)\n", t.name, sortName(t.w)))
		}
		return
	}
	if t.defd {
		return
	}
	if t.op == OpUF {
		if !s.declared[t.name] {
			s.declared[t.name] = true
			s.send(fmt.Sprintf("(declare-fun |%s| ((_ BitVec %d)) %s)\n", t.name, t.args[0].w, sortName(t.w)))
		}
	}
	for _, a := range t.args {
		s.define(a)
	}
	t.defd = true
	s.defs = append(s.defs, t)
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body()))
}

// slice returns the constraints of pc transitively sharing variables with extra.
func (s *Solver) slice(pc []*Term, extra *Term) []*Term {
	if extra == nil {
		return pc
	}
	need := map[int32]bool{}
	for _, v := range s.tt.Vars(extra) {
		need[v] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for {
		changed := false
		for i, c := range pc {
			if used[i] {
				continue
			}
			vs := s.tt.Vars(c)
			hit := false
			for _, v := range vs {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, v := range vs {
					need[v] = true
				}
			}
		}
		if !changed {
			break
		}
	}
	return out
}

func collectLeaves(ts []*Term) (vars []*Term, ufs []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			vars = append(vars, t)
			return
		}
		if t.op == OpUF {
			ufs = append(ufs, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

// Check decides pc ∧ extra. base is a model of pc used to complete the returned model.
func (s *Solver) Check(pc []*Term, extra *Term, base *Model) (Result, *Model) {
	if extra != nil && extra.isConst() {
		if extra.c == 0 {
			return Unsat, nil
		}
		if base != nil {
			return Sat, base
		}
		extra = nil
	}
	sl := s.slice(pc, extra)
	if base == nil {
		sl = pc
	}
	ids := make([]int, 0, len(sl)+1)
	for _, c := range sl {
		ids = append(ids, c.id)
	}
	if extra != nil {
		ids = append(ids, extra.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	for i, id := range ids {
		if i > 0 && ids[i-1] == id {
			continue
		}
		kb.WriteString(strconv.Itoa(id))
		kb.WriteByte(',')
	}
	key := kb.String()
	ent, ok := s.cache[key]
	if ok {
		s.cacheHit++
	} else {
		if s.expired != nil && s.expired() {
			panic(stopRun{})
		}
		ent = s.query(sl, extra)
		if len(s.cache) > 200000 {
			s.cache = map[string]cacheEnt{}
		}
		s.cache[key] = ent
	}
	if ent.r != Sat {
		return ent.r, nil
	}
	var m *Model
	if base != nil {
		m = s.tt.CloneModel(base)
	} else {
		m = s.tt.NewModel()
	}
	// UF values of other components share no UF name with this slice: replace the whole function
	if len(ent.m.uf) > 0 {
		names := map[string]bool{}
		for k := range ent.m.uf {
			names[k.name] = true
		}
		for k := range m.uf {
			if names[k.name] {
				delete(m.uf, k)
			}
		}
	}
	for k, v := range ent.m.vars {
		m.vars[k] = v
	}
	for k, v := range ent.m.uf {
		m.uf[k] = v
	}
	return Sat, m
}

var slowDir = os.Getenv("GOSYM_SLOW")
var slowN int32

func dumpSlow(all []*Term, d time.Duration) {
	n := atomic.AddInt32(&slowN, 1)
	f, err := os.Create(fmt.Sprintf("%s/q%d-%dms.smt2", slowDir, n, d.Milliseconds()))
	if err != nil {
		return
	}
	defer f.Close()
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == OpConst {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			fmt.Fprintf(f, "(declare-fun |%s| () %s)\n", t.name, sortName(t.w))
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		fmt.Fprintf(f, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
	}
	for _, t := range all {
		walk(t)
		fmt.Fprintf(f, "(assert %s)\n", t.ref())
	}
	fmt.Fprintln(f, "(check-sat)")
}

func (s *Solver) query(sl []*Term, extra *Term) cacheEnt {
	t0 := time.Now()
	var all0 []*Term
	defer func() {
		d := time.Since(t0)
		if slowDir != "" && d > 500*time.Millisecond {
			dumpSlow(all0, d)
		}
		s.time += d
		s.slow = s.slow || d > 20*time.Millisecond
		if d > s.maxTime {
			s.maxTime = d
		}
	}()
	s.queries++
	all := append([]*Term{}, sl...)
	if extra != nil {
		all = append(all, extra)
	}
	all0 = all
	if !s.hasUF {
		if _, ufs := collectLeaves(all); len(ufs) > 0 {
			s.hasUF = true
			s.restart()
		}
	}
	hard := hardTerms(all)
	if hard && s.intOK() {
		if ent := s.intQuery(all); ent.r != Unknown {
			return ent
		}
	}
	ent := s.mainQuery(all)
	if ent.r == Unknown && !hard && s.intOK() {
		if e := s.intQuery(all); e.r != Unknown {
			s.unkN--
			return e
		}
	}
	return ent
}

// hardTerms tells whether a query has a wide division, which bit-blasting copes badly with.
func hardTerms(all []*Term) bool {
	seen := map[*Term]bool{}
	hard := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if hard || t.op == OpConst || t.op == OpVar || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OpUDiv, OpURem, OpSDiv, OpSRem:
			if t.w >= 24 && t.args[1].c&(t.args[1].c-1) != 0 {
				hard = true
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range all {
		walk(t)
	}
	return hard
}

var intSolver, _ = exec.LookPath("cvc5")

func (s *Solver) intOK() bool { return intSolver != "" && !s.hasUF }

// No option set is the best one for every query: the first to answer wins.
var intOpts = [][]string{
	{"--solve-bv-as-int=sum"},
	{"--solve-bv-as-int=sum", "--decision=internal"},
}

// intQuery asks cvc5, which translates bit-vectors to integers.
func (s *Solver) intQuery(all []*Term) cacheEnt {
	var f strings.Builder
	f.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	seen := map[*Term]bool{}
	var vars []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == OpConst {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			vars = append(vars, t)
			fmt.Fprintf(&f, "(declare-fun |%s| () %s)\n", t.name, sortName(t.w))
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		fmt.Fprintf(&f, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
	}
	for _, t := range all {
		walk(t)
		fmt.Fprintf(&f, "(assert %s)\n", t.ref())
	}
	f.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		f.WriteString("(get-value (")
		for _, v := range vars {
			f.WriteString(v.ref() + " ")
		}
		f.WriteString("))\n")
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.timeoutMS)*time.Millisecond/2)
	defer cancel()
	answers := make(chan string, len(intOpts))
	for _, opt := range intOpts {
		cmd := exec.CommandContext(ctx, intSolver, append(opt, "--lang=smt2", "-")...)
		cmd.Stdin = strings.NewReader(f.String())
		go func() {
			out, _ := cmd.Output()
			answers <- string(out)
		}()
	}
	txt := ""
	for range intOpts {
		if txt = <-answers; strings.HasPrefix(txt, "unsat") || strings.HasPrefix(txt, "sat") {
			break
		}
	}
	switch {
	case strings.HasPrefix(txt, "unsat"):
		s.unsatN++
		return cacheEnt{r: Unsat}
	case strings.HasPrefix(txt, "sat"):
		m := &Model{vars: map[string]uint64{}, uf: map[ufKey]uint64{}}
		if len(vars) > 0 {
			vals := parseValues(strings.TrimSpace(txt[3:]), len(vars))
			if vals == nil {
				return cacheEnt{r: Unknown}
			}
			for i, v := range vars {
				m.vars[v.name] = vals[i]
			}
		}
		s.satN++
		return cacheEnt{r: Sat, m: m}
	}
	return cacheEnt{r: Unknown}
}

func (s *Solver) mainQuery(all []*Term) cacheEnt {
	for _, c := range all {
		s.define(c)
	}
	s.send("(push 1)\n")
	for _, c := range all {
		s.send("(assert " + c.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	// hard watchdog
	timer := time.AfterFunc(time.Duration(s.timeoutMS)*time.Millisecond*2+5*time.Second, func() {
		if s.cmd != nil && s.cmd.Process != nil {
			s.cmd.Process.Kill()
		}
	})
	line, err := s.readLine()
	timer.Stop()
	if err != nil {
		s.unkN++
		s.restart()
		return cacheEnt{r: Unknown}
	}
	switch line {
	case "unsat":
		s.unsatN++
		s.send("(pop 1)\n")
		return cacheEnt{r: Unsat}
	case "sat":
		s.satN++
	default:
		s.unkN++
		if line != "unknown" && line != "timeout" {
			fmt.Println("SOLVER-ERROR:", line)
			s.restart()
			return cacheEnt{r: Unknown}
		}
		s.send("(pop 1)\n")
		return cacheEnt{r: Unknown}
	}
	vars, ufs := collectLeaves(all)
	m := &Model{vars: map[string]uint64{}, uf: map[ufKey]uint64{}}
	var req []string
	var reqT []*Term
	for _, v := range vars {
		req = append(req, v.ref())
		reqT = append(reqT, v)
	}
	for _, u := range ufs {
		req = append(req, u.ref())
		reqT = append(reqT, u)
		req = append(req, u.args[0].ref())
		reqT = append(reqT, nil)
	}
	vals := make([]uint64, 0, len(req))
	for i := 0; i < len(req); i += 200 {
		e := min(i+200, len(req))
		s.send("(get-value (" + strings.Join(req[i:e], " ") + "))\n")
		s.in.Flush()
		x, err := s.readSexp()
		if err != nil || strings.HasPrefix(x, "(error") {
			fmt.Println("SOLVER-ERROR get-value:", x, err)
			s.restart()
			return cacheEnt{r: Unknown}
		}
		vs := parseValues(x, e-i)
		if vs == nil {
			fmt.Println("SOLVER-ERROR get-value parse:", x)
			s.restart()
			return cacheEnt{r: Unknown}
		}
		vals = append(vals, vs...)
	}
	for i := 0; i < len(reqT); i++ {
		t := reqT[i]
		if t.op == OpVar {
			m.vars[t.name] = vals[i]
		} else {
			m.uf[ufKey{t.name, vals[i+1]}] = vals[i]
			i++
		}
	}
	s.send("(pop 1)\n")
	return cacheEnt{r: Sat, m: m}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// parseValues parses ((name val) (name val) ...) returning the values in order.
func parseValues(x string, n int) []uint64 {
	toks := tokenize(x)
	// structure: ( (expr val) ... )
	pos := 1
	var out []uint64
	skip := func() {
		if toks[pos] == "(" {
			d := 0
			for {
				if toks[pos] == "(" {
					d++
				} else if toks[pos] == ")" {
					d--
				}
				pos++
				if d == 0 {
					return
				}
			}
		}
		pos++
	}
	for i := 0; i < n; i++ {
		if pos >= len(toks) || toks[pos] != "(" {
			return nil
		}
		pos++
		skip()
		// value
		v := toks[pos]
		switch {
		case v == "(":
			// (_ bvN w)
			u, err := strconv.ParseUint(strings.TrimPrefix(toks[pos+2], "bv"), 10, 64)
			if err != nil {
				return nil
			}
			out = append(out, u)
			pos += 5
		case strings.HasPrefix(v, "#x"):
			u, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil
			}
			out = append(out, u)
			pos++
		case strings.HasPrefix(v, "#b"):
			u, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil
			}
			out = append(out, u)
			pos++
		case v == "true":
			out = append(out, 1)
			pos++
		case v == "false":
			out = append(out, 0)
			pos++
		default:
			return nil
		}
		if toks[pos] != ")" {
			return nil
		}
		pos++
	}
	return out
}

func tokenize(x string) []string {
	var out []string
	i := 0
	for i < len(x) {
		c := x[i]
		switch {
		case c == ' ' || c == '\n' || c == '\r' || c == '\t':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(x[i+1:], '|')
			out = append(out, x[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(x) && !strings.ContainsRune(" \n\r\t()", rune(x[j])) {
				j++
			}
			out = append(out, x[i:j])
			i = j
		}
	}
	return out
}

package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Result of a query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// SolverStats counts solver work (atomically, shared by all workers).
type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int64
	Nanos                           int64
	Fallbacks                       int64
	Cross                           int64
	CrossDisagree                   int64
	BadModels                       int64
}

// Solver is one incremental z3 process plus one-shot fallbacks.
type Solver struct {
	c     *Ctx
	cmd   *exec.Cmd
	in    *bufio.Writer
	inC   io.WriteCloser
	out   *bufio.Reader
	stack []*Term // asserted, one push level each
	st    *SolverStats
	quick int // ms, incremental
	skip  int // pressure to skip the incremental solver
	slow  int // ms, one shot
	defs  map[*Term]bool
	nCmd  int
	sent  int
	cross bool
}

func NewSolver(c *Ctx, st *SolverStats, quickMs, slowMs int) *Solver {
	return &Solver{c: c, st: st, quick: quickMs, slow: slowMs}
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-memory:3000")
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defs = map[*Term]bool{}
	s.stack = nil
	s.sent = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.quick)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvlit(t *Term) string {
	if t.w%4 == 0 {
		if t.big != nil {
			return fmt.Sprintf("#x%0*x", t.w/4, t.big)
		}
		return fmt.Sprintf("#x%0*x", t.w/4, t.val)
	}
	if t.big != nil {
		return fmt.Sprintf("#b%0*b", t.w, t.big)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.val)
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		return bvlit(t)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

// emitDefs writes definitions of t and everything below, in dependency order.
func emitDefs(w *bufio.Writer, defs map[*Term]bool, t *Term) {
	if defs[t] {
		return
	}
	switch t.op {
	case OConst, OTrue, OFalse:
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if defs[f.t] || f.t.op == OConst || f.t.op == OTrue || f.t.op == OFalse {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !defs[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		defs[x] = true
		if x.op == OVar {
			fmt.Fprintf(w, "(declare-const |%s| %s)\n", x.name, sortOf(x))
			continue
		}
		fmt.Fprintf(w, "(define-fun t%d () %s ", x.id, sortOf(x))
		switch x.op {
		case OExtract:
			fmt.Fprintf(w, "((_ extract %d %d) %s)", int(x.val)+x.w-1, x.val, ref(x.args[0]))
		case OTab:
			emitTab(w, x)
		case OSext:
			fmt.Fprintf(w, "((_ sign_extend %d) %s)", x.w-x.args[0].w, ref(x.args[0]))
		case OConcat, OAdd, OBand, OBor, OBxor:
			// n-ary via nesting for portability
			n := opNames[x.op]
			for i := 0; i < len(x.args)-1; i++ {
				fmt.Fprintf(w, "(%s %s ", n, ref(x.args[i]))
			}
			w.WriteString(ref(x.args[len(x.args)-1]))
			for i := 0; i < len(x.args)-1; i++ {
				w.WriteByte(')')
			}
		default:
			w.WriteByte('(')
			w.WriteString(opNames[x.op])
			for _, a := range x.args {
				w.WriteByte(' ')
				w.WriteString(ref(a))
			}
			w.WriteByte(')')
		}
		w.WriteString(")\n")
	}
}

// emitTab writes a table lookup as comparisons on the index, one per run of consecutive entries.
func emitTab(w *bufio.Writer, x *Term) {
	tb := x.tab
	idx := x.args[0]
	k := func(wd int, v uint64) string {
		var sb strings.Builder
		sb.WriteString("#b")
		for i := wd - 1; i >= 0; i-- {
			if i < 64 && v>>uint(i)&1 == 1 {
				sb.WriteByte('1')
			} else {
				sb.WriteByte('0')
			}
		}
		return sb.String()
	}
	depth := 0
	for i, r := range tb.runs {
		last := i == len(tb.runs)-1
		if last && r.lo < r.hi { // split the final entry off: it also stands for everything beyond
			fmt.Fprintf(w, "(ite (bvult %s %s) %s ", ref(idx), k(idx.w, r.hi), tabLin(idx, x.w, r, k))
			depth++
		}
		if last {
			w.WriteString(k(x.w, tb.v[len(tb.v)-1]))
			break
		}
		fmt.Fprintf(w, "(ite (bvule %s %s) %s ", ref(idx), k(idx.w, r.hi), tabLin(idx, x.w, r, k))
		depth++
	}
	for ; depth > 0; depth-- {
		w.WriteByte(')')
	}
}

func tabLin(idx *Term, w int, r tabRun, k func(int, uint64) string) string {
	if r.lo == r.hi || r.step == 0 {
		return k(w, r.v)
	}
	var e string
	switch {
	case idx.w == w:
		e = ref(idx)
	case idx.w > w:
		e = fmt.Sprintf("((_ extract %d 0) %s)", w-1, ref(idx))
	default:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", w-idx.w, ref(idx))
	}
	return fmt.Sprintf("(bvadd %s %s)", e, k(w, (r.v-r.lo)&mask(w)))
}

// sync makes the solver stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil || s.sent > 400000 {
		s.Close()
		s.start()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		nd := len(s.defs)
		emitDefs(s.in, s.defs, t)
		s.sent += len(s.defs) - nd
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", ref(t))
		s.stack = append(s.stack, t)
	}
}

// Check decides pc /\ extra. On Sat it returns a model.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Result, *Model) {
	t0 := time.Now()
	atomic.AddInt64(&s.st.Queries, 1)
	defer func() { atomic.AddInt64(&s.st.Nanos, int64(time.Since(t0))) }()
	if extra == s.c.F {
		return Unsat, nil
	}
	res, m := Unknown, (*Model)(nil)
	if !hardArith(pc) && !hardArith([]*Term{extra}) {
		// queries like the ones that timed out lately go straight to the one-shot solvers
		if s.skip > 8 {
			s.skip--
		} else if res, m = s.incr(pc, extra, wantModel); res == Unknown {
			s.skip += 6
		} else if s.skip > 0 {
			s.skip--
		}
	}
	if res == Unknown {
		atomic.AddInt64(&s.st.Fallbacks, 1)
		res, m = s.oneShot(pc, extra)
	}
	if d := os.Getenv("ZZ_DUMP"); d != "" && time.Since(t0) > time.Second {
		ts := append(append([]*Term(nil), pc...), extra)
		os.WriteFile(fmt.Sprintf("%s/slow%d-%v-%v.smt2", d, s.st.Queries, time.Since(t0).Round(time.Millisecond), res), script(ts, collectVars(ts), true), 0o644)
	}
	switch res {
	case Sat:
		atomic.AddInt64(&s.st.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.st.UnsatN, 1)
	default:
		n := atomic.AddInt64(&s.st.UnknownN, 1)
		if d := os.Getenv("ZZ_DUMP"); d != "" {
			ts := append(append([]*Term(nil), pc...), extra)
			vs := collectVars(ts)
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, n), script(ts, vs, true), 0o644)
			os.WriteFile(fmt.Sprintf("%s/q%d.lia.smt2", d, n), liaScript(ts, vs), 0o644)
		}
	}
	return res, m
}

func (s *Solver) incr(pc []*Term, extra *Term, wantModel bool) (res Result, m *Model) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(solverDied); ok {
				s.Close()
				res, m = Unknown, nil
				return
			}
			panic(r)
		}
	}()
	s.sync(pc)
	nd := len(s.defs)
	emitDefs(s.in, s.defs, extra)
	s.sent += len(s.defs) - nd
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n(echo \"--\")\n", ref(extra))
	s.in.Flush()
	switch ans := s.readAnswer(s.quick + 8000); ans {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		res = Unknown
		if strings.HasPrefix(ans, "(error") {
			fmt.Println("solver error:", ans)
		}
		s.Close() // z3 answers wrongly after an interrupted check
		return
	}
	if res == Sat {
		ts := append(append([]*Term(nil), pc...), extra)
		m = s.getModel(ts)
		if !s.holds(ts, m) {
			s.badModel(ts, collectVars(ts), "incremental")
			res, m = Unknown, nil
		}
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return
}

type solverDied struct{}

func (s *Solver) readAnswer(ms int) string {
	timer := time.AfterFunc(time.Duration(ms)*time.Millisecond, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	ans := ""
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(solverDied{})
		}
		l = strings.TrimSpace(l)
		if l == "--" {
			return ans
		}
		if ans == "" || strings.HasPrefix(l, "(error") {
			ans = l
		}
	}
}

func collectVars(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	st := append([]*Term(nil), ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == OVar {
			out = append(out, t)
		}
		st = append(st, t.args...)
	}
	return out
}

func newModel(c *Ctx) *Model {
	c.evGen++
	return &Model{u: map[*Term]uint64{}, b: map[*Term]*big.Int{}, gen: c.evGen}
}

func (s *Solver) getModel(ts []*Term) *Model {
	m := newModel(s.c)
	vs := collectVars(ts)
	for i := 0; i < len(vs); i += 200 {
		j := min(i+200, len(vs))
		s.in.WriteString("(get-value (")
		for _, v := range vs[i:j] {
			s.in.WriteString(ref(v) + " ")
		}
		s.in.WriteString("))\n(echo \"--\")\n")
		s.in.Flush()
		var sb strings.Builder
		timer := time.AfterFunc(20*time.Second, func() { s.cmd.Process.Kill() })
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				timer.Stop()
				panic(solverDied{})
			}
			if strings.TrimSpace(l) == "--" {
				break
			}
			sb.WriteString(l)
		}
		timer.Stop()
		parseValues(sb.String(), vs[i:j], m)
	}
	return m
}

// parseValues parses ((|a| #x00) (|b| true) ...).
func parseValues(txt string, vs []*Term, m *Model) {
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[v.name] = v
	}
	toks := tokenize(txt)
	for i := 0; i+1 < len(toks); i++ {
		n := strings.Trim(toks[i], "|")
		v, ok := byName[n]
		if !ok || toks[i-1] != "(" {
			continue
		}
		val := toks[i+1]
		if val == "true" {
			m.u[v] = 1
			continue
		}
		if val == "false" {
			m.u[v] = 0
			continue
		}
		b := new(big.Int)
		if val == "(" && i+3 < len(toks) && toks[i+2] == "_" { // (_ bv10 8)
			b.SetString(strings.TrimPrefix(toks[i+3], "bv"), 10)
		} else if strings.HasPrefix(val, "#x") {
			b.SetString(val[2:], 16)
		} else if strings.HasPrefix(val, "#b") {
			b.SetString(val[2:], 2)
		} else {
			b.SetString(val, 10)
		}
		if v.w > 64 {
			m.b[v] = b
		} else {
			m.u[v] = b.Uint64()
		}
	}
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch ch := s[i]; {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// script writes a self-contained SMT-LIB script.
func script(ts []*Term, vs []*Term, model bool) []byte {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	w.WriteString("(set-logic QF_BV)\n")
	if model {
		w.WriteString("(set-option :produce-models true)\n")
	}
	defs := map[*Term]bool{}
	for _, v := range vs {
		emitDefs(w, defs, v)
	}
	for _, t := range ts {
		emitDefs(w, defs, t)
		fmt.Fprintf(w, "(assert %s)\n", ref(t))
	}
	w.WriteString("(check-sat)\n")
	if model && len(vs) > 0 {
		w.WriteString("(get-value (")
		for _, v := range vs {
			w.WriteString(ref(v) + " ")
		}
		w.WriteString("))\n")
	}
	w.Flush()
	return buf.Bytes()
}

type oneRes struct {
	res Result
	txt string
}

func runSolver(ctx context.Context, scr []byte, name string, args ...string) oneRes {
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = bytes.NewReader(scr)
	out, _ := cmd.Output()
	txt := string(out)
	l := strings.TrimSpace(strings.SplitN(txt, "\n", 2)[0])
	switch l {
	case "sat":
		return oneRes{Sat, txt}
	case "unsat":
		return oneRes{Unsat, txt}
	}
	return oneRes{Unknown, txt}
}

// oneShot races non-incremental solvers.
func (s *Solver) oneShot(pc []*Term, extra *Term) (Result, *Model) {
	ts := append(append([]*Term(nil), pc...), extra)
	vs := collectVars(ts)
	scr := script(ts, vs, true)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.slow)*time.Millisecond)
	defer cancel()
	ch := make(chan oneRes, 4)
	n := 2
	if lia := liaScript(ts, vs); lia != nil {
		n = 4
		go func() { ch <- runSolver(ctx, lia, "z3-new", "-in", "-memory:2000") }()
		go func() { ch <- runSolver(ctx, lia, "cvc5", "--lang=smt2", "--produce-models") }()
	}
	go func() { ch <- runSolver(ctx, scr, "z3-new", "-in", "-memory:4000") }()
	go func() {
		ch <- runSolver(ctx, scr, "cvc5", "--lang=smt2", "--produce-models", "--bv-solver=bitblast")
	}()
	for i := 0; i < n; i++ {
		r := <-ch
		if r.res == Unknown {
			continue
		}
		if r.res == Sat {
			m := newModel(s.c)
			parseValues(strings.TrimPrefix(strings.TrimSpace(r.txt), "sat"), vs, m)
			if !s.holds(ts, m) {
				s.badModel(ts, vs, r.txt)
				continue
			}
			return Sat, m
		}
		return Unsat, nil
	}
	return Unknown, nil
}

// holds evaluates the constraints under a model.
func (s *Solver) holds(ts []*Term, m *Model) bool {
	for _, t := range ts {
		if !s.c.EvalBool(t, m) {
			return false
		}
	}
	return true
}

// badModel counts an answer that is not a model of the query.
func (s *Solver) badModel(ts, vs []*Term, txt string) {
	n := atomic.AddInt64(&s.st.BadModels, 1)
	if d := os.Getenv("ZZ_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/bad%d.smt2", d, n), script(ts, vs, true), 0o644)
		os.WriteFile(fmt.Sprintf("%s/bad%d.lia.smt2", d, n), liaScript(ts, vs), 0o644)
		os.WriteFile(fmt.Sprintf("%s/bad%d.txt", d, n), []byte(txt), 0o644)
	}
}

// CrossCheck runs the same query on a second solver, for encoding cross-validation.
func (s *Solver) CrossCheck(pc []*Term, extra *Term, want Result) {
	ts := append(append([]*Term(nil), pc...), extra)
	scr := script(ts, nil, false)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	r := runSolver(ctx, scr, "cvc5", "--lang=smt2")
	if r.res == Unknown {
		return
	}
	atomic.AddInt64(&s.st.Cross, 1)
	if r.res != want {
		atomic.AddInt64(&s.st.CrossDisagree, 1)
	}
}

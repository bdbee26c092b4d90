package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process. The assertion stack mirrors a path condition:
// one push level per conjunct, so consecutive paths share their common prefix.
type Solver struct {
	t       *Terms
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	stack   []*Term
	vars    []*Term // variables and UF applications on the stack, with stack depth
	varLvl  []int
	ufDecl  map[string]bool
	Queries int64
	Sat     int64
	Unsat   int64
	Unknown int64
	Time    time.Duration
	slow    time.Duration
	nterms  int
	dump    io.Writer
	timeout int
	bit     uint8
}

func newSolver(t *Terms, timeoutMs int) *Solver {
	s := &Solver{t: t, timeout: timeoutMs, bit: 1}
	s.start()
	return s
}

func solverBin() []string {
	if b := os.Getenv("GOSYM_SOLVER"); b != "" {
		return strings.Fields(b)
	}
	return []string{"z3-new", "-in"}
}

func (s *Solver) start() {
	a := solverBin()
	s.cmd = exec.Command(a[0], a[1:]...)
	ip, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", a, err))
	}
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.ufDecl = map[string]bool{}
	if strings.Contains(a[0], "cvc5") {
		s.raw("(set-option :produce-models true)")
		s.raw("(set-option :global-declarations true)")
		s.raw("(set-logic QF_UFBV)")
		return
	}
	s.raw("(set-option :global-declarations true)")
	s.raw(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	s.raw("(set-logic QF_UFBV)")
}

func (s *Solver) stop() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.stop()
	for _, x := range s.t.tab {
		x.sent &^= s.bit
	}
	for _, x := range s.t.uf {
		x.sent &^= s.bit
	}
	s.stack = nil
	s.vars = nil
	s.varLvl = nil
	s.nterms = 0
	s.start()
}

func (s *Solver) raw(x string) {
	s.in.WriteString(x)
	s.in.WriteByte('\n')
}

func sortS(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constS(x *Term) string {
	if x.w == 0 {
		if x.n != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(x.n, 10) + " " + strconv.Itoa(int(x.w)) + ")"
}

func (x *Term) ref() string {
	if x.op == OConst {
		return constS(x)
	}
	return "t" + strconv.FormatUint(uint64(x.id), 10)
}

// send makes sure x is declared/defined in the solver.
func (s *Solver) send(x *Term) {
	if x.op == OConst || x.sent&s.bit != 0 {
		return
	}
	// iterative post-order to survive deep terms
	type fr struct {
		x *Term
		i int
	}
	st := []fr{{x, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		var ch *Term
		n := f.i
		f.i++
		if f.x.op == OUF {
			if n < len(f.x.args) {
				ch = f.x.args[n]
			}
		} else {
			switch n {
			case 0:
				ch = f.x.a
			case 1:
				ch = f.x.b
			case 2:
				ch = f.x.c
			}
		}
		if ch != nil {
			if ch.op != OConst && ch.sent&s.bit == 0 {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		if (f.x.op == OUF && n < len(f.x.args)) || (f.x.op != OUF && n < 3) {
			continue
		}
		y := f.x
		st = st[:len(st)-1]
		if y.sent&s.bit != 0 {
			continue
		}
		y.sent |= s.bit
		s.nterms++
		switch y.op {
		case OVar:
			fmt.Fprintf(s.in, "(declare-const t%d %s)\n", y.id, sortS(y.w))
			continue
		case OUF:
			if !s.ufDecl[y.name] {
				s.ufDecl[y.name] = true
				var as []string
				for _, a := range y.args {
					as = append(as, sortS(a.w))
				}
				fmt.Fprintf(s.in, "(declare-fun |%s| (%s) %s)\n", y.name, strings.Join(as, " "), sortS(y.w))
			}
			fmt.Fprintf(s.in, "(define-fun t%d () %s (|%s|", y.id, sortS(y.w), y.name)
			for _, a := range y.args {
				s.in.WriteString(" " + a.ref())
			}
			s.in.WriteString("))\n")
			continue
		}
		var e string
		switch y.op {
		case OZext:
			e = fmt.Sprintf("((_ zero_extend %d) %s)", y.w-y.a.w, y.a.ref())
		case OSext:
			e = fmt.Sprintf("((_ sign_extend %d) %s)", y.w-y.a.w, y.a.ref())
		case OExtract:
			e = fmt.Sprintf("((_ extract %d %d) %s)", y.n>>8, y.n&0xff, y.a.ref())
		case ONot, OBnot:
			e = "(" + opNames[y.op] + " " + y.a.ref() + ")"
		case OIte:
			e = "(ite " + y.a.ref() + " " + y.b.ref() + " " + y.c.ref() + ")"
		default:
			e = "(" + opNames[y.op] + " " + y.a.ref() + " " + y.b.ref() + ")"
		}
		s.in.WriteString("(define-fun t")
		s.in.WriteString(strconv.FormatUint(uint64(y.id), 10))
		s.in.WriteString(" () ")
		s.in.WriteString(sortS(y.w))
		s.in.WriteByte(' ')
		s.in.WriteString(e)
		s.in.WriteString(")\n")
	}
}

// support appends variables of x not seen in the current support set.
func (s *Solver) support(x *Term, lvl int) {
	if x.op == OConst || x.visGen == s.t.visGen {
		return
	}
	x.visGen = s.t.visGen
	if x.op == OVar {
		s.vars = append(s.vars, x)
		s.varLvl = append(s.varLvl, lvl)
		return
	}
	if x.op == OUF {
		s.vars = append(s.vars, x)
		s.varLvl = append(s.varLvl, lvl)
		for _, a := range x.args {
			s.support(a, lvl)
		}
		return
	}
	if x.a != nil {
		s.support(x.a, lvl)
	}
	if x.b != nil {
		s.support(x.b, lvl)
	}
	if x.c != nil {
		s.support(x.c, lvl)
	}
}

func (s *Solver) sync(pc []*Term) {
	if s.nterms > 400000 {
		s.restart()
	}
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if i < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-i)
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		s.send(pc[i])
		s.in.WriteString("(push 1)\n(assert ")
		s.in.WriteString(pc[i].ref())
		s.in.WriteString(")\n")
		s.stack = append(s.stack, pc[i])
	}
}

type satRes int

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

// check decides pc ∧ extra; on sat it returns a model.
func (s *Solver) check(pc []*Term, extra *Term) (satRes, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.slow {
			s.slow = d
		}
	}()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.send(extra)
		s.in.WriteString("(push 1)\n(assert ")
		s.in.WriteString(extra.ref())
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var res satRes
	var m Model
	switch line {
	case "sat":
		res = rSat
		s.Sat++
		s.t.visGen++
		s.vars = s.vars[:0]
		s.varLvl = s.varLvl[:0]
		for _, c := range pc {
			s.support(c, 0)
		}
		if extra != nil {
			s.support(extra, 0)
		}
		m = make(Model, len(s.vars))
		if len(s.vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range s.vars {
				s.send(v)
				s.in.WriteString(v.ref())
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			s.readValues(m)
		}
	case "unsat":
		res = rUnsat
		s.Unsat++
	default:
		res = rUnknown
		s.Unknown++
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", line)
		}
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// readValues parses ((t1 #x00) (t2 true) ...), order as requested.
func (s *Solver) readValues(m Model) {
	depth := 0
	var toks []string
	var cur []byte
	flush := func() {
		if len(cur) > 0 {
			toks = append(toks, string(cur))
			cur = cur[:0]
		}
	}
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("solver died: " + err.Error())
		}
		switch c {
		case '(':
			depth++
			flush()
		case ')':
			depth--
			flush()
			if depth == 0 {
				goto done
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			cur = append(cur, c)
		}
	}
done:
	// tokens alternate name value (value may be "_ bvN w" in cvc5)
	byRef := make(map[string]*Term, len(s.vars))
	for _, v := range s.vars {
		byRef[v.ref()] = v
	}
	for i := 0; i < len(toks); {
		v, ok := byRef[toks[i]]
		if !ok {
			if toks[0] == "error" {
				panic("solver error: " + strings.Join(toks, " "))
			}
			i++
			continue
		}
		val := toks[i+1]
		i += 2
		switch {
		case val == "true":
			m[v] = 1
		case val == "false":
			m[v] = 0
		case strings.HasPrefix(val, "#x"):
			n, _ := strconv.ParseUint(val[2:], 16, 64)
			m[v] = n
		case strings.HasPrefix(val, "#b"):
			n, _ := strconv.ParseUint(val[2:], 2, 64)
			m[v] = n
		case val == "_":
			n, _ := strconv.ParseUint(strings.TrimPrefix(toks[i], "bv"), 10, 64)
			m[v] = n
			i += 2
		}
	}
}

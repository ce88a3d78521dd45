package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type Solver struct {
	T         *Terms
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	defined   map[int32]bool
	cache     map[string]cacheEnt
	models    []Model
	Queries   int
	CacheHit  int
	ModelHit  int
	NSat      int
	NUnsat    int
	NUnknown  int
	Time      time.Duration
	timeoutMS int
	dead      bool
	buf       bytes.Buffer
}

type cacheEnt struct {
	r Res
	m Model
}

func NewSolver(T *Terms, timeoutMS int) *Solver {
	s := &Solver{T: T, cache: map[string]cacheEnt{}, timeoutMS: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.defined = map[int32]bool{}
	bin := "z3-new"
	if b := os.Getenv("VENG_Z3"); b != "" {
		bin = b
	}
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeoutMS)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	s.defined[t.id] = true
	if t.op == OVar {
		fmt.Fprintf(&s.buf, "(declare-const v%d %s)\n", t.id, t.sort)
		return
	}
	for i := 0; i < int(t.n); i++ {
		s.define(t.a[i])
	}
	fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", t.id, t.sort, s.T.body(t))
}

// slice keeps the conjuncts of pc that share variables (transitively) with q.
func (s *Solver) slice(pc []*Term, q *Term) []*Term {
	want := map[int32]bool{}
	for _, v := range s.T.Vars(q) {
		want[v] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range s.T.Vars(c) {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, c)
				for _, v := range s.T.Vars(c) {
					want[v] = true
				}
			}
		}
	}
	return out
}

// CheckWith decides pc AND q, where pc is known satisfiable.
func (s *Solver) CheckWith(pc []*Term, q *Term) (Res, Model) {
	if q.isConst() {
		if q.c == 1 {
			return Sat, nil
		}
		return Unsat, nil
	}
	cs := append(s.slice(pc, q), q)
	return s.Check(cs)
}

func (s *Solver) Check(cs []*Term) (Res, Model) {
	var k []*Term
	seen := map[int32]bool{}
	for _, c := range cs {
		if c.isFalse() {
			return Unsat, nil
		}
		if c.isTrue() || seen[c.id] {
			continue
		}
		if seen[s.T.Not(c).id] {
			return Unsat, nil
		}
		seen[c.id] = true
		k = append(k, c)
	}
	if len(k) == 0 {
		return Sat, Model{}
	}
	sort.Slice(k, func(i, j int) bool { return k[i].id < k[j].id })
	var kb strings.Builder
	for _, c := range k {
		fmt.Fprintf(&kb, "%d,", c.id)
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.CacheHit++
		return e.r, e.m
	}
	// recent models
	for i := len(s.models) - 1; i >= 0 && i >= len(s.models)-24; i-- {
		m := s.models[i]
		ok := true
		memo := map[int32]uint64{}
		for _, c := range k {
			if s.T.Eval(c, m, memo) != 1 {
				ok = false
				break
			}
		}
		if ok {
			s.ModelHit++
			s.cache[key] = cacheEnt{Sat, m}
			return Sat, m
		}
	}
	r, m := s.query(k)
	s.cache[key] = cacheEnt{r, m}
	if r == Sat {
		s.models = append(s.models, m)
		if len(s.models) > 256 {
			s.models = append([]Model(nil), s.models[128:]...)
		}
	}
	return r, m
}

func (s *Solver) query(k []*Term) (Res, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.dead {
		s.NUnknown++
		return Unknown, nil
	}
	s.buf.Reset()
	for _, c := range k {
		s.define(c)
	}
	s.buf.WriteString("(push)\n")
	vs := map[int32]bool{}
	for _, c := range k {
		fmt.Fprintf(&s.buf, "(assert %s)\n", s.T.ref(c))
		for _, v := range s.T.Vars(c) {
			vs[v] = true
		}
	}
	s.buf.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		return s.fail()
	}
	var wd *time.Timer
	if s.cmd != nil {
		p := s.cmd.Process
		wd = time.AfterFunc(time.Duration(s.timeoutMS)*time.Millisecond+3*time.Second, func() { p.Kill() })
	}
	line, err := s.readLine()
	wd.Stop()
	if d := os.Getenv("VENG_SLOW"); d != "" && time.Since(t0) > 150*time.Millisecond {
		s.dumpSlow(d, k, time.Since(t0))
	}
	if err != nil {
		return s.fail()
	}
	res := Unknown
	var m Model
	switch line {
	case "sat":
		res = Sat
		m = Model{}
		var vl []int32
		for v := range vs {
			vl = append(vl, v)
		}
		sort.Slice(vl, func(i, j int) bool { return vl[i] < vl[j] })
		if len(vl) > 0 {
			var b strings.Builder
			b.WriteString("(get-value (")
			for _, v := range vl {
				fmt.Fprintf(&b, "v%d ", v)
			}
			b.WriteString("))\n")
			io.WriteString(s.in, b.String())
			sexp, err := s.readSexp()
			if err != nil {
				return s.fail()
			}
			s.parseModel(sexp, m)
		}
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			solverErrors++
			lastSolverError = line
			s.Close()
			s.start()
			s.NUnknown++
			return Unknown, nil
		}
	}
	io.WriteString(s.in, "(pop)\n")
	switch res {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnknown++
	}
	return res, m
}

var solverErrors int
var lastSolverError string

func (s *Solver) fail() (Res, Model) {
	s.Close()
	s.start()
	s.NUnknown++
	return Unknown, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		b.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth == 0 && strings.TrimSpace(l) != "" {
			return b.String(), nil
		}
	}
}

type sx struct {
	atom string
	list []*sx
}

func parseSx(s string) *sx {
	pos := 0
	var p func() *sx
	p = func() *sx {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			n := &sx{list: []*sx{}}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
					pos++
				}
				if pos >= len(s) {
					return n
				}
				if s[pos] == ')' {
					pos++
					return n
				}
				n.list = append(n.list, p())
			}
		}
		st := pos
		for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
			pos++
		}
		return &sx{atom: s[st:pos]}
	}
	return p()
}

func bvAtom(a string) (uint64, uint) {
	if strings.HasPrefix(a, "#x") {
		v, _ := strconv.ParseUint(a[2:], 16, 64)
		return v, uint(4 * len(a[2:]))
	}
	if strings.HasPrefix(a, "#b") {
		v, _ := strconv.ParseUint(a[2:], 2, 64)
		return v, uint(len(a[2:]))
	}
	return 0, 0
}

func (s *Solver) parseModel(txt string, m Model) {
	root := parseSx(txt)
	if root == nil {
		return
	}
	for _, e := range root.list {
		if len(e.list) != 2 || !strings.HasPrefix(e.list[0].atom, "v") {
			continue
		}
		id, _ := strconv.Atoi(e.list[0].atom[1:])
		v := e.list[1]
		var val uint64
		switch {
		case v.atom == "true":
			val = 1
		case v.atom == "false":
			val = 0
		case v.atom != "":
			val, _ = bvAtom(v.atom)
		case len(v.list) == 4 && v.list[0].atom == "fp":
			sg, _ := bvAtom(v.list[1].atom)
			ex, ew := bvAtom(v.list[2].atom)
			fr, fw := bvAtom(v.list[3].atom)
			val = sg<<(ew+fw) | ex<<fw | fr
		case len(v.list) >= 3 && v.list[0].atom == "_":
			a := v.list[1].atom
			t := s.T.all[id]
			f64 := t.sort == SF64
			pick := func(x, y uint64) uint64 {
				if f64 {
					return x
				}
				return y
			}
			switch {
			case strings.HasPrefix(a, "bv"):
				val, _ = strconv.ParseUint(a[2:], 10, 64)
			case a == "+zero":
				val = 0
			case a == "-zero":
				val = pick(1<<63, 1<<31)
			case a == "+oo":
				val = pick(0x7ff0000000000000, 0x7f800000)
			case a == "-oo":
				val = pick(0xfff0000000000000, 0xff800000)
			case a == "NaN":
				val = pick(0x7ff8000000000001, 0x7fc00000)
			}
		}
		m[int32(id)] = val
	}
}

// dumpSlow writes a standalone query (debugging aid).
func (s *Solver) dumpSlow(dir string, k []*Term, d time.Duration) {
	sv, sb := s.defined, s.buf
	s.defined, s.buf = map[int32]bool{}, bytes.Buffer{}
	for _, c := range k {
		s.define(c)
	}
	for _, c := range k {
		fmt.Fprintf(&s.buf, "(assert %s)\n", s.T.ref(c))
	}
	s.buf.WriteString("(check-sat)\n")
	os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", dir, s.Queries, d.Milliseconds()), s.buf.Bytes(), 0644)
	s.defined, s.buf = sv, sb
}

package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var noopPkgs = []string{modPath + "/lib/log", "go.uber.org/zap", "log", "gopkg.in/natefinch/lumberjack.v2"}

const symPkg = modPath + "/verifsym"

func (st *State) label(name string) string {
	n := make(map[string]int, len(st.labels)+1)
	for k, v := range st.labels {
		n[k] = v
	}
	k := n[name]
	n[name]++
	st.labels = n
	return fmt.Sprintf("%s#%d", name, k)
}

func (c *Ctx) str(v Value) string {
	s := v.(Str)
	if !s.concrete() {
		unsupported("symbolic label")
	}
	return s.s
}

func (st *State) addInput(name, kind string, ts []*Term) {
	st.inputs = &inputNode{prev: st.inputs, name: name, kind: kind, t: ts}
}

// mergedDec makes an intrinsic that consumes names idempotent under instruction restart:
// names are only consumed when the instruction completes, so peek first.
func (st *State) peek(name string) string { return fmt.Sprintf("%s#%d", name, st.labels[name]) }

func typeOfParam(fn *ssa.Function, i int) types.Type { return fn.Signature.Params().At(i).Type() }

func fieldIndex(t types.Type, name string) int {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic("no field " + name + " in " + t.String())
}

func (ex *Exec) nilDeref(c *Ctx, p Ptr) {
	if p.obj == 0 {
		ex.goPanicf(c, "invalid memory address or nil pointer dereference")
	}
}

func registerIntrinsics(ex *Exec) {
	T := ex.T
	I := ex.intr
	void := TupleV{}
	sym := func(name string, sort Sort) {
		I[symPkg+"."+name] = func(c *Ctx, a []Value) Value {
			n := c.st.label(c.str(a[0]))
			v := T.Var(sort, n)
			c.st.addInput(n, name, []*Term{v})
			return v
		}
	}
	sym("Int", 64)
	sym("Int64", 64)
	sym("Int32", 32)
	sym("Int16", 16)
	sym("Int8", 8)
	sym("Uint64", 64)
	sym("Uint32", 32)
	sym("Uint16", 16)
	sym("Uint", 64)
	sym("Byte", 8)
	I[symPkg+".Bool"] = func(c *Ctx, a []Value) Value {
		n := c.st.label(c.str(a[0]))
		v := T.Var(1, n)
		c.st.addInput(n, "Bool", []*Term{v})
		return T.Eq(v, T.Const(1, 1))
	}
	I[symPkg+".Float64"] = func(c *Ctx, a []Value) Value {
		n := c.st.label(c.str(a[0]))
		v := T.Var(64, n)
		c.st.addInput(n, "Float64", []*Term{v})
		return T.BVToF(v, SF64)
	}
	I[symPkg+".Float32"] = func(c *Ctx, a []Value) Value {
		n := c.st.label(c.str(a[0]))
		v := T.Var(32, n)
		c.st.addInput(n, "Float32", []*Term{v})
		return T.BVToF(v, SF32)
	}
	I[symPkg+".Choice"] = func(c *Ctx, a []Value) Value {
		n := c.st.peek(c.str(a[0]))
		k := a[1].(*Term).sval()
		v := T.Var(64, n)
		th := c.th
		idx := 0
		if k > 1 {
			if th.decPos < len(th.dec) {
				idx = th.dec[th.decPos]
				th.decPos++
			} else {
				opts := make([]*Term, k)
				for i := range opts {
					opts[i] = T.Eq(v, T.Const(64, uint64(i)))
				}
				panic(forkReq{opts: opts})
			}
		}
		c.st.label(c.str(a[0]))
		c.st.addInput(n, "Choice", []*Term{v})
		return T.Int(64, int64(idx))
	}
	mkBytes := func(c *Ctx, a []Value, exact bool) []*Term {
		base := c.str(a[0])
		n := c.st.peek(base)
		mx := int(a[1].(*Term).sval())
		ln := mx
		if !exact && mx > 0 {
			v := T.Var(16, n+".len")
			th := c.th
			if th.decPos < len(th.dec) {
				ln = th.dec[th.decPos]
				th.decPos++
			} else {
				opts := make([]*Term, mx+1)
				for i := range opts {
					opts[i] = T.Eq(v, T.Const(16, uint64(i)))
				}
				panic(forkReq{opts: opts})
			}
		}
		c.st.label(base)
		bs := make([]*Term, ln)
		for i := range bs {
			bs[i] = T.Var(8, fmt.Sprintf("%s[%d]", n, i))
		}
		c.st.inputs = &inputNode{prev: c.st.inputs, name: n, kind: "bytes", t: bs, str: true}
		return bs
	}
	I[symPkg+".String"] = func(c *Ctx, a []Value) Value { return mkStr(mkBytes(c, a, false)) }
	I[symPkg+".StringN"] = func(c *Ctx, a []Value) Value { return mkStr(mkBytes(c, a, true)) }
	I[symPkg+".Bytes"] = func(c *Ctx, a []Value) Value {
		b := mkBytes(c, a, false)
		return ex.bytesSlice(c.st, b)
	}
	I[symPkg+".B2I"] = func(c *Ctx, a []Value) Value { return T.Ite(a[0].(*Term), T.Int(64, 1), T.Int(64, 0)) }
	I[symPkg+".And"] = func(c *Ctx, a []Value) Value { return T.And(a[0].(*Term), a[1].(*Term)) }
	I[symPkg+".Or"] = func(c *Ctx, a []Value) Value { return T.Or(a[0].(*Term), a[1].(*Term)) }
	I[symPkg+".Implies"] = func(c *Ctx, a []Value) Value { return T.Or(T.Not(a[0].(*Term)), a[1].(*Term)) }
	I[symPkg+".Size"] = func(c *Ctx, a []Value) Value {
		if *fTier == "thorough" {
			return a[1]
		}
		return a[0]
	}
	I[symPkg+".Symbolic"] = func(c *Ctx, a []Value) Value { return T.True }
	I[symPkg+".Assume"] = func(c *Ctx, a []Value) Value {
		cond := a[0].(*Term)
		if cond.isFalse() {
			panic(pathEnd{"assume", ""})
		}
		if cond.isTrue() {
			return void
		}
		r, _ := ex.S.CheckWith(c.st.pcList(), cond)
		if r == Unsat {
			panic(pathEnd{"assume", ""})
		}
		if r == Unknown {
			panic(pathEnd{"inconclusive", "solver unknown on assumption"})
		}
		c.st.addPC(cond)
		return void
	}
	I[symPkg+".Assert"] = func(c *Ctx, a []Value) Value {
		ex.assert(c, a[0].(*Term), c.str(a[1]))
		return void
	}
	I[symPkg+".Reach"] = func(c *Ctx, a []Value) Value {
		n := make(map[string]bool, len(c.st.reach)+1)
		for k := range c.st.reach {
			n[k] = true
		}
		n[c.str(a[0])] = true
		c.st.reach = n
		return void
	}
	I[symPkg+".Observe"] = func(c *Ctx, a []Value) Value {
		c.st.obs = &obsNode{prev: c.st.obs, label: c.str(a[0]), v: a[1]}
		return void
	}
	I[symPkg+".Yield"] = func(c *Ctx, a []Value) Value { return void }
	I[symPkg+".Quiesce"] = func(c *Ctx, a []Value) Value {
		if len(c.st.threads) == 1 {
			return void
		}
		panic(blockReq{blockReason{kind: "quiesce"}})
	}
	sleep := func(c *Ctx, a []Value) Value {
		d := a[0].(*Term)
		n := int64(c.concretize(d))
		if n <= 0 {
			return void
		}
		c.st.timers = append(append([]TimerEnt(nil), c.st.timers...), TimerEnt{id: -1, when: c.st.now + n, sleepTh: c.th.id})
		panic(parkReq{})
	}
	I[symPkg+".Advance"] = sleep
	I["time.Sleep"] = sleep
	I[symPkg+".Now"] = func(c *Ctx, a []Value) Value { return T.Int(64, c.st.now) }
	I[symPkg+".Atomic"] = func(c *Ctx, a []Value) Value {
		c.st.atomicDepth++
		cl := a[0].(*Closure)
		reg := -1
		_ = reg
		fr := ex.pushFrame(c, cl.fn, cl.bind, nil, -1)
		fr.onRet = func(ex *Exec, st *State, th *Thread, r Value) {
			st.atomicDepth--
			par := st.mutFrame(th, len(th.frames)-1)
			par.ip++
		}
		panic(pushed{})
	}
	I[symPkg+".Setup"] = I[symPkg+".Atomic"]
	I[symPkg+".fmtInt"] = func(c *Ctx, a []Value) Value { return ex.fmtInt(a[0].(*Term), true) }
	I[symPkg+".fmtUint"] = func(c *Ctx, a []Value) Value { return ex.fmtInt(a[0].(*Term), false) }
	I[symPkg+".opaque"] = func(c *Ctx, a []Value) Value {
		i := a[0].(Iface)
		return Str{s: ex.opaqueShow(c.st, i.v, 4)}
	}
	I[symPkg+".sameComparable"] = func(c *Ctx, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t != nil && !types.Comparable(x.t) {
			return T.False
		}
		return ex.equal(c, x, y)
	}
	I[symPkg+".assignTo"] = func(c *Ctx, a []Value) Value {
		e, tgt := a[0].(Iface), a[1].(Iface)
		pt, ok := under(tgt.t).(*types.Pointer)
		if !ok {
			ex.goPanicf(c, "errors: target must be a non-nil pointer")
		}
		el := pt.Elem()
		if it, ok := under(el).(*types.Interface); ok {
			if !ex.implements(e.t, it) {
				return T.False
			}
			c.st.store(tgt.v.(Ptr), e)
			return T.True
		}
		if !types.Identical(e.t, el) {
			return T.False
		}
		c.st.store(tgt.v.(Ptr), e.v)
		return T.True
	}
	I[symPkg+".sliceLen"] = func(c *Ctx, a []Value) Value {
		return T.Int(64, int64(a[0].(Iface).v.(Slice).len))
	}
	I[symPkg+".sliceSwap"] = func(c *Ctx, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		i, j := int(a[1].(*Term).sval()), int(a[2].(*Term).sval())
		x, y := c.st.load(s.arr.field(s.off+i)), c.st.load(s.arr.field(s.off+j))
		c.st.store(s.arr.field(s.off+i), y)
		c.st.store(s.arr.field(s.off+j), x)
		return void
	}
	R := ex.redirect
	R["fmt.Sprintf"] = symPkg + ".Sprintf"
	R["fmt.Errorf"] = symPkg + ".Errorf"
	R["fmt.Sprint"] = symPkg + ".Sprint"
	R["fmt.Sprintln"] = symPkg + ".Sprintln"
	R["errors.Is"] = symPkg + ".ErrorsIs"
	R["errors.As"] = symPkg + ".ErrorsAs"
	R["github.com/uber/jaeger-client-go.NewMetrics"] = "github.com/pojol/braid/verifharness/models/jaegerm.NewMetrics"
	R["github.com/redis/go-redis/v9.appendArg"] = "github.com/pojol/braid/verifharness/fredis.AppendArg"
	R["math.Max"], R["math.Min"] = "math.max", "math.min"
	const mod = "github.com/pojol/braid/verifharness/models/"
	R["crypto/hmac.New"], R["crypto/hmac.Equal"] = mod+"macm.New", mod+"macm.Equal"
	R["(crypto.Hash).New"], R["(crypto.Hash).Available"] = mod+"macm.HashNew", mod+"macm.HashAvailable"
	for f, t := range map[string]string{"grpc.DialContext": "DialContext", "grpc.NewServer": "NewServer", "grpc.WithUnaryInterceptor": "WithUnaryInterceptor",
		"grpc.WithTransportCredentials": "WithTransportCredentials", "grpc.UnaryInterceptor": "UnaryInterceptor", "grpc/credentials/insecure.NewCredentials": "NewCredentials"} {
		R["google.golang.org/"+f] = mod + "grpcm." + t
	}
	for _, f := range []string{"Invoke", "GetState", "ResetConnectBackoff", "Close", "Target"} {
		R["(*google.golang.org/grpc.ClientConn)."+f] = mod + "grpcm." + f
	}
	for _, f := range []string{"RegisterService", "Serve", "GracefulStop", "Stop"} {
		R["(*google.golang.org/grpc.Server)."+f] = mod + "grpcm." + f
	}
	R["net.Listen"] = mod + "grpcm.Listen"
	R["os/signal.Notify"] = mod + "sigm.Notify"
	R["sort.Slice"] = symPkg + ".SortSlice"
	R["sort.SliceStable"] = symPkg + ".SortSlice"
	for _, w := range []struct {
		n string
		b int
	}{{"Len64", 64}, {"Len", 64}, {"Len32", 32}, {"Len16", 16}, {"Len8", 8}} {
		I["math/bits."+w.n] = func(c *Ctx, a []Value) Value { return T.Resize(bitLen(T, a[0].(*Term), w.b), 64, false) }
	}
	nop := func(names ...string) {
		for _, n := range names {
			I[n] = func(c *Ctx, a []Value) Value { return zeroResult(ex, c.fn) }
		}
	}
	nop("time.initLocal", "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"runtime/debug.PrintStack", "os/signal.Stop", "time.syncTimer", "sync.runtime_registerPoolCleanup", "sync.throw", "sync.fatal",
		"internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault", "golang.org/x/net/trace.init")
	I["runtime/debug.Stack"] = func(c *Ctx, a []Value) Value { return Slice{} }
	I["runtime.Stack"] = func(c *Ctx, a []Value) Value { return T.Int(64, 0) }
	I["runtime.Caller"] = func(c *Ctx, a []Value) Value {
		return TupleV{T.Int(64, 1), Str{s: "file.go"}, T.Int(64, 1), T.True}
	}
	I["runtime.Callers"] = func(c *Ctx, a []Value) Value { return T.Int(64, 0) }
	I["runtime.NumGoroutine"] = func(c *Ctx, a []Value) Value {
		n := 0
		for _, t := range c.st.threads {
			if t.status != TDone {
				n++
			}
		}
		return T.Int(64, int64(n))
	}
	I["runtime.NumCPU"] = func(c *Ctx, a []Value) Value { return T.Int(64, 4) }
	I["runtime.GOMAXPROCS"] = I["runtime.NumCPU"]
	I["(*internal/godebug.Setting).Value"] = func(c *Ctx, a []Value) Value { return Str{} }
	I["(*internal/godebug.Setting).IncNonDefault"] = func(c *Ctx, a []Value) Value { return void }
	I["os.Getenv"] = func(c *Ctx, a []Value) Value { return Str{} }
	I["os.LookupEnv"] = func(c *Ctx, a []Value) Value { return TupleV{Str{}, T.False} }
	I["os.Hostname"] = func(c *Ctx, a []Value) Value { return TupleV{Str{s: "host"}, Iface{}} }
	I["os.Getpid"] = func(c *Ctx, a []Value) Value { return T.Int(64, 4242) }
	I["internal/abi.NoEscape"] = func(c *Ctx, a []Value) Value { return a[0] }
	I["strings.noescape"] = func(c *Ctx, a []Value) Value { return a[0] }
	I["internal/abi.Escape"] = func(c *Ctx, a []Value) Value { return a[0] }
	I["strings.Clone"] = func(c *Ctx, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = func(c *Ctx, a []Value) Value { return a[0] }

	// math
	m1 := func(n string, f func(float64) float64) {
		I[n] = func(c *Ctx, a []Value) Value {
			t := a[0].(*Term)
			if !t.isConst() {
				unsupported("%s on a symbolic value", n)
			}
			return T.FConst(SF64, f(fval(t)))
		}
	}
	m1("math.Floor", math.Floor)
	m1("math.Ceil", math.Ceil)
	m1("math.Trunc", math.Trunc)
	m1("math.Sqrt", math.Sqrt)
	I["math.Float64bits"] = func(c *Ctx, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return T.Const(64, t.c)
		}
		if t.op == OBVToF {
			return t.a[0]
		}
		unsupported("Float64bits of a computed symbolic value")
		return nil
	}
	I["math.Float32bits"] = func(c *Ctx, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return T.Const(32, t.c)
		}
		if t.op == OBVToF {
			return t.a[0]
		}
		unsupported("Float32bits of a computed symbolic value")
		return nil
	}
	I["math.Float64frombits"] = func(c *Ctx, a []Value) Value { return T.BVToF(a[0].(*Term), SF64) }
	I["math.Float32frombits"] = func(c *Ctx, a []Value) Value { return T.BVToF(a[0].(*Term), SF32) }
	I["math.Abs"] = func(c *Ctx, a []Value) Value {
		t := a[0].(*Term)
		return T.Ite(T.FCmp(OFLt, t, T.FConst(SF64, 0)), T.FNeg(t), t)
	}

	registerSync(ex)
	registerTime(ex)
	registerBytes(ex)
	registerMisc(ex)
	registerJSON(ex)
	registerJWT(ex)
	registerReflect(ex)
}

func (ex *Exec) assert(c *Ctx, cond *Term, label string) {
	ex.asserts[label]++
	if cond.isTrue() {
		ex.trivial++
		return
	}
	if c.th.decPos < len(c.th.dec) { // resumed after a violation was noted
		c.th.decPos++
		return
	}
	ex.stats.AssertQ++
	pos := ""
	for i := len(c.th.frames) - 1; i >= 0; i-- {
		f := c.th.frames[i]
		if f.fi.user {
			pos = ex.posOf(f.fi.fn.Blocks[f.block].Instrs[f.ip], f)
			break
		}
	}
	r, _ := ex.S.CheckWith(c.st.pcList(), ex.T.Not(cond))
	switch r {
	case Unknown:
		panic(pathEnd{"inconclusive", "solver unknown on assertion " + label})
	case Sat:
		ex.report(c.st, "assert", label, pos, ex.T.Not(cond))
		if cond.isFalse() {
			panic(pathEnd{"violation", label})
		}
		r2, _ := ex.S.CheckWith(c.st.pcList(), cond)
		if r2 != Sat {
			panic(pathEnd{"violation", label})
		}
		c.st.addPC(cond)
	}
}

func (ex *Exec) report(st *State, kind, msg, pos string, cond *Term) {
	key := kind + "|" + msg
	if kind == "deadlock" || kind == "panic" || kind == "nontermination" {
		key = kind + "|" + pos + "|" + msg
	}
	if ex.violSeen[key] {
		return
	}
	pc := st.pcList()
	if cond != nil {
		pc = append(pc, cond)
	}
	r, m := ex.S.Check(pc)
	if r != Sat {
		if r == Unknown {
			ex.inconc["solver unknown on counterexample for "+msg]++
		} else {
			ex.inconc["counterexample path not satisfiable: "+msg]++
		}
		return
	}
	ex.violSeen[key] = true
	v := &Violation{Harness: ex.harness, Kind: kind, Label: msg, Pos: pos, Model: m, Cond: cond}
	s2 := *st
	v.St = &s2
	v.Inputs = ex.inputsOf(st, m)
	v.Sched = schedOf(ex, st, m)
	ex.viol = append(ex.viol, v)
}

func (ex *Exec) inputsOf(st *State, m Model) map[string]interface{} {
	out := map[string]interface{}{}
	memo := map[int32]uint64{}
	for n := st.inputs; n != nil; n = n.prev {
		if n.kind == "bytes" {
			bs := make([]int, len(n.t))
			for i, t := range n.t {
				bs[i] = int(ex.T.Eval(t, m, memo) & 0xff)
			}
			out[n.name] = bs
			continue
		}
		t := n.t[0]
		v := ex.T.Eval(t, m, memo)
		if strings.HasPrefix(n.kind, "Int") || n.kind == "Choice" {
			out[n.name] = fmt.Sprint(sext(v, t.sort.width()))
		} else {
			out[n.name] = fmt.Sprint(v)
		}
	}
	return out
}

func (ex *Exec) opaqueShow(st *State, v Value, d int) string {
	if d == 0 {
		return "..."
	}
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			if x.sort == SBool {
				return fmt.Sprint(x.c == 1)
			}
			if x.sort.isFP() {
				return fmt.Sprint(fval(x))
			}
			return fmt.Sprint(x.sval())
		}
		return "?"
	case Str:
		return x.show()
	case Slice:
		s := "["
		for i, e := range ex.sliceElemsSafe(st, x) {
			if i > 0 {
				s += " "
			}
			s += ex.opaqueShow(st, e, d-1)
		}
		return s + "]"
	case StructV:
		s := "{"
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += ex.opaqueShow(st, e, d-1)
		}
		return s + "}"
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		return ex.opaqueShow(st, x.v, d-1)
	case Ptr:
		if x.obj == 0 {
			return "<nil>"
		}
		return "ptr"
	}
	return fmt.Sprintf("%T", v)
}

func (ex *Exec) sliceElemsSafe(st *State, s Slice) []Value {
	if s.blob != nil {
		return nil
	}
	return ex.sliceElems(st, s)
}

// bitLen is math/bits.Len as a term (the library uses a table).
func bitLen(T *Terms, x *Term, w int) *Term {
	r := T.Const(BV(8), 0)
	for i := 0; i < w; i++ {
		if umax(x) < uint64(1)<<uint(i) {
			break
		}
		r = T.Ite(T.Ule(T.Const(x.sort, uint64(1)<<uint(i)), x), T.Const(BV(8), uint64(i+1)), r)
	}
	return r
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) noteFn(fi *FnInfo) {
	if fi.user && !ex.initMode {
		if !ex.fnUsed[fi.name] {
			ex.fnUsed[fi.name] = true
		}
	}
}

// call executes a call instruction; the result register is set when it completes.
func (ex *Exec) call(c *Ctx, cc *ssa.CallCommon, reg int) {
	fr := c.fr
	c.call = cc
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(cc.Args))
		for i, a := range cc.Args {
			args[i] = ex.get(fr, a)
		}
		v := ex.builtin(c, b.Name(), args, cc)
		fr.regs[reg] = v
		fr.ip++
		return
	}
	cl, args := ex.callee(c, cc, func(v ssa.Value) Value { return ex.get(fr, v) })
	v, push := ex.invoke(c, cl, args, reg)
	if !push {
		fr.regs[reg] = v
		fr.ip++
	}
}

func (ex *Exec) callee(c *Ctx, cc *ssa.CallCommon, get func(ssa.Value) Value) (*Closure, []Value) {
	if cc.IsInvoke() {
		i, ok := get(cc.Value).(Iface)
		if !ok {
			unsupported("invoke on non-interface")
		}
		if i.t == nil {
			ex.goPanicf(c, "invalid memory address or nil pointer dereference")
		}
		fn := ex.lookup(i.t, cc.Method)
		args := make([]Value, 0, len(cc.Args)+1)
		args = append(args, i.v)
		for _, a := range cc.Args {
			args = append(args, get(a))
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = get(a)
	}
	v := get(cc.Value)
	cl, ok := v.(*Closure)
	if !ok {
		unsupported("call of %T", v)
	}
	if cl == nil {
		ex.goPanicf(c, "invalid memory address or nil pointer dereference")
	}
	return cl, args
}

func (ex *Exec) lookup(t types.Type, m *types.Func) *ssa.Function {
	key := ex.typeKey(t) + "." + m.Id()
	if f, ok := ex.methods[key]; ok {
		return f
	}
	sel := ex.P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		unsupported("no method %s on %v", m.Name(), t)
	}
	ex.P.mu.Lock()
	f := ex.P.prog.MethodValue(sel)
	ex.P.mu.Unlock()
	ex.methods[key] = f
	return f
}

func (ex *Exec) noop(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	for _, n := range noopPkgs {
		if p == n || strings.HasPrefix(p, n+"/") {
			return true
		}
	}
	return false
}

func zeroResult(ex *Exec, fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return TupleV{}
	case 1:
		return ex.zero(r.At(0).Type())
	}
	return ex.zero(r)
}

// intrinsicFor finds the intrinsic, redirect or no-op for a function.
func (ex *Exec) fnKey(fn *ssa.Function) string {
	if k, ok := ex.keys[fn]; ok {
		return k
	}
	k := fn.String()
	if o := fn.Origin(); o != nil {
		k = o.String()
	}
	ex.keys[fn] = k
	return k
}

// invoke runs an intrinsic at once (false) or pushes a frame (true).
func (ex *Exec) invoke(c *Ctx, cl *Closure, args []Value, reg int) (Value, bool) {
	if cl.fn == nil {
		in := ex.intr[cl.intr]
		if in == nil {
			unsupported("closure %s", cl.intr)
		}
		return in(c, append(append([]Value(nil), cl.bind...), args...)), false
	}
	fn := cl.fn
	key := ex.fnKey(fn)
	if r, ok := ex.redirect[key]; ok {
		if f := ex.funcByName(r); f != nil {
			fn = f
			key = ex.fnKey(fn)
		}
	}
	if in, ok := ex.intr[key]; ok {
		c.fn = fn
		v := in(c, args)
		if v == nil {
			v = TupleV{}
		}
		if _, ok := v.(runBody); !ok {
			return v, false
		}
	}
	if ex.noop(fn) {
		return zeroResult(ex, fn), false
	}
	ex.pushFrame(c, fn, cl.bind, args, reg)
	return nil, true
}

type runBody struct{} // returned by an intrinsic that declines

func (ex *Exec) pushFrame(c *Ctx, fn *ssa.Function, free, args []Value, reg int) *Frame {
	fi := ex.fnInfo(fn)
	if fn.Blocks == nil {
		if ex.noBody[fi.name] == 0 && ex.debug {
			fmt.Println("no body:", fi.name)
		}
		ex.noBody[fi.name]++
		unsupported("no body: %s", fi.name)
	}
	th := c.th
	if len(th.frames) > 400 {
		panic(pathEnd{"inconclusive", "call depth bound in " + fi.name})
	}
	ex.noteFn(fi)
	fr := &Frame{gen: c.st.gen, fi: fi, regs: make([]Value, fi.nregs), free: free, retReg: reg}
	if len(args) < len(fn.Params) {
		panic(fmt.Sprintf("argument count %s: %d < %d", fi.name, len(args), len(fn.Params)))
	}
	copy(fr.regs, args[:len(fn.Params)])
	th.frames = append(th.frames, fr)
	return fr
}

func (ex *Exec) funcByName(n string) *ssa.Function {
	if f, ok := ex.fnByName[n]; ok {
		return f
	}
	i := strings.LastIndex(n, ".")
	var f *ssa.Function
	if p := ex.P.pkgs[n[:i]]; p != nil {
		ex.P.build(p)
		f = p.Func(n[i+1:])
	}
	ex.fnByName[n] = f
	return f
}

// callBack pushes a call of a Go closure from an intrinsic; onRet receives the result.
func (ex *Exec) callBack(c *Ctx, cl *Closure, args []Value, onRet func(ex *Exec, st *State, th *Thread, r Value)) {
	fr := ex.pushFrame(c, cl.fn, cl.bind, args, -1)
	fr.onRet = onRet
}

func (ex *Exec) ret(st *State, th *Thread, v Value) {
	fr := th.frames[len(th.frames)-1]
	th.frames = th.frames[:len(th.frames)-1]
	if len(th.frames) == 0 {
		th.status = TDone
		return
	}
	par := st.mutFrame(th, len(th.frames)-1)
	if fr.isDefer {
		if par.panicking || par.rundefer {
			if e, ok := ex.deferLoop(st, th); ok {
				panic(e)
			}
		}
		return
	}
	if fr.onRet != nil {
		fr.onRet(ex, st, th, v)
		return
	}
	if fr.retReg >= 0 {
		par.regs[fr.retReg] = v
	}
	par.ip++
}

// runDefer executes one deferred call in the normal RunDefers loop.
func (ex *Exec) runDefer(c *Ctx, d DeferRec, undo func()) {
	ok := false
	defer func() {
		if !ok {
			if r := recover(); r != nil {
				switch r.(type) {
				case forkReq, blockReq:
					undo()
				}
				panic(r)
			}
		}
	}()
	ex.startDefer(c, d)
	ok = true
}

// startDefer pushes the deferred function's frame, or runs it inline if it is an intrinsic.
func (ex *Exec) startDefer(c *Ctx, d DeferRec) bool {
	c.call = d.call
	if b, ok := d.fn.(*ssa.Builtin); ok {
		ex.builtin(c, b.Name(), d.args, d.call)
		return false
	}
	var cl *Closure
	args := d.args
	if d.call.IsInvoke() {
		i := d.fn.(Iface)
		if i.t == nil {
			ex.goPanicf(c, "invalid memory address or nil pointer dereference")
		}
		cl = &Closure{fn: ex.lookup(i.t, d.call.Method)}
		args = append([]Value{i.v}, d.args...)
	} else {
		cl, _ = d.fn.(*Closure)
		if cl == nil {
			ex.goPanicf(c, "invalid memory address or nil pointer dereference")
		}
	}
	_, push := ex.invoke(c, cl, args, -1)
	if push {
		fr := c.th.frames[len(c.th.frames)-1]
		fr.isDefer = true
	}
	return push
}

func (ex *Exec) startPanic(st *State, th *Thread, p goPanic, in ssa.Instruction) (pathEnd, bool) {
	fr := st.mutFrame(th, len(th.frames)-1)
	fr.panicking = true
	fr.recovered = false
	fr.rundefer = false
	fr.panicVal = p.val
	fr.panicPos = ex.posOf(in, fr) + ": " + p.msg
	st.tr(th.name, "panic: "+p.msg, in)
	return ex.deferLoop(st, th)
}

func (ex *Exec) deferLoop(st *State, th *Thread) (end pathEnd, ended bool) {
	for {
		fr := st.mutFrame(th, len(th.frames)-1)
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			pushedF := false
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch x := r.(type) {
						case goPanic:
							fr.panicking = true
							fr.rundefer = false
							fr.panicVal = x.val
							fr.panicPos = ex.posOf(d.pos, fr) + ": " + x.msg
						case forkReq, blockReq, parkReq:
							panic(unsupportedErr{"symbolic choice or blocking in a deferred intrinsic while panicking"})
						default:
							panic(r)
						}
					}
				}()
				c := &Ctx{ex: ex, st: st, th: th, fr: fr, in: d.pos}
				pushedF = ex.startDefer(c, d)
			}()
			if pushedF {
				return pathEnd{}, false
			}
			continue
		}
		if fr.panicking {
			pv, pp := fr.panicVal, fr.panicPos
			wasDefer := fr.isDefer
			th.frames = th.frames[:len(th.frames)-1]
			if len(th.frames) == 0 {
				th.status = TDone
				ex.report(st, "panic", "uncaught panic in "+th.name+": "+pp, pp, nil)
				return pathEnd{"violation", "panic"}, true
			}
			par := st.mutFrame(th, len(th.frames)-1)
			_ = wasDefer
			par.panicking = true
			par.rundefer = false
			par.recovered = false
			par.panicVal, par.panicPos = pv, pp
			continue
		}
		if fr.rundefer {
			fr.rundefer = false
			fr.recovered = false
			fn := fr.fi.fn
			if fn.Recover != nil {
				fr.block = fn.Recover.Index
				fr.ip = 0
				return pathEnd{}, false
			}
			// no named results: return zero values
			ex.ret(st, th, zeroResult(ex, fn))
			return pathEnd{}, false
		}
		return pathEnd{}, false
	}
}

func (ex *Exec) showPanic(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		switch x := i.v.(type) {
		case Str:
			return x.show()
		case *Term:
			return ex.T.Show(x, 3)
		}
		return "value of type " + i.t.String()
	}
	return fmt.Sprintf("%T", v)
}

func (ex *Exec) spawnCall(c *Ctx, cc *ssa.CallCommon) {
	fr := c.fr
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		unsupported("go builtin")
	}
	cl, args := ex.callee(c, cc, func(v ssa.Value) Value { return ex.get(fr, v) })
	if cl.fn == nil || ex.noop(cl.fn) {
		return
	}
	if in, ok := ex.intr[ex.fnKey(cl.fn)]; ok {
		_ = in
		unsupported("go %s", cl.fn)
	}
	if r, ok := ex.redirect[ex.fnKey(cl.fn)]; ok {
		if f := ex.funcByName(r); f != nil {
			cl = &Closure{fn: f, bind: cl.bind}
		}
	}
	ex.fnInfo(cl.fn)
	if ex.initMode {
		return
	}
	ex.spawn(c.st, c.th, "", cl, args, c.th.vc)
	c.th.vc = c.th.vc.inc(c.th.id)
}

// ---- builtins

func (ex *Exec) builtin(c *Ctx, name string, args []Value, cc *ssa.CallCommon) Value {
	T, st := ex.T, c.st
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Str:
			if x.blob != nil {
				return ex.blobLen(x.blob)
			}
			return T.Int(64, int64(x.length()))
		case Slice:
			if x.blob != nil {
				return ex.blobLen(x.blob)
			}
			if name == "cap" {
				return T.Int(64, int64(x.cap))
			}
			return T.Int(64, int64(x.len))
		case MapRef:
			if x.obj == 0 {
				return T.Int(64, 0)
			}
			ex.access(c, Ptr{obj: x.obj}, false)
			return T.Int(64, int64(len(st.obj(x.obj).v.(*MapV).ents)))
		case ChanRef:
			if x.obj == 0 {
				return T.Int(64, 0)
			}
			ch := st.obj(x.obj).v.(*ChanV)
			if name == "cap" {
				return T.Int(64, int64(ch.cap))
			}
			return T.Int(64, int64(len(ch.buf)))
		case ArrV:
			return T.Int(64, int64(len(x)))
		case Ptr:
			return T.Int(64, under(under(cc.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		}
	case "append":
		return ex.appendOp(c, args, cc)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			src = append([]Value(nil), ex.sliceElems(st, s)...)
		case Str:
			for _, b := range ex.strBytes(s) {
				src = append(src, b)
			}
		}
		n := min(dst.len, len(src))
		for i := 0; i < n; i++ {
			st.store(dst.arr.field(dst.off+i), src[i])
		}
		return T.Int(64, int64(n))
	case "delete":
		ex.mapDelete(c, args[0].(MapRef), args[1])
		return TupleV{}
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.obj != 0 {
				ex.access(c, Ptr{obj: x.obj}, true)
				st.mutObj(x.obj).v = &MapV{}
			}
		case Slice:
			z := ex.zero(under(cc.Args[0].Type()).(*types.Slice).Elem())
			for i := 0; i < x.len; i++ {
				st.store(x.arr.field(x.off+i), z)
			}
		}
		return TupleV{}
	case "close":
		ex.closeChan(c, args[0].(ChanRef))
		return TupleV{}
	case "recover":
		fr := c.fr
		if fr.isDefer && len(c.th.frames) >= 2 {
			par := c.th.frames[len(c.th.frames)-2]
			if par.panicking && !par.recovered {
				par = st.mutFrame(c.th, len(c.th.frames)-2)
				par.panicking = false
				par.recovered = true
				par.rundefer = true
				v := par.panicVal
				return ex.panicIface(v)
			}
		}
		return Iface{}
	case "print", "println":
		return TupleV{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(*Term)
			y, ok2 := a.(*Term)
			if !ok1 || !ok2 || x.sort.isFP() {
				unsupported("min/max on non-integers")
			}
			sg := isSigned(cc.Args[0].Type())
			var lt *Term
			if sg {
				lt = T.Slt(y, x)
			} else {
				lt = T.Ult(y, x)
			}
			if name == "max" {
				if sg {
					lt = T.Slt(x, y)
				} else {
					lt = T.Ult(x, y)
				}
			}
			r = T.Ite(lt, y, x)
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			ex.goPanicf(c, "value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := int(c.concretize(T.Resize(args[1].(*Term), 64, true)))
		if n == 0 {
			return Str{}
		}
		base, off := splitPath(p)
		arr := getPath(st.obj(base.obj).v, base.path).(ArrV)
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = arr[off+i].(*Term)
		}
		return mkStr(bs)
	case "SliceData":
		s := args[0].(Slice)
		if s.blob != nil {
			ex.materializeSlice(st, &s)
		}
		if s.arr.obj == 0 {
			return Ptr{}
		}
		return s.arr.field(s.off)
	case "StringData":
		s := args[0].(Str)
		sl := ex.bytesSlice(st, ex.strBytes(s))
		return sl.arr.field(0)
	case "Slice":
		p := args[0].(Ptr)
		n := int(c.concretize(T.Resize(args[1].(*Term), 64, true)))
		if p.obj == 0 {
			return Slice{}
		}
		base, off := splitPath(p)
		return Slice{arr: base, off: off, len: n, cap: n}
	}
	unsupported("builtin %s", name)
	return nil
}

func (ex *Exec) panicIface(v Value) Value {
	if _, ok := v.(Iface); ok {
		return v
	}
	return Iface{t: types.Typ[types.String], v: v}
}

func splitPath(p Ptr) (Ptr, int) {
	if len(p.path) < 2 {
		unsupported("pointer is not an array element")
	}
	n := len(p.path)
	return Ptr{p.obj, p.path[:n-2]}, int(p.path[n-2])<<8 | int(p.path[n-1])
}

func (ex *Exec) appendOp(c *Ctx, args []Value, cc *ssa.CallCommon) Value {
	st := c.st
	s := args[0].(Slice)
	var add []Value
	switch x := args[1].(type) {
	case Slice:
		if x.blob != nil && s.len == 0 && s.blob == nil {
			return x
		}
		add = append([]Value(nil), ex.sliceElems(st, x)...)
	case Str:
		if x.blob != nil && s.len == 0 && s.blob == nil {
			return Slice{blob: x.blob}
		}
		for _, b := range ex.strBytes(x) {
			add = append(add, b)
		}
	}
	if s.blob != nil {
		ex.materializeSlice(st, &s)
	}
	if len(add) == 0 {
		return s
	}
	n := s.len + len(add)
	if n <= s.cap {
		for i, v := range add {
			st.store(s.arr.field(s.off+s.len+i), v)
		}
		return Slice{arr: s.arr, off: s.off, len: n, cap: s.cap}
	}
	nc := s.cap * 2
	if s.cap >= 256 {
		nc = s.cap + (s.cap+3*256)/4
	}
	if nc < n {
		nc = n
	}
	elem := under(cc.Args[0].Type()).(*types.Slice).Elem()
	sz := ex.sizeof(elem)
	nc = roundCap(nc, sz)
	arr := make(ArrV, nc)
	z := ex.zero(elem)
	old := ex.sliceElems(st, s)
	copy(arr, old)
	copy(arr[len(old):], add)
	for i := n; i < nc; i++ {
		arr[i] = z
	}
	id := st.alloc(arr, "")
	return Slice{arr: Ptr{obj: id}, len: n, cap: nc}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048}

func roundCap(n, sz int) int {
	if sz == 0 {
		return n
	}
	b := n * sz
	for _, s := range sizeClasses {
		if s >= b {
			return s / sz
		}
	}
	return n
}

func (ex *Exec) sizeof(t types.Type) int {
	return int(types.SizesFor("gc", "amd64").Sizeof(t))
}

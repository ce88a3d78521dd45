package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"go/types"
	"strconv"
)

func registerMisc(ex *Exec) {
	T := ex.T
	I := ex.intr
	// unique identifiers: never equal to each other
	newID := func(c *Ctx) string {
		c.st.uuidN++
		return fmt.Sprintf("%08x-0000-4000-8000-%012x", c.st.uuidN, c.st.uuidN)
	}
	I["github.com/google/uuid.NewString"] = func(c *Ctx, a []Value) Value { return Str{s: newID(c)} }
	mkUUID := func(c *Ctx) ArrV {
		c.st.uuidN++
		arr := make(ArrV, 16)
		for i := range arr {
			arr[i] = T.Const(8, 0)
		}
		arr[3] = T.Const(8, uint64(c.st.uuidN&0xff))
		arr[2] = T.Const(8, uint64(c.st.uuidN>>8))
		arr[6] = T.Const(8, 0x40)
		arr[8] = T.Const(8, 0x80)
		return arr
	}
	I["github.com/google/uuid.New"] = func(c *Ctx, a []Value) Value { return mkUUID(c) }
	I["github.com/google/uuid.NewRandom"] = func(c *Ctx, a []Value) Value { return TupleV{mkUUID(c), Iface{}} }
	I["crypto/rand.Read"] = func(c *Ctx, a []Value) Value {
		s := a[0].(Slice)
		if ex.cfg.RandFail {
			if c.choose(2, "randfail") == 1 {
				return TupleV{T.Int(64, 0), ex.mkError(c, "entropy source failed")}
			}
		}
		c.st.uuidN++
		for i := 0; i < s.len; i++ {
			v := uint64(0xA0)
			if i == 0 {
				v = uint64(c.st.uuidN & 0xff)
			} else if i == 1 {
				v = uint64(c.st.uuidN >> 8 & 0xff)
			}
			c.st.store(s.arr.field(s.off+i), T.Const(8, v))
		}
		return TupleV{T.Int(64, int64(s.len)), Iface{}}
	}
	rnd := func(w int) Intr {
		return func(c *Ctx, a []Value) Value {
			// an arbitrary value in range
			n := a[len(a)-1].(*Term)
			v := T.Var(n.sort, fmt.Sprintf("rand_%d", c.st.nchoice))
			c.st.nchoice++
			c.st.addPC(T.Ult(v, n))
			return v
		}
	}
	I["math/rand.Intn"] = rnd(64)
	I["math/rand.Int63n"] = rnd(64)
	I["math/rand.Int31n"] = rnd(32)
	I["(*math/rand.Rand).Intn"] = rnd(64)
	I["(*math/rand.Rand).Int63n"] = rnd(64)
	I["math/rand.Seed"] = func(c *Ctx, a []Value) Value { return TupleV{} }
	// strconv on structured numbers
	I["strconv.Itoa"] = func(c *Ctx, a []Value) Value { return ex.fmtInt(a[0].(*Term), true) }
	I["strconv.FormatInt"] = func(c *Ctx, a []Value) Value {
		if b := a[1].(*Term); b.isConst() && b.c == 10 {
			return ex.fmtInt(a[0].(*Term), true)
		}
		return runBody{}
	}
	I["strconv.FormatUint"] = func(c *Ctx, a []Value) Value {
		if b := a[1].(*Term); b.isConst() && b.c == 10 {
			return ex.fmtInt(a[0].(*Term), false)
		}
		return runBody{}
	}
	appendInt := func(sg bool) Intr {
		return func(c *Ctx, a []Value) Value {
			t := a[1].(*Term)
			if t.isConst() {
				return runBody{}
			}
			dst := a[0].(Slice)
			n := &JNode{k: 'N', t: t, sg: sg}
			if dst.len == 0 && dst.blob == nil {
				return Slice{blob: ex.newBlob("fmt", n)}
			}
			return Slice{blob: ex.newBlob("fmt", catNode(strNode(ex.sliceStr(c.st, dst)), n))}
		}
	}
	I["strconv.AppendInt"] = appendInt(true)
	I["strconv.AppendUint"] = appendInt(false)
	numOf := func(v Value) *JNode {
		s := v.(Str)
		if s.blob != nil && (s.blob.n.k == 'N' || s.blob.n.k == 'i') {
			return s.blob.n
		}
		return nil
	}
	// the shortest text of the float nearest to an integer, as an integer; exact below 2^54 (spacing two: ties to a
	// multiple of four)
	floatNum := func(c *Ctx, v Value) *JNode {
		s := v.(Str)
		if s.blob == nil || s.blob.n.k != 'f' {
			return nil
		}
		f := s.blob.n.t
		if f.sort != SF64 || f.op != OSToF && f.op != OUToF {
			return nil
		}
		sg := f.op == OSToF
		if !sg && f.a[0].sort == BV(64) && c.decide(T.Slt(f.a[0], T.Const(64, 0))) {
			return nil
		}
		i := T.Resize(f.a[0], 64, sg)
		in := func(n int64) bool {
			return c.decide(T.And(T.Slt(T.Int(64, -n-1), i), T.Slt(i, T.Int(64, n+1))))
		}
		if in(1 << 53) {
			return &JNode{k: 'N', t: i, sg: true}
		}
		if !in(1<<54 - 2) {
			return nil
		}
		up := T.Ite(T.Eq(T.BAnd(i, T.Const(64, 3)), T.Const(64, 3)), T.Int(64, 1), T.Int(64, -1))
		odd := T.Eq(T.BAnd(i, T.Const(64, 1)), T.Const(64, 1))
		return &JNode{k: 'N', t: T.Add(i, T.Ite(odd, up, T.Int(64, 0))), sg: true}
	}
	I["strconv.Atoi"] = func(c *Ctx, a []Value) Value {
		n := numOf(a[0])
		if n == nil {
			return runBody{}
		}
		if !n.sg && c.decide(T.Slt(T.Resize(n.t, 64, false), T.Const(64, 0))) {
			return TupleV{T.Int(64, 0), ex.mkError(c, "value out of range")}
		}
		return TupleV{T.Resize(n.t, 64, n.sg), Iface{}}
	}
	I["strconv.ParseInt"] = func(c *Ctx, a []Value) Value {
		n := numOf(a[0])
		if n == nil {
			n = floatNum(c, a[0])
		}
		if n == nil {
			return runBody{}
		}
		w := int(a[2].(*Term).sval())
		if w == 0 {
			w = 64
		}
		v := T.Resize(n.t, 64, n.sg)
		if !n.sg && c.decide(T.Slt(v, T.Const(64, 0))) {
			return TupleV{T.Int(64, 0), ex.mkError(c, "value out of range")}
		}
		if w < 64 && !c.decide(T.Eq(T.Resize(T.Resize(v, w, true), 64, true), v)) {
			return TupleV{T.Int(64, 0), ex.mkError(c, "value out of range")}
		}
		return TupleV{v, Iface{}}
	}
	I["strconv.ParseUint"] = func(c *Ctx, a []Value) Value {
		n := numOf(a[0])
		if n == nil {
			n = floatNum(c, a[0])
		}
		if n == nil {
			return runBody{}
		}
		v := T.Resize(n.t, 64, n.sg)
		if n.sg && c.decide(T.Slt(v, T.Const(64, 0))) {
			return TupleV{T.Int(64, 0), ex.mkError(c, "invalid syntax")}
		}
		if w := int(a[2].(*Term).sval()); w != 0 && w < 64 && !c.decide(T.Eq(T.Resize(T.Resize(v, w, false), 64, false), v)) {
			return TupleV{T.Int(64, 0), ex.mkError(c, "value out of range")}
		}
		return TupleV{v, Iface{}}
	}
	fl := func(v Value) (float64, bool) {
		s := v.(Str)
		if !s.concrete() {
			return 0, false
		}
		f, err := strconv.ParseFloat(s.s, 64)
		return f, err == nil
	}
	I["strconv.ParseFloat"] = func(c *Ctx, a []Value) Value {
		if f, ok := fl(a[0]); ok {
			return TupleV{T.F64(f), Iface{}}
		}
		if s := a[0].(Str); s.concrete() {
			return TupleV{T.F64(0), ex.mkError(c, "strconv.ParseFloat: parsing: invalid syntax")}
		}
		if n := numOf(a[0]); n != nil {
			return TupleV{T.IntToF(n.t, SF64, n.sg), Iface{}}
		}
		if s := a[0].(Str); s.blob != nil && s.blob.n.k == 'f' {
			return TupleV{T.FToF(s.blob.n.t, SF64), Iface{}}
		}
		unsupported("ParseFloat of symbolic text")
		return nil
	}
	I["strconv.FormatFloat"] = func(c *Ctx, a []Value) Value {
		t := a[0].(*Term)
		if !t.isConst() {
			unsupported("FormatFloat of a symbolic value")
		}
		return Str{s: strconv.FormatFloat(fval(t), byte(a[1].(*Term).c), int(a[2].(*Term).sval()), int(a[3].(*Term).sval()))}
	}
	nilErr := func(c *Ctx, a []Value) Value { return zeroResult(ex, c.fn) }
	for _, n := range []string{
		"google.golang.org/grpc/grpclog.Errorf", "google.golang.org/grpc/grpclog.Warningf", "google.golang.org/grpc/grpclog.Infof",
		"google.golang.org/grpc/grpclog.Error", "google.golang.org/grpc/grpclog.Warning", "google.golang.org/grpc/grpclog.Info",
		"github.com/golang/protobuf/proto.RegisterType", "github.com/gogo/protobuf/proto.RegisterType", "github.com/gogo/protobuf/proto.RegisterFile",
		"github.com/golang/protobuf/proto.RegisterFile", "github.com/golang/protobuf/proto.RegisterEnum", "github.com/gogo/protobuf/proto.RegisterEnum",
	} {
		I[n] = nilErr
	}
	_ = types.Typ
}

func registerReflect(ex *Exec) {
	I := ex.intr
	T := ex.T
	bytesT := types.NewSlice(types.Typ[types.Byte])
	I["github.com/redis/go-redis/v9/internal/util.StringToBytes"] = func(c *Ctx, a []Value) Value {
		return ex.convert(c, a[0], types.Typ[types.String], bytesT)
	}
	I["github.com/redis/go-redis/v9/internal/util.BytesToString"] = func(c *Ctx, a []Value) Value {
		return ex.convert(c, a[0], bytesT, types.Typ[types.String])
	}
	// a script is its source and the digest of it
	I["github.com/redis/go-redis/v9.NewScript"] = func(c *Ctx, a []Value) Value {
		src := a[0].(Str)
		if !src.concrete() {
			unsupported("symbolic script")
		}
		h := sha1.Sum([]byte(src.s))
		return Ptr{obj: c.st.alloc(StructV{src, Str{s: hex.EncodeToString(h[:])}}, "")}
	}
	// reflect.TypeOf(x): an opaque *reflect.rtype identified by its type
	rt := func() types.Type {
		return types.NewPointer(ex.P.pkgs["reflect"].Type("rtype").Type())
	}
	I["reflect.TypeOf"] = func(c *Ctx, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{t: rt(), v: Ptr{obj: ex.typeObj(c.st, i.t)}}
	}
	I["internal/reflectlite.TypeOf"] = func(c *Ctx, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{t: ex.P.pkgs["internal/reflectlite"].Type("rtype").Type(), v: StructV{Ptr{obj: ex.typeObj(c.st, i.t)}}}
	}
	lt := func(v Value) types.Type { return ex.objType[v.(StructV)[0].(Ptr).obj] }
	qual := func(p *types.Package) string { return p.Name() }
	I["(internal/reflectlite.rtype).Comparable"] = func(c *Ctx, a []Value) Value { return T.Bool(types.Comparable(lt(a[0]))) }
	I["(internal/reflectlite.rtype).String"] = func(c *Ctx, a []Value) Value { return Str{s: types.TypeString(lt(a[0]), qual)} }
	I["(*reflect.rtype).Comparable"] = func(c *Ctx, a []Value) Value { return T.Bool(types.Comparable(ex.objType[a[0].(Ptr).obj])) }
	I["(*reflect.rtype).Name"] = func(c *Ctx, a []Value) Value {
		t := ex.objType[a[0].(Ptr).obj]
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return Str{s: n.Obj().Name()}
		}
		if b, ok := types.Unalias(t).(*types.Basic); ok {
			return Str{s: b.Name()}
		}
		return Str{}
	}
	I["(*reflect.rtype).PkgPath"] = func(c *Ctx, a []Value) Value {
		if n, ok := types.Unalias(ex.objType[a[0].(Ptr).obj]).(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	}
	I["(*reflect.rtype).Kind"] = func(c *Ctx, a []Value) Value {
		t := ex.objType[a[0].(Ptr).obj]
		return T.Int(64, int64(kindOf(t)))
	}
	I["(*reflect.rtype).String"] = func(c *Ctx, a []Value) Value {
		return Str{s: types.TypeString(ex.objType[a[0].(Ptr).obj], func(p *types.Package) string { return p.Name() })}
	}
	I["(*reflect.rtype).Elem"] = func(c *Ctx, a []Value) Value {
		t := ex.objType[a[0].(Ptr).obj]
		var e types.Type
		switch u := under(t).(type) {
		case *types.Pointer:
			e = u.Elem()
		case *types.Slice:
			e = u.Elem()
		case *types.Array:
			e = u.Elem()
		case *types.Map:
			e = u.Elem()
		case *types.Chan:
			e = u.Elem()
		default:
			ex.goPanicf(c, "reflect: Elem of invalid type")
		}
		return Iface{t: rt(), v: Ptr{obj: ex.typeObj(c.st, e)}}
	}
}

func kindOf(t types.Type) int {
	switch u := under(t).(type) {
	case *types.Basic:
		m := map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// typeObj gives each type one object in a reserved negative... the object ids are allocated in
// the base state before exploration when possible, otherwise on demand per path (identity by type).
func (ex *Exec) typeObj(st *State, t types.Type) int32 {
	k := ex.typeKey(t)
	if id, ok := ex.typeObjs[k]; ok {
		return id
	}
	if len(ex.typePool) == 0 {
		unsupported("type object pool exhausted")
	}
	id := ex.typePool[0]
	ex.typePool = ex.typePool[1:]
	ex.typeObjs[k] = id
	ex.objType[id] = t
	return id
}

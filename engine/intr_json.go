package main

import (
	"go/types"
	"reflect"
	"strings"
)

type jsonErr struct{ msg string }

func (ex *Exec) mkError(c *Ctx, msg string) Value {
	t := ex.P.pkgs["errors"].Type("errorString").Type()
	id := c.st.alloc(StructV{Str{s: msg}}, "")
	return Iface{t: types.NewPointer(t), v: Ptr{obj: id}}
}

func registerJSON(ex *Exec) {

	I := ex.intr
	marshal := func(kind string) Intr {
		return func(c *Ctx, a []Value) (res Value) {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(jsonErr); ok {
						res = TupleV{Slice{}, ex.mkError(c, e.msg)}
						return
					}
					panic(r)
				}
			}()
			v := a[0].(Iface)
			if kind != "json" {
				c.codec = kind
				defer func() { c.codec = "" }()
			}
			n := ex.toJSON(c, v.v, v.t, true, 0)
			return TupleV{ex.strToBytes(c, ex.nodeStr(kind, n)), Iface{}}
		}
	}
	mpMarshal, mpUnmarshal := marshal("msgpack"), Intr(func(c *Ctx, a []Value) Value {
		s := ex.sliceStr(c.st, a[0].(Slice))
		if s.blob == nil || s.blob.kind != "msgpack" {
			if s.blob == nil && s.length() == 0 {
				return ex.eofErr(c)
			}
			unsupported("msgpack decoding of other bytes")
		}
		c.codec = "msgpack"
		defer func() { c.codec = "" }()
		return ex.fromJSONText(c, s, a[1].(Iface))
	})
	unmarshal := func(c *Ctx, a []Value) Value {
		data := a[0].(Slice)
		if data.blob != nil && data.blob.kind == "msgpack" {
			return ex.mkError(c, "json: invalid character")
		}
		tgt := a[1].(Iface)
		return ex.fromJSONText(c, ex.sliceStr(c.st, data), tgt)
	}
	I["encoding/json.Marshal"] = marshal("json")
	I["encoding/json.Unmarshal"] = unmarshal
	I["github.com/vmihailenco/msgpack/v5.Marshal"] = mpMarshal
	I["github.com/vmihailenco/msgpack/v5.Unmarshal"] = mpUnmarshal
	I["encoding/json.Valid"] = func(c *Ctx, a []Value) Value {
		s := ex.sliceStr(c.st, a[0].(Slice))
		if s.blob != nil && (isJSON(s.blob.n) || s.blob.n.k == 'N') {
			return ex.T.True
		}
		if s.blob != nil {
			ex.materialize(&s)
		}
		if s.sym != nil {
			if ex.cfg.SymJSON {
				return ex.T.False
			}
			unsupported("JSON decoding of symbolic bytes")
		}
		_, err := parseJSON(ex.T, s.s)
		return ex.T.Bool(err == nil)
	}
	// (*json.Decoder).Decode over an in-memory reader
	I["(*encoding/json.Decoder).Decode"] = func(c *Ctx, a []Value) Value {
		dp := a[0].(Ptr)
		dt := ex.P.pkgs["encoding/json"].Type("Decoder").Type()
		dv := c.st.load(dp).(StructV)
		rd := fieldOf(dt, dv, "r").(Iface)
		if rd.t == nil {
			unsupported("json.Decoder without reader")
		}
		pt, ok := rd.t.(*types.Pointer)
		if !ok {
			unsupported("json.Decoder over %v", rd.t)
		}
		rp := rd.v.(Ptr)
		rv := append(StructV(nil), c.st.load(rp).(StructV)...)
		var text Str
		switch pt.Elem().String() {
		case "bytes.Reader":
			text = ex.sliceStr(c.st, fieldOf(pt.Elem(), rv, "s").(Slice))
			if i := fieldOf(pt.Elem(), rv, "i").(*Term); !i.isConst() || i.c != 0 {
				return ex.eofErr(c)
			}
			setField(pt.Elem(), rv, "i", ex.T.Int(64, 1))
		case "bytes.Buffer":
			text = ex.sliceStr(c.st, fieldOf(pt.Elem(), rv, "buf").(Slice))
			if i := fieldOf(pt.Elem(), rv, "off").(*Term); !i.isConst() || i.c != 0 {
				return ex.eofErr(c)
			}
			setField(pt.Elem(), rv, "off", ex.T.Int(64, 1))
		case "strings.Reader":
			text = fieldOf(pt.Elem(), rv, "s").(Str)
			if i := fieldOf(pt.Elem(), rv, "i").(*Term); !i.isConst() || i.c != 0 {
				return ex.eofErr(c)
			}
			setField(pt.Elem(), rv, "i", ex.T.Int(64, 1))
		default:
			unsupported("json.Decoder over %v", rd.t)
		}
		if text.blob == nil && text.length() == 0 {
			return ex.eofErr(c)
		}
		useNum := false
		if d, ok := fieldOf(dt, dv, "d").(StructV); ok {
			for i, st := 0, under(fieldType(dt, "d")).(*types.Struct); i < st.NumFields(); i++ {
				if st.Field(i).Name() == "useNumber" {
					useNum = d[i].(*Term) == ex.T.True
				}
				if st.Field(i).Name() == "disallowUnknownFields" && d[i].(*Term) == ex.T.True {
					unsupported("DisallowUnknownFields")
				}
			}
		}
		c.useNumber, c.firstOnly = useNum, true
		defer func() { c.useNumber, c.firstOnly = false, false }()
		res := ex.fromJSONText(c, text, a[1].(Iface))
		c.st.store(rp, rv)
		return res
	}
}

func (ex *Exec) strToBytes(c *Ctx, s Str) Slice {
	if s.blob != nil {
		return Slice{blob: s.blob}
	}
	return ex.bytesSlice(c.st, ex.strBytes(s))
}

func (c *Ctx) tagName() string {
	if c.codec != "" {
		return c.codec
	}
	return "json"
}

func (ex *Exec) asciiCheck(c *Ctx, s Str) {
	if s.sym == nil || c.codec != "" {
		return
	}
	r := ex.T.True
	for _, b := range s.sym {
		r = ex.T.And(r, ex.T.Ult(b, ex.T.Const(8, 0x80)))
	}
	if !c.decide(r) {
		panic(pathEnd{"inconclusive", "non-ASCII symbolic text through JSON"})
	}
}

func fieldType(t types.Type, name string) types.Type {
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	unsupported("field %s of %v", name, t)
	return nil
}

func fieldOf(t types.Type, v StructV, name string) Value {
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v[i]
		}
	}
	unsupported("field %s of %v", name, t)
	return nil
}

func setField(t types.Type, v StructV, name string, x Value) {
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			v[i] = x
		}
	}
}

// eofErr is io.EOF.
func (ex *Exec) eofErr(c *Ctx) Iface {
	return c.st.load(Ptr{obj: ex.globObj1(ex.P.pkgs["io"].Var("EOF"))}).(Iface)
}

func jsonField(codec string, st *types.Struct, i int) (name string, omit, skip bool) {
	f := st.Field(i)
	tag := reflect.StructTag(st.Tag(i)).Get(codec)
	if tag == "-" {
		return "", false, true
	}
	if !f.Exported() {
		return "", false, true
	}
	p := strings.Split(tag, ",")
	name = p[0]
	if name == "" {
		name = f.Name()
	}
	for _, o := range p[1:] {
		if o == "omitempty" {
			omit = true
		}
	}
	return
}

func (ex *Exec) toJSON(c *Ctx, v Value, t types.Type, top bool, depth int) *JNode {
	T := ex.T
	if t == nil {
		return &JNode{k: 'n'}
	}
	if depth > 20 {
		unsupported("deep JSON value")
	}
	if isJSONNumber(t) {
		s := v.(Str)
		if s.blob != nil && s.blob.n.k == 'N' {
			return &JNode{k: 'i', t: s.blob.n.t, sg: s.blob.n.sg}
		}
		if s.blob != nil && s.blob.n.k == 'f' {
			return s.blob.n
		}
		if s.concrete() {
			txt := s.s
			if txt == "" {
				txt = "0"
			}
			j, err := parseJSON(ex.T, txt)
			if err != nil || j.k != 'i' && j.k != 'f' {
				panic(jsonErr{"json: invalid number literal"})
			}
			return j
		}
		unsupported("symbolic json.Number")
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		ms := types.NewMethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "MarshalJSON":
				if n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "RawMessage" {
					s := ex.sliceStr(c.st, v.(Slice))
					if s.blob != nil && isJSON(s.blob.n) {
						return s.blob.n
					}
					if s.concrete() {
						j, err := parseJSON(ex.T, s.s)
						if err != nil {
							panic(jsonErr{"json: error calling MarshalJSON: " + err.Error()})
						}
						return j
					}
				}
				unsupported("MarshalJSON of %v", t)
			case "MarshalText":
				unsupported("MarshalText of %v", t)
			}
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &JNode{k: 'b', t: v.(*Term)}
		case u.Info()&types.IsInteger != 0:
			return &JNode{k: 'i', t: v.(*Term), sg: isSigned(t)}
		case u.Info()&types.IsFloat != 0:
			x := v.(*Term)
			z := T.FBin(OFSub, x, x) // zero exactly for finite values
			zero := T.FConst(x.sort, 0)
			if c.codec == "" && !c.decide(T.FCmp(OFEq, z, zero)) {
				panic(jsonErr{"json: unsupported value"})
			}
			return &JNode{k: 'f', t: x}
		case u.Info()&types.IsString != 0:
			s := v.(Str)
			ex.asciiCheck(c, s)
			return &JNode{k: 's', s: s}
		}
	case *types.Pointer:
		p := v.(Ptr)
		if p.obj == 0 {
			return &JNode{k: 'n'}
		}
		return ex.toJSON(c, c.st.load(p), u.Elem(), false, depth+1)
	case *types.Interface:
		i := v.(Iface)
		return ex.toJSON(c, i.v, i.t, false, depth+1)
	case *types.Struct:
		n := &JNode{k: 'o'}
		sv := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			name, omit, skip := jsonField(c.tagName(), u, i)
			if u.Field(i).Embedded() && !skip {
				unsupported("embedded field in JSON")
			}
			if skip {
				continue
			}
			if omit && ex.jsonEmpty(c, sv[i]) {
				continue
			}
			n.keys = append(n.keys, Str{s: name})
			n.kids = append(n.kids, ex.toJSON(c, sv[i], u.Field(i).Type(), false, depth+1))
		}
		return n
	case *types.Map:
		m := v.(MapRef)
		if m.obj == 0 {
			return &JNode{k: 'n'}
		}
		n := &JNode{k: 'o', tag: "map"}
		for _, e := range c.st.obj(m.obj).v.(*MapV).ents {
			k, ok := e.k.(Str)
			if !ok {
				unsupported("JSON map key")
			}
			ex.asciiCheck(c, k)
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, ex.toJSON(c, e.v, u.Elem(), false, depth+1))
		}
		ex.sortKeys(n)
		return n
	case *types.Slice:
		s := v.(Slice)
		if s.arr.obj == 0 && s.blob == nil {
			return &JNode{k: 'n'}
		}
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return &JNode{k: 'y', s: ex.sliceStr(c.st, s)}
		}
		n := &JNode{k: 'a'}
		for _, e := range ex.sliceElems(c.st, s) {
			n.kids = append(n.kids, ex.toJSON(c, e, u.Elem(), false, depth+1))
		}
		return n
	case *types.Array:
		n := &JNode{k: 'a'}
		for _, e := range v.(ArrV) {
			n.kids = append(n.kids, ex.toJSON(c, e, u.Elem(), false, depth+1))
		}
		return n
	case *types.Chan, *types.Signature:
		panic(jsonErr{"json: unsupported type: " + t.String()})
	}
	unsupported("JSON of %v", t)
	return nil
}

func (ex *Exec) sortKeys(n *JNode) {
	for _, k := range n.keys {
		if !k.concrete() {
			return
		}
	}
	for i := 1; i < len(n.keys); i++ {
		for j := i; j > 0 && n.keys[j].s < n.keys[j-1].s; j-- {
			n.keys[j], n.keys[j-1] = n.keys[j-1], n.keys[j]
			n.kids[j], n.kids[j-1] = n.kids[j-1], n.kids[j]
		}
	}
}

func (ex *Exec) jsonEmpty(c *Ctx, v Value) bool {
	T := ex.T
	switch x := v.(type) {
	case *Term:
		if x.sort == SBool {
			return c.decide(T.Not(x))
		}
		if x.sort.isFP() {
			return c.decide(T.FCmp(OFEq, x, T.FConst(x.sort, 0)))
		}
		return c.decide(T.Eq(x, T.Const(x.sort, 0)))
	case Str:
		return x.blob == nil && x.length() == 0
	case Slice:
		return x.blob == nil && x.len == 0
	case MapRef:
		return x.obj == 0 || len(c.st.obj(x.obj).v.(*MapV).ents) == 0
	case Ptr:
		return x.obj == 0
	case Iface:
		return x.t == nil
	}
	return false
}

// fromJSONText decodes s into the pointer held by tgt; the result is the error value.
func (ex *Exec) fromJSONText(c *Ctx, s Str, tgt Iface) Value {
	if tgt.t == nil {
		return ex.mkError(c, "json: Unmarshal(nil)")
	}
	pt, ok := under(tgt.t).(*types.Pointer)
	if !ok || tgt.v.(Ptr).obj == 0 {
		return ex.mkError(c, "json: Unmarshal(non-pointer "+tgt.t.String()+")")
	}
	var n *JNode
	if s.blob != nil && isJSON(s.blob.n) {
		n = s.blob.n
	} else if s.blob != nil && s.blob.n.k == 'N' {
		n = &JNode{k: 'i', t: s.blob.n.t, sg: s.blob.n.sg}
	} else {
		if s.blob != nil {
			ex.materialize(&s)
		}
		if s.sym != nil {
			if ex.cfg.SymJSON {
				return ex.mkError(c, "json: symbolic text")
			}
			unsupported("JSON decoding of symbolic bytes")
		}
		var err error
		n, err = parseJSONOpt(ex.T, s.s, c.firstOnly)
		if err != nil {
			return ex.mkError(c, "json: "+err.Error())
		}
	}
	c.jerr = ""
	p := tgt.v.(Ptr)
	v := ex.fromJSON(c, n, pt.Elem(), c.st.load(p), 0)
	c.st.store(p, v)
	if c.jerr != "" {
		return ex.mkError(c, c.jerr)
	}
	return Iface{}
}

func (ex *Exec) fromJSON(c *Ctx, n *JNode, t types.Type, old Value, depth int) Value {
	T := ex.T
	mismatch := func(what string) Value {
		if c.jerr == "" {
			c.jerr = "json: cannot unmarshal " + what + " into Go value of type " + t.String()
		}
		return old
	}
	if depth > 20 {
		unsupported("deep JSON")
	}
	if nm, ok := types.Unalias(t).(*types.Named); ok && nm.Obj().Pkg() != nil {
		ms := types.NewMethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			if nn := ms.At(i).Obj().Name(); nn == "UnmarshalJSON" || nn == "UnmarshalText" {
				if nm.Obj().Pkg().Path() == "encoding/json" && nm.Obj().Name() == "RawMessage" {
					return ex.strToBytes(c, ex.nodeStr("json", n))
				}
				unsupported("UnmarshalJSON of %v", t)
			}
		}
	}
	if isJSONNumber(t) && (n.k == 'i' || n.k == 'f') {
		return ex.numText(n)
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if n.k == 'n' {
			return Ptr{}
		}
		p := old.(Ptr)
		if p.obj == 0 {
			p = Ptr{obj: c.st.alloc(ex.zero(u.Elem()), "")}
		}
		c.st.store(p, ex.fromJSON(c, n, u.Elem(), c.st.load(p), depth+1))
		return p
	case *types.Interface:
		if n.k == 'n' {
			return Iface{}
		}
		if o, ok := old.(Iface); ok && o.t != nil {
			if p, ok := o.v.(Ptr); ok && p.obj != 0 {
				if pt, ok := under(o.t).(*types.Pointer); ok {
					c.st.store(p, ex.fromJSON(c, n, pt.Elem(), c.st.load(p), depth+1))
					return o
				}
			}
		}
		if u.NumMethods() > 0 {
			return mismatch("value")
		}
		return ex.jsonAny(c, n)
	}
	if n.k == 'n' {
		switch under(t).(type) {
		case *types.Map:
			return MapRef{}
		case *types.Slice:
			return Slice{}
		}
		return old
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.k != 'b' {
				return mismatch(jkind(n))
			}
			return n.t
		case u.Info()&types.IsString != 0:
			if n.k == 's' {
				return n.s
			}
			if n.k == 'y' {
				unsupported("base64 text as string")
			}
			return mismatch(jkind(n))
		case u.Info()&types.IsInteger != 0:
			s, _ := basicSort(u)
			w := int(s)
			if n.k == 'f' {
				if n.t.isConst() {
					return mismatch("number")
				}
				unsupported("float text into an integer")
			}
			if n.k != 'i' {
				return mismatch(jkind(n))
			}
			sg := isSigned(t)
			src := T.Resize(n.t, 64, n.sg)
			// range check
			fits := T.True
			if sg {
				if !n.sg {
					fits = T.Sle(T.Const(64, 0), src) // unsigned source above MaxInt64 does not fit
				}
				if w < 64 {
					fits = T.And(fits, T.Eq(T.Resize(T.Resize(src, w, true), 64, true), src))
				}
			} else {
				if n.sg {
					fits = T.Sle(T.Const(64, 0), src)
				}
				if w < 64 {
					fits = T.And(fits, T.Eq(T.Resize(T.Resize(src, w, false), 64, false), src))
				}
			}
			if !c.decide(fits) {
				return mismatch("number")
			}
			return T.Resize(src, w, sg)
		case u.Info()&types.IsFloat != 0:
			s, _ := basicSort(u)
			switch n.k {
			case 'i':
				return T.IntToF(n.t, s, n.sg)
			case 'f':
				if n.t.sort == s {
					return n.t
				}
				return T.FToF(n.t, s)
			}
			return mismatch(jkind(n))
		}
	case *types.Struct:
		if n.k != 'o' {
			return mismatch(jkind(n))
		}
		sv := append(StructV(nil), old.(StructV)...)
		for i, k := range n.keys {
			if !k.concrete() {
				unsupported("symbolic JSON key into a struct")
			}
			fi := -1
			for j := 0; j < u.NumFields(); j++ {
				name, _, skip := jsonField(c.tagName(), u, j)
				if !skip && name == k.s {
					fi = j
				}
			}
			if fi < 0 {
				for j := 0; j < u.NumFields(); j++ {
					name, _, skip := jsonField(c.tagName(), u, j)
					if !skip && strings.EqualFold(name, k.s) {
						fi = j
						break
					}
				}
			}
			if fi >= 0 {
				sv[fi] = ex.fromJSON(c, n.kids[i], u.Field(fi).Type(), sv[fi], depth+1)
			}
		}
		return sv
	case *types.Map:
		if n.k != 'o' {
			return mismatch(jkind(n))
		}
		m := old.(MapRef)
		if m.obj == 0 {
			m = MapRef{c.st.alloc(&MapV{}, "")}
		}
		for i, k := range n.keys {
			v := ex.fromJSON(c, n.kids[i], u.Elem(), ex.zero(u.Elem()), depth+1)
			ex.mapSet(c, m, k, v)
		}
		return m
	case *types.Slice:
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			if n.k == 'y' {
				return ex.strToBytes(c, n.s)
			}
			if n.k == 's' {
				unsupported("string text into bytes")
			}
			return mismatch(jkind(n))
		}
		if n.k != 'a' {
			return mismatch(jkind(n))
		}
		arr := make(ArrV, len(n.kids))
		for i, k := range n.kids {
			arr[i] = ex.fromJSON(c, k, u.Elem(), ex.zero(u.Elem()), depth+1)
		}
		id := c.st.alloc(arr, "")
		return Slice{arr: Ptr{obj: id}, len: len(arr), cap: len(arr)}
	}
	unsupported("JSON into %v", t)
	return nil
}

func jkind(n *JNode) string {
	switch n.k {
	case 'b':
		return "bool"
	case 's', 'y':
		return "string"
	case 'i', 'f':
		return "number"
	case 'a':
		return "array"
	case 'o':
		return "object"
	}
	return "value"
}

func isJSONNumber(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "Number"
}

func (ex *Exec) numText(n *JNode) Str {
	if n.k == 'i' {
		return ex.fmtInt(n.t, n.sg)
	}
	if s, ok := render(n); ok {
		return Str{s: s}
	}
	return Str{blob: ex.newBlob("json", n)}
}

func (ex *Exec) jsonAny(c *Ctx, n *JNode) Value {
	T := ex.T
	if c.codec != "" && (n.k == 'i' || n.k == 'f' || n.k == 'y') {
		unsupported("msgpack value into an interface")
	}
	if c.useNumber && (n.k == 'i' || n.k == 'f') {
		return Iface{t: ex.P.pkgs["encoding/json"].Type("Number").Type(), v: ex.numText(n)}
	}
	switch n.k {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{t: types.Typ[types.Bool], v: n.t}
	case 'i':
		return Iface{t: types.Typ[types.Float64], v: T.IntToF(n.t, SF64, n.sg)}
	case 'f':
		return Iface{t: types.Typ[types.Float64], v: T.FToF(n.t, SF64)}
	case 's':
		return Iface{t: types.Typ[types.String], v: n.s}
	case 'y':
		if n.s.concrete() {
			s, _ := render(n)
			return Iface{t: types.Typ[types.String], v: Str{s: s[1 : len(s)-1]}}
		}
		return Iface{t: types.Typ[types.String], v: Str{blob: ex.newBlob("b64", &JNode{k: 'x', tag: "b64", kids: []*JNode{n}})}}
	case 'a':
		arr := make(ArrV, len(n.kids))
		for i, k := range n.kids {
			arr[i] = ex.jsonAny(c, k)
		}
		id := c.st.alloc(arr, "")
		return Iface{t: types.NewSlice(types.NewInterfaceType(nil, nil)), v: Slice{arr: Ptr{obj: id}, len: len(arr), cap: len(arr)}}
	case 'o':
		m := MapRef{c.st.alloc(&MapV{}, "")}
		for i, k := range n.keys {
			ex.mapSet(c, m, k, ex.jsonAny(c, n.kids[i]))
		}
		return Iface{t: types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), v: m}
	}
	unsupported("JSON node %c", n.k)
	return nil
}

package main

func registerBytes(ex *Exec) {
	T := ex.T
	I := ex.intr
	by := func(c *Ctx, v Value) []*Term {
		switch x := v.(type) {
		case Str:
			return ex.strBytes(x)
		case Slice:
			return ex.sliceBytes(c.st, x)
		}
		unsupported("bytes of %T", v)
		return nil
	}
	indexByte := func(c *Ctx, a []Value) Value {
		b := a[1].(*Term)
		for i, x := range by(c, a[0]) {
			if c.decide(T.Eq(x, b)) {
				return T.Int(64, int64(i))
			}
		}
		return T.Int(64, -1)
	}
	lastIndexByte := func(c *Ctx, a []Value) Value {
		b := a[1].(*Term)
		bs := by(c, a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if c.decide(T.Eq(bs[i], b)) {
				return T.Int(64, int64(i))
			}
		}
		return T.Int(64, -1)
	}
	count := func(c *Ctx, a []Value) Value {
		n := T.Int(64, 0)
		for _, x := range by(c, a[0]) {
			n = T.Add(n, T.Ite(T.Eq(x, a[1].(*Term)), T.Int(64, 1), T.Int(64, 0)))
		}
		return n
	}
	eq := func(c *Ctx, a []Value) Value {
		x, y := a[0], a[1]
		if sx, ok := x.(Slice); ok {
			sy := y.(Slice)
			if sx.blob != nil || sy.blob != nil {
				return ex.strEq(c, ex.sliceStr(c.st, sx), ex.sliceStr(c.st, sy))
			}
		}
		bx, bb := by(c, x), by(c, y)
		if len(bx) != len(bb) {
			return T.False
		}
		r := T.True
		for i := range bx {
			r = T.And(r, T.Eq(bx[i], bb[i]))
		}
		return r
	}
	cmp := func(c *Ctx, a []Value) Value {
		x, y := mkStr(by(c, a[0])), mkStr(by(c, a[1]))
		return T.Ite(ex.strEq(c, x, y), T.Int(64, 0), T.Ite(ex.strLess(x, y), T.Int(64, -1), T.Int(64, 1)))
	}
	index := func(c *Ctx, a []Value) Value {
		h, n := by(c, a[0]), by(c, a[1])
		for i := 0; i+len(n) <= len(h); i++ {
			r := T.True
			for k := range n {
				r = T.And(r, T.Eq(h[i+k], n[k]))
			}
			if c.decide(r) {
				return T.Int(64, int64(i))
			}
		}
		return T.Int(64, -1)
	}
	for _, p := range []string{"internal/bytealg."} {
		I[p+"IndexByte"] = indexByte
		I[p+"IndexByteString"] = indexByte
		I[p+"LastIndexByte"] = lastIndexByte
		I[p+"LastIndexByteString"] = lastIndexByte
		I[p+"Count"] = count
		I[p+"CountString"] = count
		I[p+"Equal"] = eq
		I[p+"Compare"] = cmp
		I[p+"CompareString"] = cmp
		I[p+"Index"] = index
		I[p+"IndexString"] = index
		I[p+"MakeNoZero"] = func(c *Ctx, a []Value) Value {
			n := int(c.concretize(a[0].(*Term)))
			arr := make(ArrV, n)
			for i := range arr {
				arr[i] = T.Const(8, 0)
			}
			id := c.st.alloc(arr, "")
			return Slice{arr: Ptr{obj: id}, len: n, cap: n}
		}
	}
	I["strings.Index"] = index
	I["bytes.Index"] = index
	I["internal/stringslite.Index"] = index
	I["strings.IndexByte"] = indexByte
	I["bytes.IndexByte"] = indexByte
	I["internal/stringslite.IndexByte"] = indexByte
	I["bytes.Equal"] = eq
	I["bytes.Compare"] = cmp
	I["strings.Compare"] = cmp
	I["strings.Count"] = func(c *Ctx, a []Value) Value {
		if s, ok := a[1].(Str); ok && s.length() == 1 {
			return count(c, []Value{a[0], ex.strByte(s, 0)})
		}
		return runBody{}
	}
	hp := func(suffix bool) Intr {
		return func(c *Ctx, a []Value) Value {
			if sa, ok := a[0].(Str); ok && sa.blob != nil && !suffix {
				if r, ok := ex.blobPrefix(sa, a[1].(Str)); ok {
					return r
				}
			}
			h, n := by(c, a[0]), by(c, a[1])
			if len(n) > len(h) {
				return T.False
			}
			o := 0
			if suffix {
				o = len(h) - len(n)
			}
			r := T.True
			for k := range n {
				r = T.And(r, T.Eq(h[o+k], n[k]))
			}
			return r
		}
	}
	I["strings.HasPrefix"] = hp(false)
	I["strings.HasSuffix"] = hp(true)
	I["bytes.HasPrefix"] = hp(false)
	I["bytes.HasSuffix"] = hp(true)
	I["strings.EqualFold"] = func(c *Ctx, a []Value) Value {
		x, y := by(c, a[0]), by(c, a[1])
		lower := func(b *Term) *Term {
			up := T.And(T.Ule(T.Const(8, 'A'), b), T.Ule(b, T.Const(8, 'Z')))
			return T.Ite(up, T.Add(b, T.Const(8, 32)), b)
		}
		asc := T.True
		for _, b := range append(append([]*Term(nil), x...), y...) {
			asc = T.And(asc, T.Ult(b, T.Const(8, 0x80)))
		}
		if !c.decide(asc) {
			return runBody{}
		}
		if len(x) != len(y) {
			return T.False
		}
		r := T.True
		for i := range x {
			r = T.And(r, T.Eq(lower(x[i]), lower(y[i])))
		}
		return r
	}
	lowerUpper := func(lo, hi byte, d int) Intr {
		return func(c *Ctx, a []Value) Value {
			x := by(c, a[0])
			asc := T.True
			for _, b := range x {
				asc = T.And(asc, T.Ult(b, T.Const(8, 0x80)))
			}
			if !c.decide(asc) {
				return runBody{}
			}
			o := make([]*Term, len(x))
			for i, b := range x {
				in := T.And(T.Ule(T.Const(8, uint64(lo)), b), T.Ule(b, T.Const(8, uint64(hi))))
				o[i] = T.Ite(in, T.Add(b, T.Const(8, uint64(d)&0xff)), b)
			}
			return mkStr(o)
		}
	}
	I["strings.ToLower"] = lowerUpper('A', 'Z', 32)
	I["strings.ToUpper"] = lowerUpper('a', 'z', -32)
	I["unicode/utf8.ValidString"] = func(c *Ctx, a []Value) Value {
		s := a[0].(Str)
		if s.blob != nil {
			return T.True
		}
		asc := T.True
		for _, b := range by(c, s) {
			asc = T.And(asc, T.Ult(b, T.Const(8, 0x80)))
		}
		if c.decide(asc) {
			return T.True
		}
		return runBody{}
	}
}

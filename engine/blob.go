package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// JNode is a structured text: a JSON (or similar) tree, or a concatenation of text and numbers.
type JNode struct {
	k    byte // n null, b bool, i int, f float, s string, y bytes, a array, o object, c concatenation, N decimal number text, L literal text, x opaque sequence
	t    *Term
	sg   bool
	s    Str
	kids []*JNode
	keys []Str
	tag  string
}

func strNode(s Str) *JNode {
	if s.blob != nil {
		return s.blob.n
	}
	return &JNode{k: 'L', s: s}
}

func catNode(a, b *JNode) *JNode {
	var parts []*JNode
	add := func(n *JNode) {
		if n.k == 'c' {
			parts = append(parts, n.kids...)
		} else {
			parts = append(parts, n)
		}
	}
	add(a)
	add(b)
	// merge adjacent literals
	var out []*JNode
	for _, p := range parts {
		if p.k == 'L' && len(out) > 0 && out[len(out)-1].k == 'L' {
			l := out[len(out)-1].s
			if l.sym == nil && p.s.sym == nil {
				out[len(out)-1] = &JNode{k: 'L', s: Str{s: l.s + p.s.s}}
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	return &JNode{k: 'c', kids: out}
}

func (ex *Exec) newBlob(kind string, n *JNode) *Blob {
	return &Blob{kind: kind, n: n}
}

// nodeStr turns a node back into a string value.
func (ex *Exec) nodeStr(kind string, n *JNode) Str {
	if n.k == 'L' {
		return n.s
	}
	if s, ok := render(n); ok {
		return Str{s: s}
	}
	return Str{blob: ex.newBlob(kind, n)}
}

func (n *JNode) key(b *strings.Builder) {
	b.WriteByte(n.k)
	b.WriteString(n.tag)
	if n.t != nil {
		fmt.Fprintf(b, "#%d", n.t.id)
	}
	if n.k == 's' || n.k == 'L' || n.k == 'y' {
		strKey(b, n.s)
	}
	for i, k := range n.kids {
		b.WriteByte('(')
		if i < len(n.keys) {
			strKey(b, n.keys[i])
			b.WriteByte(':')
		}
		k.key(b)
		b.WriteByte(')')
	}
}

func strKey(b *strings.Builder, s Str) {
	if s.blob != nil {
		b.WriteString("B{")
		s.blob.n.key(b)
		b.WriteString("}")
		return
	}
	if s.sym != nil {
		for _, t := range s.sym {
			fmt.Fprintf(b, "~%d", t.id)
		}
		return
	}
	b.WriteString(strconv.Quote(s.s))
}

func (ex *Exec) blobKey(b *Blob) string {
	if b.key == "" {
		var sb strings.Builder
		sb.WriteString(b.kind)
		b.n.key(&sb)
		b.key = sb.String()
	}
	return b.key
}

// render gives the exact text when every leaf is concrete.
func render(n *JNode) (string, bool) {
	switch n.k {
	case 'n':
		return "null", true
	case 'b':
		if n.t.isConst() {
			return fmt.Sprint(n.t.c == 1), true
		}
	case 'i', 'N':
		if n.t.isConst() {
			if n.sg {
				return strconv.FormatInt(n.t.sval(), 10), true
			}
			return strconv.FormatUint(n.t.c, 10), true
		}
	case 'f':
		if n.t.isConst() {
			f := fval(n.t)
			var v interface{} = f
			if n.t.sort == SF32 {
				v = float32(f)
			}
			b, err := json.Marshal(v)
			if err == nil {
				return string(b), true
			}
		}
	case 's':
		if n.s.blob != nil {
			if t, ok := render(n.s.blob.n); ok {
				b, _ := json.Marshal(t)
				return string(b), true
			}
			return "", false
		}
		if n.s.sym == nil {
			b, _ := json.Marshal(n.s.s)
			return string(b), true
		}
	case 'y':
		if n.s.blob == nil && n.s.sym == nil {
			return `"` + base64.StdEncoding.EncodeToString([]byte(n.s.s)) + `"`, true
		}
	case 'L':
		if n.s.blob == nil && n.s.sym == nil {
			return n.s.s, true
		}
	case 'a':
		var p []string
		for _, k := range n.kids {
			s, ok := render(k)
			if !ok {
				return "", false
			}
			p = append(p, s)
		}
		return "[" + strings.Join(p, ",") + "]", true
	case 'o':
		var p []string
		for i, k := range n.kids {
			s, ok := render(k)
			if !ok || n.keys[i].blob != nil || n.keys[i].sym != nil {
				return "", false
			}
			kb, _ := json.Marshal(n.keys[i].s)
			p = append(p, string(kb)+":"+s)
		}
		if n.tag == "map" {
			idx := make([]int, len(p))
			for i := range idx {
				idx[i] = i
			}
			sort.Slice(idx, func(a, b int) bool { return n.keys[idx[a]].s < n.keys[idx[b]].s })
			var q []string
			for _, i := range idx {
				q = append(q, p[i])
			}
			p = q
		}
		return "{" + strings.Join(p, ",") + "}", true
	case 'c':
		var b strings.Builder
		for _, k := range n.kids {
			s, ok := render(k)
			if !ok {
				return "", false
			}
			b.WriteString(s)
		}
		return b.String(), true
	}
	return "", false
}

func (ex *Exec) materialize(s *Str) {
	if s.blob == nil {
		return
	}
	if t, ok := render(s.blob.n); ok {
		*s = Str{s: t}
		return
	}
	// a concatenation of literals with symbolic bytes
	if s.blob.n.k == 'c' {
		var bs []*Term
		ok := true
		for _, k := range s.blob.n.kids {
			if k.k == 'L' && k.s.blob == nil {
				bs = append(bs, ex.strBytes(k.s)...)
			} else if t, r := render(k); r {
				bs = append(bs, ex.strBytes(Str{s: t})...)
			} else {
				ok = false
			}
		}
		if ok {
			*s = mkStr(bs)
			return
		}
	}
	unsupported("text of a symbolic %s value (%c)", s.blob.kind, s.blob.n.k)
}

func (ex *Exec) materializeSlice(st *State, s *Slice) {
	if s.blob == nil {
		return
	}
	x := Str{blob: s.blob}
	ex.materialize(&x)
	*s = ex.bytesSlice(st, ex.strBytes(x))
}

func (ex *Exec) sliceStr(st *State, s Slice) Str {
	if s.blob != nil {
		return Str{blob: s.blob}
	}
	return mkStr(ex.sliceBytes(st, s))
}

func (ex *Exec) blobLen(b *Blob) Value {
	if t, ok := render(b.n); ok {
		return ex.T.Int(64, int64(len(t)))
	}
	// unknown but positive: text of a non-empty tree
	if b.lenT == nil {
		v := ex.T.Var(16, "bloblen_"+ex.blobKey(b))
		b.lenT = ex.T.Add(ex.T.Int(64, 1), ex.T.Resize(v, 64, false))
	}
	return b.lenT
}

func (ex *Exec) flat(n *JNode) []*JNode {
	if n.k == 'c' {
		return n.kids
	}
	return []*JNode{n}
}

func isDigit(b byte) bool { return b >= '0' && b <= '9' || b == '-' }

// blobEq decides the equality of structured strings.
func (ex *Exec) blobEq(c *Ctx, a, b Str) *Term {
	T := ex.T
	if a.blob != nil && b.blob != nil && (a.blob == b.blob || ex.blobKey(a.blob) == ex.blobKey(b.blob)) {
		return T.True
	}
	na, nb := strNode(a), strNode(b)
	sa, oka := render(na)
	sb, okb := render(nb)
	if oka && okb {
		return T.Bool(sa == sb)
	}
	ja, jb := isJSON(na), isJSON(nb)
	if ja && jb {
		return ex.nodeEq(c, na, nb)
	}
	if ja && okb {
		if n, err := parseJSON(ex.T, sb); err == nil {
			if s2, ok := render(n); ok && s2 == sb {
				return ex.nodeEq(c, na, n)
			}
		}
		return T.False
	}
	if jb && oka {
		return ex.blobEq(c, b, a)
	}
	return ex.textEq(c, ex.flat(na), ex.flat(nb))
}

func isJSON(n *JNode) bool {
	switch n.k {
	case 'o', 'a', 'x', 's', 'b', 'n', 'y':
		return true
	}
	return false
}

// textEq compares two part lists of literals and decimal numbers.
func (ex *Exec) textEq(c *Ctx, a, b []*JNode) *Term {
	T := ex.T
	type tok struct {
		b *Term // byte
		n *JNode
	}
	exp := func(ps []*JNode) []tok {
		var r []tok
		for _, p := range ps {
			if p.k == 'L' && p.s.blob == nil {
				for _, t := range ex.strBytes(p.s) {
					r = append(r, tok{b: t})
				}
			} else if s, ok := render(p); ok {
				for i := 0; i < len(s); i++ {
					r = append(r, tok{b: T.Const(8, uint64(s[i]))})
				}
			} else {
				r = append(r, tok{n: p})
			}
		}
		return r
	}
	x, y := exp(a), exp(b)
	r := T.True
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i].b != nil && y[j].b != nil:
			r = T.And(r, T.Eq(x[i].b, y[j].b))
			if r.isFalse() {
				return r
			}
			i++
			j++
		case x[i].n != nil && y[j].n != nil:
			p, q := x[i].n, y[j].n
			if p.k != q.k || p.k != 'N' || p.sg != q.sg || p.t.sort != q.t.sort {
				if p.k == '6' && q.k == '6' {
					r = T.And(r, ex.strEq(c, ex.nodeStr("b64", p.kids[0]), ex.nodeStr("b64", q.kids[0])))
					i++
					j++
					continue
				}
				if p.k == q.k && p.k == 'x' {
					r = T.And(r, ex.nodeEq(c, p, q))
					i++
					j++
					continue
				}
				unsupported("comparison of structured text")
			}
			r = T.And(r, T.Eq(p.t, q.t))
			i++
			j++
		default:
			// number against text: the digits must be concrete and delimited
			var n *JNode
			var s []tok
			var k *int
			if x[i].n != nil {
				n, s, k = x[i].n, y, &j
			} else {
				n, s, k = y[j].n, x, &i
			}
			if n.k == '6' {
				var txt []byte
				for e := *k; e < len(s) && s[e].b != nil; e++ {
					if !s[e].b.isConst() {
						unsupported("comparison of base64 with symbolic text")
					}
					txt = append(txt, byte(s[e].b.c))
				}
				q, used := ex.b64Eq(c, n, txt)
				r = T.And(r, q)
				if r.isFalse() {
					return r
				}
				*k += used
				if n == x[min(i, len(x)-1)].n {
					i++
				} else {
					j++
				}
				continue
			}
			if n.k != 'N' {
				unsupported("comparison of structured text")
			}
			st := *k
			e := st
			for e < len(s) && s[e].b != nil && s[e].b.isConst() && isDigit(byte(s[e].b.c)) {
				e++
			}
			if e < len(s) && (s[e].b == nil || !s[e].b.isConst()) {
				unsupported("comparison of a number with symbolic text")
			}
			var txt []byte
			for _, q := range s[st:e] {
				txt = append(txt, byte(q.b.c))
			}
			var v uint64
			ok := false
			if n.sg {
				if w, err := strconv.ParseInt(string(txt), 10, int(n.t.sort)); err == nil && strconv.FormatInt(w, 10) == string(txt) {
					v, ok = uint64(w), true
				}
			} else if w, err := strconv.ParseUint(string(txt), 10, int(n.t.sort)); err == nil && strconv.FormatUint(w, 10) == string(txt) {
				v, ok = w, true
			}
			if !ok {
				return T.False
			}
			r = T.And(r, T.Eq(n.t, T.Const(n.t.sort, v)))
			*k = e
			if n == x[min(i, len(x)-1)].n {
				i++
			} else {
				j++
			}
		}
	}
	if i < len(x) || j < len(y) {
		return T.False
	}
	return r
}

// blobPrefix decides whether a structured string starts with a plain prefix.
func (ex *Exec) blobPrefix(s, p Str) (Value, bool) {
	if p.blob != nil {
		return nil, false
	}
	f := ex.flat(s.blob.n)
	if f[0].k == 'L' && f[0].s.blob == nil && f[0].s.length() >= p.length() {
		r := ex.T.True
		for i := 0; i < p.length(); i++ {
			r = ex.T.And(r, ex.T.Eq(ex.strByte(f[0].s, i), ex.strByte(p, i)))
		}
		return r, true
	}
	return nil, false
}

// nodeEq compares two JSON trees (object members in order for structs, by key for maps).
func (ex *Exec) nodeEq(c *Ctx, a, b *JNode) *Term {
	T := ex.T
	if a.k != b.k || a.tag != b.tag && (a.k == 'x') {
		// int against float text could coincide; treat ints and floats as different texts only when concrete
		sa, oka := render(a)
		sb, okb := render(b)
		if oka && okb {
			return T.Bool(sa == sb)
		}
		if (a.k == 'i' || a.k == 'f') && (b.k == 'i' || b.k == 'f') {
			unsupported("comparison of JSON int and float text")
		}
		if a.k == 'y' && b.k == 's' || a.k == 's' && b.k == 'y' {
			unsupported("comparison of base64 and string")
		}
		return T.False
	}
	switch a.k {
	case 'n':
		return T.True
	case 'b':
		return T.Eq(a.t, b.t)
	case 'i', 'N':
		if a.t.sort == b.t.sort && a.sg == b.sg {
			return T.Eq(a.t, b.t)
		}
		return T.Eq(T.Resize(a.t, 64, a.sg), T.Resize(b.t, 64, b.sg))
	case 'f':
		if a.t.sort != b.t.sort {
			unsupported("comparison of float32 and float64 text")
		}
		return T.Eq(a.t, b.t)
	case 's', 'y', 'L':
		return ex.strEq(c, a.s, b.s)
	}
	if len(a.kids) != len(b.kids) {
		return T.False
	}
	r := T.True
	if a.k == 'o' {
		for i := range a.kids {
			found := false
			for j := range b.kids {
				if sameVal(a.keys[i], b.keys[j]) {
					r = T.And(r, ex.nodeEq(c, a.kids[i], b.kids[j]))
					found = true
					break
				}
			}
			if !found {
				if a.keys[i].concrete() {
					all := true
					for _, k := range b.keys {
						all = all && k.concrete()
					}
					if all {
						return T.False
					}
				}
				unsupported("comparison of JSON objects with symbolic keys")
			}
		}
		return r
	}
	for i := range a.kids {
		r = T.And(r, ex.nodeEq(c, a.kids[i], b.kids[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (ex *Exec) fmtInt(t *Term, signed bool) Str {
	if t.isConst() {
		if signed {
			return Str{s: strconv.FormatInt(t.sval(), 10)}
		}
		return Str{s: strconv.FormatUint(t.c, 10)}
	}
	return Str{blob: ex.newBlob("fmt", &JNode{k: 'N', t: t, sg: signed})}
}

func parseJSON(jsonTerms *Terms, s string) (*JNode, error) { return parseJSONOpt(jsonTerms, s, false) }

func parseJSONOpt(jsonTerms *Terms, s string, first bool) (*JNode, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	n, err := parseJ(jsonTerms, d)
	if err != nil {
		return nil, err
	}
	if first {
		var raw json.RawMessage
		if err := json.NewDecoder(strings.NewReader(s)).Decode(&raw); err != nil {
			return nil, err
		}
		return n, nil
	}
	if _, err := d.Token(); err == nil {
		return nil, fmt.Errorf("invalid character after top-level value")
	}
	// exact validation
	if !json.Valid([]byte(s)) {
		return nil, fmt.Errorf("invalid JSON")
	}
	return n, nil
}



func parseJ(jsonTerms *Terms, d *json.Decoder) (*JNode, error) {
	tk, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := tk.(type) {
	case nil:
		return &JNode{k: 'n'}, nil
	case bool:
		return &JNode{k: 'b', t: jsonTerms.Bool(x)}, nil
	case string:
		return &JNode{k: 's', s: Str{s: x}}, nil
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return &JNode{k: 'i', t: jsonTerms.Int(64, i), sg: true}, nil
		}
		if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			return &JNode{k: 'i', t: jsonTerms.Const(64, u)}, nil
		}
		f, err := x.Float64()
		if err != nil {
			return nil, err
		}
		return &JNode{k: 'f', t: jsonTerms.F64(f)}, nil
	case json.Delim:
		if x == '[' {
			n := &JNode{k: 'a'}
			for d.More() {
				k, err := parseJ(jsonTerms, d)
				if err != nil {
					return nil, err
				}
				n.kids = append(n.kids, k)
			}
			_, err := d.Token()
			return n, err
		}
		if x == '{' {
			n := &JNode{k: 'o'}
			for d.More() {
				kt, err := d.Token()
				if err != nil {
					return nil, err
				}
				k, err := parseJ(jsonTerms, d)
				if err != nil {
					return nil, err
				}
				n.keys = append(n.keys, Str{s: kt.(string)})
				n.kids = append(n.kids, k)
			}
			_, err := d.Token()
			return n, err
		}
	}
	return nil, fmt.Errorf("unexpected token")
}

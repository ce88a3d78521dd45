package main

import (
	"encoding/base64"
	"strings"
)

// Node kind '6' is the unpadded URL-safe base64 text of its only child (or of the string s).

const b64url = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

func registerJWT(ex *Exec) {
	I := ex.intr
	const jwt = "github.com/golang-jwt/jwt."
	I[jwt+"EncodeSegment"] = func(c *Ctx, a []Value) Value {
		s := ex.sliceStr(c.st, a[0].(Slice))
		if s.blob == nil && s.sym == nil {
			return Str{s: base64.RawURLEncoding.EncodeToString([]byte(s.s))}
		}
		return Str{blob: ex.newBlob("b64", &JNode{k: '6', kids: []*JNode{strNode(s)}})}
	}
	I[jwt+"DecodeSegment"] = func(c *Ctx, a []Value) Value {
		s := a[0].(Str)
		if s.blob != nil {
			if s.blob.n.k == '6' {
				return TupleV{ex.strToBytes(c, ex.nodeStr("b64", s.blob.n.kids[0])), Iface{}}
			}
			ex.materialize(&s)
		}
		if s.sym != nil {
			unsupported("base64 decoding of symbolic bytes")
		}
		b, err := base64.RawURLEncoding.DecodeString(s.s)
		e := Value(Iface{})
		if err != nil {
			e = ex.mkError(c, err.Error())
		}
		return TupleV{ex.strToBytes(c, Str{s: string(b)}), e}
	}
	I["strings.Join"] = func(c *Ctx, a []Value) Value {
		el := a[0].(Slice)
		any := false
		var xs []Str
		for i := 0; i < el.len; i++ {
			x := c.st.load(el.arr.field(el.off + i)).(Str)
			any = any || x.blob != nil
			xs = append(xs, x)
		}
		if !any {
			return runBody{}
		}
		n := strNode(xs[0])
		for _, x := range xs[1:] {
			n = catNode(catNode(n, strNode(a[1].(Str))), strNode(x))
		}
		return ex.nodeStr("text", n)
	}
	I["strings.Split"] = func(c *Ctx, a []Value) Value {
		s, sep := a[0].(Str), a[1].(Str)
		if s.blob == nil || sep.blob != nil || sep.sym != nil || len(sep.s) != 1 || strings.Contains(b64url, sep.s) {
			return runBody{}
		}
		cur := &JNode{k: 'L'}
		var out []*JNode
		for _, p := range ex.flat(s.blob.n) {
			switch {
			case p.k == '6':
				cur = catNode(cur, p)
			case p.k == 'L' && p.s.blob == nil && p.s.sym == nil:
				for i, x := range strings.Split(p.s.s, sep.s) {
					if i > 0 {
						out = append(out, cur)
						cur = &JNode{k: 'L'}
					}
					cur = catNode(cur, &JNode{k: 'L', s: Str{s: x}})
				}
			default:
				return runBody{}
			}
		}
		out = append(out, cur)
		arr := make(ArrV, len(out))
		for i, n := range out {
			if n.k == 'c' { // drop empty literals
				m := &JNode{k: 'L'}
				for _, p := range n.kids {
					if p.k != 'L' || p.s.length() > 0 {
						if m.k == 'L' && m.s.blob == nil && m.s.length() == 0 {
							m = p
						} else {
							m = catNode(m, p)
						}
					}
				}
				n = m
			}
			arr[i] = ex.nodeStr("text", n)
		}
		id := c.st.alloc(arr, "")
		return Slice{arr: Ptr{obj: id}, len: len(out), cap: len(out)}
	}
}

// b64Eq compares a base64 node with the literal text at the start of s; it returns the number of bytes consumed.
func (ex *Exec) b64Eq(c *Ctx, n *JNode, s []byte) (*Term, int) {
	e := 0
	for e < len(s) && strings.IndexByte(b64url, s[e]) >= 0 {
		e++
	}
	d, err := base64.RawURLEncoding.DecodeString(string(s[:e]))
	if err != nil || base64.RawURLEncoding.EncodeToString(d) != string(s[:e]) {
		return ex.T.False, e
	}
	return ex.strEq(c, ex.nodeStr("b64", n.kids[0]), Str{s: string(d)}), e
}

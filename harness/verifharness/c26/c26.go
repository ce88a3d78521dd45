package c26

import (
	"bytes"

	"github.com/pojol/braid/router"
	"github.com/pojol/braid/verifsym"
)

// ---- a reference encoder, written from router.proto and the protobuf wire format

func varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func lenField(b []byte, num int, v []byte) []byte {
	b = varint(b, uint64(num)<<3|2)
	b = varint(b, uint64(len(v)))
	return append(b, v...)
}

func strField(b []byte, num int, v string) []byte {
	if v == "" {
		return b
	}
	return lenField(b, num, []byte(v))
}

func refHeader(h *router.Header) []byte {
	b := []byte{}
	b = strField(b, 1, h.ID)
	b = strField(b, 2, h.OrgActorID)
	b = strField(b, 3, h.OrgActorType)
	b = strField(b, 4, h.PrevActorType)
	b = strField(b, 7, h.TargetActorID)
	b = strField(b, 8, h.TargetActorType)
	b = strField(b, 9, h.Event)
	b = strField(b, 10, h.Token)
	if h.Timestamp != 0 {
		b = varint(b, 11<<3)
		b = varint(b, uint64(h.Timestamp))
	}
	if len(h.Custom) > 0 {
		b = lenField(b, 12, h.Custom)
	}
	return b
}

func refMessage(m *router.Message) []byte {
	b := []byte{}
	if m.Header != nil {
		b = lenField(b, 1, refHeader(m.Header))
	}
	if len(m.Body) > 0 {
		b = lenField(b, 2, m.Body)
	}
	return b
}

func eqHeader(a, b *router.Header) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return verifsym.And(verifsym.And(verifsym.And(a.ID == b.ID, a.OrgActorID == b.OrgActorID),
		verifsym.And(a.OrgActorType == b.OrgActorType, a.PrevActorType == b.PrevActorType)),
		verifsym.And(verifsym.And(verifsym.And(a.TargetActorID == b.TargetActorID, a.TargetActorType == b.TargetActorType),
			verifsym.And(a.Event == b.Event, a.Token == b.Token)),
			verifsym.And(a.Timestamp == b.Timestamp, string(a.Custom) == string(b.Custom))))
}

func eqMessage(a, b *router.Message) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return verifsym.And(eqHeader(a.Header, b.Header), string(a.Body) == string(b.Body))
}

type codec interface {
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	MarshalToSizedBuffer([]byte) (int, error)
	XXX_Marshal([]byte, bool) ([]byte, error)
	XXX_Unmarshal([]byte) error
	XXX_Size() int
	Unmarshal([]byte) error
	Size() int
}

// enc encodes in one of the ways the library offers and checks the announced size.
func enc(m codec) []byte {
	n := m.Size()
	verifsym.Assert(m.XXX_Size() == n, "both sizes agree")
	var b []byte
	var err error
	switch verifsym.Choice("way", 4) {
	case 0:
		b, err = m.Marshal()
	case 1:
		buf := make([]byte, n+3)
		buf[n], buf[n+1], buf[n+2] = 0xee, 0xee, 0xee
		var k int
		k, err = m.MarshalTo(buf)
		verifsym.Assert(k == n && buf[n] == 0xee && buf[n+1] == 0xee && buf[n+2] == 0xee, "only the announced bytes are written")
		b = buf[:k]
	case 2:
		buf := make([]byte, n+2)
		var k int
		k, err = m.MarshalToSizedBuffer(buf)
		b = buf[len(buf)-k:]
	default:
		b, err = m.XXX_Marshal(make([]byte, 0, n), false)
	}
	verifsym.Assert(err == nil, "encoding succeeds")
	verifsym.Assert(len(b) == n, "encoded length equals the announced size")
	return b
}

func dec(m codec, b []byte) error {
	if verifsym.Choice("decoder", 2) == 0 {
		return m.Unmarshal(b)
	}
	return m.XXX_Unmarshal(b)
}

// strAt addresses the i-th text field.
func strAt(h *router.Header, i int) *string {
	return []*string{&h.ID, &h.OrgActorID, &h.OrgActorType, &h.PrevActorType, &h.TargetActorID, &h.TargetActorType, &h.Event, &h.Token}[i]
}

func symHeader() *router.Header {
	h := &router.Header{}
	full := verifsym.Choice("others", 2) == 1
	if full {
		for i := 0; i < 8; i++ {
			*strAt(h, i) = string([]byte{byte('a' + i), byte('0' + i)})
		}
		h.Timestamp = 77
		h.Custom = []byte{9, 8, 7}
	}
	i := verifsym.Choice("field", 9)
	if i == 8 {
		h.Custom = verifsym.Bytes("custom", 3)
	} else {
		*strAt(h, i) = verifsym.String("text", 3)
	}
	return h
}

// Each text and the custom field with arbitrary content, the others empty or set.
func VerifC26_Header() {
	h := symHeader()
	b := enc(h)
	verifsym.Assert(string(b) == string(refHeader(h)), "the bytes are those of router.proto")
	var g router.Header
	verifsym.Assert(dec(&g, b) == nil, "decoding succeeds")
	verifsym.Assert(eqHeader(h, &g), "round trip")
	for i := range b {
		b[i] ^= 0xff
	}
	verifsym.Assert(eqHeader(h, &g), "the decoded message does not share the buffer")
	verifsym.Reach("end")
}

// Any timestamp.
func VerifC26_Timestamp() {
	h := &router.Header{Timestamp: verifsym.Int64("ts"), Token: "x"}
	b := enc(h)
	verifsym.Assert(string(b) == string(refHeader(h)), "the bytes are those of router.proto")
	var g router.Header
	verifsym.Assert(dec(&g, b) == nil, "decoding succeeds")
	verifsym.Assert(eqHeader(h, &g), "round trip")
	verifsym.Reach("end")
}

// Contents whose length needs more than one byte of length prefix.
func VerifC26_Lengths() {
	n := []int{1, 127, 128, 129, 300, 16383, 16384}[verifsym.Choice("len", verifsym.Size(5, 7))]
	v := make([]byte, n)
	for i := 0; i < n; i += 1 + n/7 {
		v[i] = verifsym.Byte("x")
	}
	h := &router.Header{Timestamp: 5}
	m := &router.Message{Header: h}
	switch i := verifsym.Choice("where", 10); i {
	case 8:
		h.Custom = v
	case 9:
		m.Body = v
	default:
		*strAt(h, i) = string(v)
	}
	b := enc(m)
	verifsym.Assert(bytes.Equal(b, refMessage(m)), "the bytes are those of router.proto")
	var g router.Message
	verifsym.Assert(dec(&g, b) == nil, "decoding succeeds")
	verifsym.Assert(eqMessage(m, &g), "round trip")
	verifsym.Reach("end")
}

func symMessage() *router.Message {
	switch verifsym.Choice("message", 4) {
	case 0:
		return nil
	case 1:
		return &router.Message{Body: verifsym.Bytes("body", 3)}
	case 2:
		return &router.Message{Header: &router.Header{}, Body: verifsym.Bytes("body", 3)}
	}
	return &router.Message{Header: &router.Header{ID: verifsym.String("id", 1), Event: verifsym.String("ev", verifsym.Size(1, 2)), Timestamp: []int64{0, 7, -1}[verifsym.Choice("ts", 3)]}, Body: verifsym.Bytes("body", 2)}
}

// Nested messages, absent ones included.
func VerifC26_Envelope() {
	m := symMessage()
	kind := verifsym.Choice("kind", 3)
	if kind == 0 {
		if m == nil {
			return
		}
		b := enc(m)
		verifsym.Assert(string(b) == string(refMessage(m)), "the bytes are those of router.proto")
		var g router.Message
		verifsym.Assert(dec(&g, b) == nil, "decoding succeeds")
		verifsym.Assert(eqMessage(m, &g), "round trip")
		return
	}
	want := []byte{}
	if m != nil {
		want = lenField(want, kind, refMessage(m))
	}
	if kind == 1 {
		b := enc(&router.RouteReq{Msg: m})
		verifsym.Assert(string(b) == string(want), "the bytes are those of router.proto")
		var g router.RouteReq
		verifsym.Assert(dec(&g, b) == nil, "decoding succeeds")
		verifsym.Assert(eqMessage(m, g.GetMsg()), "round trip")
	} else {
		b := enc(&router.RouteRes{Msg: m})
		verifsym.Assert(string(b) == string(want), "the bytes are those of router.proto")
		var g router.RouteRes
		verifsym.Assert(dec(&g, b) == nil, "decoding succeeds")
		verifsym.Assert(eqMessage(m, g.GetMsg()), "round trip")
	}
	verifsym.Reach("end")
}

func fresh(kind int) codec {
	switch kind {
	case 0:
		return &router.Header{}
	case 1:
		return &router.Message{}
	case 2:
		return &router.RouteReq{}
	}
	return &router.RouteRes{}
}

func same(a, b codec) bool {
	switch x := a.(type) {
	case *router.Header:
		return eqHeader(x, b.(*router.Header))
	case *router.Message:
		return eqMessage(x, b.(*router.Message))
	case *router.RouteReq:
		return eqMessage(x.Msg, b.(*router.RouteReq).Msg)
	case *router.RouteRes:
		return eqMessage(x.Msg, b.(*router.RouteRes).Msg)
	}
	return false
}

// settle re-encodes what was decoded and decodes it again.
func settle(kind int, b []byte) {
	m := fresh(kind)
	if m.Unmarshal(b) != nil {
		return
	}
	verifsym.Reach("decoded")
	c, err := m.Marshal()
	verifsym.Assert(err == nil && len(c) == m.Size(), "what was decoded can be encoded")
	g := fresh(kind)
	verifsym.Assert(g.Unmarshal(c) == nil, "and decoded again")
	verifsym.Assert(same(m, g), "to the same message")
}

// Arbitrary bytes: every decoder succeeds or fails, and what it accepts is stable.
//
//verif: prio=5
func VerifC26_AnyBytes() {
	settle(verifsym.Choice("kind", 4), verifsym.Bytes("b", verifsym.Size(4, 6)))
}

// Arbitrary content in a header whose tag is a known field.
func VerifC26_AnyHeader() {
	num := []byte{1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 5, 13}[verifsym.Choice("num", 12)]
	b := []byte{num<<3 | byte(verifsym.Choice("wire", 6))}
	b = append(b, verifsym.Bytes("b", verifsym.Size(3, 4))...)
	h := &router.Header{}
	err := h.Unmarshal(b)
	if err == nil && len(b) > 1 {
		verifsym.Reach("decoded")
	}
	settle(0, b)
}

// A length prefix of any size: accepted exactly if the content is there.
func VerifC26_AnyLength() {
	n := verifsym.Uint64("n")
	rest := verifsym.Choice("rest", 4)
	num := []int{1, 2, 3, 4, 7, 8, 9, 10, 12, 13}[verifsym.Choice("num", 10)]
	b := varint(nil, uint64(num)<<3|2)
	b = varint(b, n)
	b = append(b, []byte{'x', 'x', 'x'}[:rest]...)
	if int64(n) >= 0 && n < uint64(rest) {
		return // the remaining bytes would be parsed as further fields
	}
	var h router.Header
	err := h.Unmarshal(b)
	verifsym.Assert((err == nil) == (n == uint64(rest)), "a length beyond the input is refused")
	if num <= 2 {
		var m router.Message
		err := m.Unmarshal(b)
		verifsym.Assert(err != nil || n == uint64(rest), "a length beyond the input is refused")
		if num == 2 {
			verifsym.Assert((err == nil) == (n == uint64(rest)), "a length beyond the input is refused")
		}
	}
	verifsym.Reach("end")
}

// Varints of more than ten bytes, and ten byte varints.
func VerifC26_LongVarint() {
	for kind := 0; kind < 4; kind++ {
		pos := verifsym.Choice("pos", 3)
		var b []byte
		if pos > 0 {
			b = append(b, []byte{11 << 3, 12<<3 | 2}[pos-1])
		}
		k := 9 + verifsym.Choice("k", 3)
		for i := 0; i < k; i++ {
			b = append(b, 0xff)
		}
		b = append(b, verifsym.Byte("last"))
		err := fresh(kind).Unmarshal(b)
		if k >= 10 {
			verifsym.Assert(err != nil, "a varint of more than ten bytes is refused")
		}
	}
	verifsym.Reach("end")
}

// An encoding cut anywhere inside a field is refused.
func VerifC26_Truncated() {
	h := &router.Header{ID: "ab", Event: "e", Token: "tok", Timestamp: 300, Custom: []byte{1, 2}}
	req := &router.RouteReq{Msg: &router.Message{Header: h, Body: []byte("xy")}}
	b, _ := req.Marshal()
	k := verifsym.IntRange("cut", 1, len(b)-1)
	var g router.RouteReq
	verifsym.Assert(g.Unmarshal(b[:k]) != nil, "a truncated message is refused")
	verifsym.Reach("end")
}

// An unknown field before, between or after known ones changes nothing.
func VerifC26_Unknown() {
	var u []byte
	num := 13 + uint64(verifsym.Choice("num", 3))*1000
	switch verifsym.Choice("wire", 4) {
	case 0:
		u = varint(varint(nil, num<<3), uint64(verifsym.Uint16("v")))
	case 1:
		u = append(varint(nil, num<<3|1), 1, 2, 3, 4, 5, 6, 7, verifsym.Byte("x"))
	case 2:
		u = lenField(nil, int(num), verifsym.Bytes("c", 3))
	default:
		u = append(varint(nil, num<<3|5), verifsym.Byte("y"), 2, 3, 4)
	}
	if verifsym.Choice("group", 2) == 1 {
		u = append(append(varint(nil, num<<3|3), u...), varint(nil, num<<3|4)...)
	}
	h := &router.Header{ID: "id", Event: verifsym.String("ev", 2), Custom: []byte{1}}
	a, _ := (&router.Header{ID: "id"}).Marshal()
	c, _ := (&router.Header{Event: h.Event, Custom: h.Custom}).Marshal()
	var b []byte
	switch verifsym.Choice("at", 3) {
	case 0:
		b = append(append(append(b, u...), a...), c...)
	case 1:
		b = append(append(append(b, a...), u...), c...)
	default:
		b = append(append(append(b, a...), c...), u...)
	}
	var g router.Header
	verifsym.Assert(g.Unmarshal(b) == nil, "unknown fields are skipped")
	verifsym.Assert(eqHeader(h, &g), "and the known ones kept")
	verifsym.Reach("end")
}

// Accessors read the field they name, also on absent messages.
func VerifC26_Accessors() {
	h := symHeader()
	verifsym.Assert(h.GetID() == h.ID && h.GetOrgActorID() == h.OrgActorID && h.GetOrgActorType() == h.OrgActorType && h.GetPrevActorType() == h.PrevActorType, "accessors")
	verifsym.Assert(h.GetTargetActorID() == h.TargetActorID && h.GetTargetActorType() == h.TargetActorType && h.GetEvent() == h.Event && h.GetToken() == h.Token, "accessors")
	verifsym.Assert(h.GetTimestamp() == h.Timestamp && string(h.GetCustom()) == string(h.Custom), "accessors")
	var n *router.Header
	verifsym.Assert(n.GetID() == "" && n.GetEvent() == "" && n.GetToken() == "" && n.GetTimestamp() == 0 && n.GetCustom() == nil && n.Size() == 0, "absent header")
	var m *router.Message
	verifsym.Assert(m.GetHeader() == nil && m.GetBody() == nil && m.Size() == 0, "absent message")
	verifsym.Reach("end")
}

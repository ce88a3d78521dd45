// Package c24 checks the custom fields of router/msg.
package c24

import (
	"context"

	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifsym"
)

func ascii(s string) string {
	for i := 0; i < len(s); i++ {
		verifsym.Assume(s[i] < 0x80)
	}
	return s
}

func str(name string, n int) string { return ascii(verifsym.String(name, n)) }

// side writes and reads one side of a message.
type side struct {
	res bool
	b   *msg.MsgBuilder
}

func newSide() side {
	return side{res: verifsym.Choice("side", 2) == 1, b: msg.NewBuilder(context.Background())}
}

func (s side) with(a ...msg.Attr) {
	if s.res {
		s.b.WithResCustomFields(a...)
	} else {
		s.b.WithReqCustomFields(a...)
	}
}

func (s side) raw() []byte {
	if s.res {
		return s.b.Build().Res.Header.Custom
	}
	return s.b.Build().Req.Header.Custom
}

func (s side) setRaw(b []byte) {
	if s.res {
		s.b.Build().Res.Header.Custom = b
	} else {
		s.b.Build().Req.Header.Custom = b
	}
}

func (s side) fields() (map[string]any, error) {
	if s.res {
		return s.b.Build().GetResCustomMap()
	}
	return s.b.Build().GetReqCustomMap()
}

func get[T any](s side, key string) T {
	if s.res {
		return msg.GetResCustomField[T](s.b.Build(), key)
	}
	return msg.GetReqCustomField[T](s.b.Build(), key)
}

// rt: write a value, optionally merge another field on top, read it back.
func rt[T comparable](v T, label string) {
	s := newSide()
	s.with(msg.Attr{Key: "k", Value: v})
	if verifsym.Choice("merge", 2) == 1 {
		s.with(msg.Attr{Key: "other", Value: "x"})
		verifsym.Assert(get[string](s, "other") == "x", "added field")
	}
	verifsym.Assert(s.b.Build().Err == nil, "no error")
	verifsym.Assert(get[T](s, "k") == v, label+" reads back")
	verifsym.Assert(get[T](s, "absent") == *new(T), "absent is zero")
	o := side{res: !s.res, b: s.b}
	verifsym.Assert(len(o.raw()) == 0 && get[T](o, "k") == *new(T), "the other side is untouched")
	verifsym.Reach("read " + label)
}

func VerifC24_Int()    { rt(verifsym.Int("v"), "int") }
func VerifC24_Int8()   { rt(verifsym.Int8("v"), "int8") }
func VerifC24_Int16()  { rt(verifsym.Int16("v"), "int16") }
func VerifC24_Int32()  { rt(verifsym.Int32("v"), "int32") }
func VerifC24_Int64()  { rt(verifsym.Int64("v"), "int64") }
func VerifC24_Uint()   { rt(verifsym.Uint("v"), "uint") }
func VerifC24_Uint8()  { rt(verifsym.Byte("v"), "uint8") }
func VerifC24_Uint16() { rt(verifsym.Uint16("v"), "uint16") }
func VerifC24_Uint32() { rt(verifsym.Uint32("v"), "uint32") }
func VerifC24_Uint64() { rt(verifsym.Uint64("v"), "uint64") }
func VerifC24_Bool()   { rt(verifsym.Bool("v"), "bool") }
func VerifC24_String() { rt(str("v", verifsym.Size(4, 8)), "string") }
func VerifC24_Float64() {
	v := verifsym.Float64("v")
	verifsym.Assume(v-v == 0)
	rt(v, "float64")
}
func VerifC24_Float32() {
	v := verifsym.Float32("v")
	verifsym.Assume(v-v == 0)
	rt(v, "float32")
}

// VerifC24_Merge: any two batches of fields with arbitrary keys; later ones win, everything else stays.
func VerifC24_Merge() {
	s := newSide()
	n := verifsym.Size(3, 4)
	keys := make([]string, n)
	vals := make([]int32, n)
	cut := verifsym.Choice("cut", n+1)
	var a, b []msg.Attr
	for i := range keys {
		keys[i] = str("key", 1)
		vals[i] = verifsym.Int32("val")
		if i < cut {
			a = append(a, msg.Attr{Key: keys[i], Value: vals[i]})
		} else {
			b = append(b, msg.Attr{Key: keys[i], Value: vals[i]})
		}
	}
	if len(a) > 0 {
		s.with(a...)
	}
	if len(b) > 0 {
		s.with(b...)
	}
	verifsym.Assert(s.b.Build().Err == nil, "no error")
	for i := range keys {
		last := i
		for j := i + 1; j < n; j++ {
			if keys[j] == keys[i] {
				last = j
			}
		}
		verifsym.Assert(get[int32](s, keys[i]) == vals[last], "last value of a key")
	}
	verifsym.Reach("merged")
}

// VerifC24_Override: a field written again, with any value of any type, holds that value and no other field changes.
func VerifC24_Override() {
	s := newSide()
	old := []any{str("old", 1), verifsym.Int64("old int"), verifsym.Bool("old bool")}[verifsym.Choice("old type", 3)]
	keep := verifsym.Int64("keep")
	s.with(msg.Attr{Key: "o", Value: keep}, msg.Attr{Key: "k", Value: old})
	if verifsym.Choice("steps", 2) == 1 {
		s.with(msg.Attr{Key: "p", Value: "q"})
	}
	switch verifsym.Choice("new type", 4) {
	case 0:
		v := str("new", 2)
		s.with(msg.Attr{Key: "k", Value: v})
		verifsym.Assert(get[string](s, "k") == v, "text written over")
	case 1:
		v := verifsym.Int64("new int")
		s.with(msg.Attr{Key: "k", Value: v})
		verifsym.Assert(get[int64](s, "k") == v, "number written over")
	case 2:
		v := verifsym.Bool("new bool")
		s.with(msg.Attr{Key: "k", Value: v})
		verifsym.Assert(get[bool](s, "k") == v, "truth value written over")
	case 3:
		s.with(msg.Attr{Key: "k", Value: nil})
		verifsym.Assert(get[string](s, "k") == "" && get[int64](s, "k") == 0 && !get[bool](s, "k"), "null written over")
		m, err := s.fields()
		v, ok := m["k"]
		verifsym.Assert(err == nil && ok && v == nil, "and is there")
	}
	verifsym.Assert(get[int64](s, "o") == keep, "another field stays")
	verifsym.Assert(s.b.Build().Err == nil, "no error")
	verifsym.Reach("end")
}

// VerifC24_BothSides: request and response fields are kept apart, also when both have some.
func VerifC24_BothSides() {
	s := newSide()
	o := side{res: !s.res, b: s.b}
	k1, k2 := str("key", 2), str("other key", 2)
	v1, v2, v3, v4 := verifsym.Int32("v1"), verifsym.Int64("v2"), verifsym.Int32("v3"), verifsym.Int64("v4")
	verifsym.Assume(k1 != k2 && k1 != "both" && k2 != "both" && k1 != "third" && k2 != "third")
	s.with(msg.Attr{Key: k1, Value: v1}, msg.Attr{Key: "both", Value: v2})
	o.with(msg.Attr{Key: k2, Value: v3}, msg.Attr{Key: "both", Value: v4})
	if verifsym.Choice("more", 2) == 1 {
		s.with(msg.Attr{Key: "third", Value: v3})
		verifsym.Assert(get[int32](s, "third") == v3 && get[int32](o, "third") == 0, "a later field")
	}
	verifsym.Assert(get[int32](s, k1) == v1 && get[int64](s, "both") == v2, "own fields")
	verifsym.Assert(get[int32](o, k2) == v3 && get[int64](o, "both") == v4, "own fields")
	verifsym.Assert(get[int32](s, k2) == 0 && get[int32](o, k1) == 0, "not the other side's")
	verifsym.Assert(s.b.Build().Err == nil, "no error")
	verifsym.Reach("end")
}

// VerifC24_Incompatible: reading as another type gives the zero value.
func VerifC24_Incompatible() {
	s := newSide()
	v := str("v", 3)
	n := verifsym.Int32("n")
	f := verifsym.Bool("b")
	s.with(msg.Attr{Key: "s", Value: v}, msg.Attr{Key: "n", Value: n}, msg.Attr{Key: "b", Value: f}, msg.Attr{Key: "nil", Value: nil})
	verifsym.Assert(get[int](s, "s") == 0 && get[uint64](s, "s") == 0 && get[float64](s, "s") == 0 && !get[bool](s, "s"), "string read as another type")
	verifsym.Assert(get[string](s, "n") == "" && !get[bool](s, "n"), "number read as another type")
	verifsym.Assert(get[int](s, "b") == 0 && get[int8](s, "b") == 0 && get[uint8](s, "b") == 0 && get[string](s, "b") == "", "bool read as another type")
	verifsym.Assert(get[int](s, "nil") == 0 && get[string](s, "nil") == "", "nil read as another type")
	verifsym.Assert(get[string](s, "s") == v && get[int](s, "n") == int(n) && get[bool](s, "b") == f, "still there")
	verifsym.Assert(get[int64](s, "n") == int64(n), "widened")
}

// VerifC24_Malformed: malformed data stays as it is and is reported.
func VerifC24_Malformed() {
	s := newSide()
	texts := []string{"{", "[1]", "x", "{\"a\":1", "\"s\"", "{\"a\":1}x", "{a:1}"}
	t := texts[verifsym.Choice("text", len(texts))]
	s.setRaw([]byte(t))
	v := verifsym.Int("v")
	s.with(msg.Attr{Key: "k", Value: v})
	verifsym.Assert(s.b.Build().Err != nil, "reported")
	verifsym.Assert(string(s.raw()) == t, "left unmodified")
	verifsym.Assert(get[int](s, "k") == 0, "nothing readable")
}

// VerifC24_Unencodable: a value that cannot be encoded is reported and existing fields stay.
func VerifC24_Unencodable() {
	s := newSide()
	v := verifsym.Int32("v")
	s.with(msg.Attr{Key: "k", Value: v})
	s.with(msg.Attr{Key: "c", Value: make(chan int)})
	verifsym.Assert(s.b.Build().Err != nil, "reported")
	verifsym.Assert(get[int32](s, "k") == v, "existing field kept")
}

// VerifC24_Existing: fields of every kind written first survive a later addition.
func VerifC24_Existing() {
	s := newSide()
	i, u, t, b := verifsym.Int64("i"), verifsym.Uint64("u"), str("t", 3), verifsym.Bool("b")
	s.with(msg.Attr{Key: "i", Value: i}, msg.Attr{Key: "u", Value: u}, msg.Attr{Key: "t", Value: t}, msg.Attr{Key: "b", Value: b})
	for n := verifsym.Choice("adds", 3); n > 0; n-- {
		s.with(msg.Attr{Key: "z", Value: n})
	}
	verifsym.Assert(get[int64](s, "i") == i, "int64 kept")
	verifsym.Assert(get[uint64](s, "u") == u, "uint64 kept")
	verifsym.Assert(get[string](s, "t") == t, "string kept")
	verifsym.Assert(get[bool](s, "b") == b, "bool kept")
}

// VerifC24_WholeMap: writing and reading the whole map at once.
func VerifC24_WholeMap() {
	s := newSide()
	v, t := verifsym.Int32("v"), str("t", 3)
	m := map[string]any{"n": v, "t": t}
	var got map[string]any
	var err error
	if s.res {
		_, err = s.b.Build().GetResCustomMap()
		verifsym.Assert(err != nil, "empty data is an error")
		s.b.WithResCustomFieldsMap(m)
		got, err = s.b.Build().GetResCustomMap()
	} else {
		_, err = s.b.Build().GetReqCustomMap()
		verifsym.Assert(err != nil, "empty data is an error")
		s.b.WithReqCustomFieldsMap(m)
		got, err = s.b.Build().GetReqCustomMap()
	}
	verifsym.Assert(err == nil && len(got) == 2, "all fields")
	f, ok := got["n"].(float64)
	verifsym.Assert(ok && f == float64(v), "number")
	x, ok := got["t"].(string)
	verifsym.Assert(ok && x == t, "text")
}

// VerifC24_NilMap: an empty or nil map is a message without fields, to which fields can be added.
func VerifC24_NilMap() {
	s := newSide()
	var m map[string]any
	if verifsym.Choice("empty", 2) == 1 {
		m = map[string]any{}
	}
	if s.res {
		s.b.WithResCustomFieldsMap(m)
	} else {
		s.b.WithReqCustomFieldsMap(m)
	}
	verifsym.Assert(s.b.Build().Err == nil && get[int](s, "k") == 0, "no fields")
	v := verifsym.Int("v")
	s.with(msg.Attr{Key: "k", Value: v})
	verifsym.Assert(s.b.Build().Err == nil && get[int](s, "k") == v, "field added")
}

type object struct {
	ID   string
	N    int64
	B    []byte
	L    []int32
	M    map[string]string
	Deep *object
}

// VerifC24_Object: a whole object written as custom data reads back.
func VerifC24_Object() {
	s := newSide()
	o := object{ID: verifsym.String("id", 3), N: verifsym.Int64("n"), B: verifsym.Bytes("b", 3), L: []int32{verifsym.Int32("l"), 2}, M: map[string]string{"k": verifsym.String("m", 2)},
		Deep: &object{N: verifsym.Int64("n2")}}
	var got, none object
	var err, e0 error
	if s.res {
		e0 = s.b.GetResCustomObject(&none)
		s.b.WithResCustomObject(o)
		err = s.b.GetResCustomObject(&got)
	} else {
		e0 = s.b.GetReqCustomObject(&none)
		s.b.WithReqCustomObject(o)
		err = s.b.GetReqCustomObject(&got)
	}
	verifsym.Assert(e0 != nil, "no object is an error")
	verifsym.Assert(err == nil && s.b.Build().Err == nil, "no error")
	verifsym.Assert(got.ID == o.ID && got.N == o.N && string(got.B) == string(o.B), "scalars")
	verifsym.Assert(len(got.L) == 2 && got.L[0] == o.L[0] && got.L[1] == 2 && got.M["k"] == o.M["k"], "containers")
	verifsym.Assert(got.Deep != nil && got.Deep.N == o.Deep.N, "nested")
	other := side{res: !s.res, b: s.b}
	verifsym.Assert(len(other.raw()) == 0, "the other side is untouched")
}

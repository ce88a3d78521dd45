package timer

import (
	"time"

	"github.com/pojol/braid/verifsym"
)

// field describes one kind of expression; at makes a time whose field has the value v.
type verifField struct {
	typ    string
	lo, hi int
	at     func(v int) time.Time
}

var verifFields = []verifField{
	{ExpressType_WeekDay, 0, 6, func(v int) time.Time { return time.Date(2023, 1, 1+v, 10, 20, 30, 0, time.UTC) }},
	{ExpressType_Month, 1, 12, func(v int) time.Time { return time.Date(2023, time.Month(v), 13, 14, 15, 16, 0, time.UTC) }},
	{ExpressType_Day, 1, 31, func(v int) time.Time { return time.Date(2023, 1, v, 12, 13, 14, 0, time.UTC) }},
	{ExpressType_Hour, 0, 23, func(v int) time.Time { return time.Date(2023, 5, 24, v, 25, 26, 0, time.UTC) }},
	{ExpressType_Minute, 0, 59, func(v int) time.Time { return time.Date(2023, 6, 7, 8, v, 9, 0, time.UTC) }},
	{ExpressType_Second, 0, 59, func(v int) time.Time { return time.Date(2023, 6, 7, 8, 9, v, 0, time.UTC) }},
}

// verifMax is the largest value an expression may name.
func (f verifField) max() int {
	if f.typ == ExpressType_WeekDay {
		return 7
	}
	return f.hi
}

// verifNum is the decimal text of a symbolic number of up to two digits and its value.
func verifNum(name string) (string, int) {
	return verifDigits(name, verifsym.Choice(name+" digits", 2)+1)
}

func verifDigits(name string, n int) (string, int) {
	s := verifsym.StringN(name, n)
	v := 0
	for i := 0; i < n; i++ {
		verifsym.Assume(s[i] >= '0' && s[i] <= '9')
		v = v*10 + int(s[i]-'0')
	}
	return s, v
}

// verifOne compares IsMatch with want for one value of the field, whichever it is.
func verifOne(f verifField, e *ExpressSet, want func(v int) bool, label string) {
	verifsym.Assert(e != nil, label+": parsed")
	if e == nil {
		return
	}
	v := f.lo + verifsym.Choice("x", f.hi-f.lo+1)
	verifsym.Assert(e.IsMatch(f.at(v)) == want(v), label+": matches exactly the set")
}

// verifSame compares IsMatch with want for every value of the field.
func verifSame(f verifField, e *ExpressSet, want func(v int) bool, label string) {
	verifsym.Assert(e != nil, label+": parsed")
	if e == nil {
		return
	}
	for v := f.lo; v <= f.hi; v++ {
		verifsym.Assert(e.IsMatch(f.at(v)) == want(v), label+": matches exactly the set")
	}
}

// VerifC28_Star: "*" is every value.
func VerifC28_Star() {
	f := verifFields[verifsym.Choice("field", len(verifFields))]
	verifSame(f, parseExpress("*", f.typ), func(int) bool { return true }, "star")
}

// VerifC28_Every: "*/n" is every n-th value.
func VerifC28_Every() {
	f := verifFields[verifsym.Choice("field", len(verifFields))]
	s, n := verifNum("n")
	e := parseExpress("*/"+s, f.typ)
	if n == 0 {
		verifsym.Assert(e == nil, "a step of zero is no expression")
		verifsym.Reach("zero")
		return
	}
	set := map[int]bool{}
	for i := f.lo; i <= f.max(); i += n {
		set[i] = true
	}
	if f.typ == ExpressType_WeekDay && set[7] {
		set[0] = true
	}
	verifSame(f, e, func(v int) bool { return set[v] }, "every n-th")
	verifsym.Reach("parsed")
}

// VerifC28_List: a list is exactly the listed values.
func VerifC28_List() {
	f := verifFields[verifsym.Choice("field", len(verifFields))]
	n := verifsym.Choice("items", verifsym.Size(2, 3)) + 1
	txt := ""
	var vals []int
	for i := 0; i < n; i++ {
		s, v := verifNum("v")
		verifsym.Assume(v <= f.max())
		if i > 0 {
			txt += ","
		}
		txt += s
		vals = append(vals, v)
	}
	e := parseExpress(txt, f.typ)
	verifOne(f, e, func(x int) bool {
		for _, v := range vals {
			if v == x || f.typ == ExpressType_WeekDay && v == 7 && x == 0 {
				return true
			}
		}
		return false
	}, "list")
}

// inRange: x lies in the (possibly wrapping) range a-b of the field.
func (f verifField) inRange(a, b, x int) bool {
	if a <= b {
		return a <= x && x <= b
	}
	return x >= a || x <= b
}

// VerifC28_Range: a range, also a wrapping one, optionally followed by a single value.
func VerifC28_Range() {
	nf := verifsym.Size(2, 6)
	fi := verifsym.Choice("field", nf)
	f := verifFields[fi]
	var as, bs string
	var a, b int
	if fi == 0 {
		as, a = verifDigits("a", 1)
		bs, b = verifDigits("b", 1)
	} else {
		as, a = verifDigits("a", 2)
		bs, b = verifDigits("b", verifsym.Size(2, 1+verifsym.Choice("b digits", 2)))
	}
	verifsym.Assume(a >= f.lo && a <= f.max() && b >= f.lo && b <= f.max())
	txt := as + "-" + bs
	extra := -1
	switch verifsym.Choice("extra", 3) {
	case 1:
		extra = f.lo + (f.hi-f.lo)/2
		txt += "," + verifItoa(extra)
	case 2:
		extra = f.hi
		txt = verifItoa(extra) + "," + txt
	}
	e := parseExpress(txt, f.typ)
	verifSame(f, e, func(x int) bool {
		if x == extra {
			return true
		}
		if f.typ == ExpressType_WeekDay && x == 0 && f.inRange(a, b, 7) {
			return true
		}
		return f.inRange(a, b, x)
	}, "range")
}

// VerifC28_RangeStep: a non-wrapping range with a step.
func VerifC28_RangeStep() {
	f := verifFields[1+verifsym.Choice("field", verifsym.Size(1, 3))]
	as, a := verifDigits("a", 2)
	bs, b := verifDigits("b", 2)
	ns := verifsym.StringN("n", 1)
	verifsym.Assume(ns[0] >= '1' && ns[0] <= '9')
	n := int(ns[0] - '0')
	verifsym.Assume(a >= f.lo && a <= b && b <= f.hi)
	e := parseExpress(as+"-"+bs+"/"+ns, f.typ)
	set := map[int]bool{}
	for i := a; i <= b; i += n {
		set[i] = true
	}
	verifSame(f, e, func(x int) bool { return set[x] }, "range with step")
}

func verifItoa(v int) string {
	if v >= 10 {
		return string([]byte{byte('0' + v/10), byte('0' + v%10)})
	}
	return string([]byte{byte('0' + v)})
}

// VerifC28_Any: any text parses in bounded time without a crash.
func VerifC28_Any() {
	s := verifsym.String("expr", verifsym.Size(3, 5))
	f := verifFields[verifsym.Choice("field", verifsym.Size(2, 6))]
	e := parseExpress(s, f.typ)
	if e != nil {
		e.IsMatch(f.at(f.lo))
		verifsym.Reach("parsed")
	}
}

// VerifC28_AnyStep: any step text after "*/" and after a range.
func VerifC28_AnyStep() {
	s := verifsym.String("step", verifsym.Size(3, 4))
	f := verifFields[verifsym.Choice("field", 2)]
	pre := []string{"*/", "1-4/", "5-2/", "3,1-2/"}[verifsym.Choice("pre", 4)]
	e := parseExpress(pre+s, f.typ)
	if e != nil {
		e.IsMatch(f.at(f.lo))
	}
	verifsym.Reach("terminates")
}

// VerifC28_HugeStep: steps near the integer limits.
func VerifC28_HugeStep() {
	f := verifFields[verifsym.Choice("field", len(verifFields))]
	steps := []string{"9223372036854775807", "-9223372036854775808", "9223372036854775806", "4611686018427387905", "99999999999999999999", "-1", "1000"}
	i := verifsym.Choice("step", len(steps))
	if verifsym.Choice("form", 2) == 0 {
		e := parseExpress("*/"+steps[i], f.typ)
		if e != nil {
			verifSame(f, e, func(x int) bool { return x == f.lo }, "huge step")
		}
		return
	}
	e := parseExpress("5-6/"+steps[i], f.typ)
	if e != nil {
		verifSame(f, e, func(x int) bool { return x == 5 }, "huge step")
	}
}

// VerifC28_Unknown: an unknown field type is no expression.
func VerifC28_Unknown() {
	t := verifsym.String("type", 3)
	verifsym.Assert(parseExpress("*", t) == nil || t == ExpressType_Day, "unknown field type")
	verifsym.Assert(!(&ExpressSet{expressType: t}).IsMatch(time.Unix(0, 0)), "nothing matches")
}

// VerifC28_Time: the field of any time of the day is what decides.
func VerifC28_Time() {
	sec := []int{0, 1, 59, 60, 3599, 3600, 17*3600 + 17*60 + 17, 46799, 86399}[verifsym.Choice("sec", 9)]
	t := time.Unix(1700006400+int64(sec), 0).UTC() // 2023-11-15 00:00:00, a Wednesday
	h, m, s := sec/3600, sec/60%60, sec%60
	k := verifsym.Choice("kind", 3)
	f := verifFields[3+k]
	v := []int{h, m, s}[k]
	q := verifsym.Choice("q", 3)
	qs := []int{f.lo, f.lo + 17, f.hi}[q]
	e := parseExpress(verifItoa(qs), f.typ)
	verifsym.Assert(e.IsMatch(t) == (v == qs), "field of the time")
	for _, x := range []struct {
		typ string
		v   int
	}{{ExpressType_WeekDay, 3}, {ExpressType_Month, 11}, {ExpressType_Day, 15}} {
		verifsym.Assert(parseExpress(verifItoa(x.v), x.typ).IsMatch(t), "date fields")
		verifsym.Assert(!parseExpress(verifItoa(x.v+1), x.typ).IsMatch(t), "other date fields")
	}
}

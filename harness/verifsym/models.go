package verifsym

import (
	"math"
	"strconv"
)

// The functions below replace reflection-heavy standard library code under the engine.
// Natively they are never called.

func f64(b uint64) float64 { return math.Float64frombits(b) }
func f32(b uint32) float32 { return math.Float32frombits(b) }

type wrapErr struct {
	msg string
	err error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error { return e.err }

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

// Errorf models fmt.Errorf (one %w).
func Errorf(format string, a ...interface{}) error {
	s := Sprintf(format, a...)
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			j := i + 1
			for j < len(format) && (format[j] == '+' || format[j] == '#' || format[j] == '.' || format[j] >= '0' && format[j] <= '9') {
				j++
			}
			if j < len(format) && format[j] == '%' {
				i = j
				continue
			}
			if j < len(format) && format[j] == 'w' && n < len(a) {
				if e, ok := a[n].(error); ok {
					return &wrapErr{s, e}
				}
			}
			n++
			i = j
		}
	}
	return &plainErr{s}
}

// fmtInt renders an integer (intrinsic: keeps symbolic values symbolic).
func fmtInt(v int64) string   { return strconv.FormatInt(v, 10) }
func fmtUint(v uint64) string { return strconv.FormatUint(v, 10) }

// opaque renders any other value (intrinsic).
func opaque(v interface{}) string { return "?" }

func str(v interface{}, verb byte) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case error:
		return x.Error()
	case interface{ String() string }:
		return x.String()
	case string:
		if verb == 'q' {
			return strconv.Quote(x)
		}
		return x
	case []byte:
		return string(x)
	case int:
		return fmtInt(int64(x))
	case int8:
		return fmtInt(int64(x))
	case int16:
		return fmtInt(int64(x))
	case int32:
		return fmtInt(int64(x))
	case int64:
		return fmtInt(x)
	case uint:
		return fmtUint(uint64(x))
	case uint8:
		return fmtUint(uint64(x))
	case uint16:
		return fmtUint(uint64(x))
	case uint32:
		return fmtUint(uint64(x))
	case uint64:
		return fmtUint(x)
	case bool:
		if x {
			return "true"
		}
		return "false"
	}
	return opaque(v)
}

// Sprintf models fmt.Sprintf for the verbs the repository uses.
func Sprintf(format string, a ...interface{}) string {
	out := ""
	n := 0
	start := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		out += format[start:i]
		j := i + 1
		for j < len(format) && (format[j] == '+' || format[j] == '#' || format[j] == '-' || format[j] == '.' || format[j] >= '0' && format[j] <= '9') {
			j++
		}
		if j >= len(format) {
			out += "%!(NOVERB)"
			start = j
			break
		}
		if format[j] == '%' {
			out += "%"
		} else if n < len(a) {
			out += str(a[n], format[j])
			n++
		} else {
			out += "%!" + string(format[j]) + "(MISSING)"
		}
		start = j + 1
		i = j
	}
	if start < len(format) {
		out += format[start:]
	}
	return out
}

func Sprint(a ...interface{}) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			_, s1 := a[i-1].(string)
			_, s2 := v.(string)
			if !s1 && !s2 {
				out += " "
			}
		}
		out += str(v, 'v')
	}
	return out
}

func Sprintln(a ...interface{}) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			out += " "
		}
		out += str(v, 'v')
	}
	return out + "\n"
}

// sameComparable is a == b for comparable dynamic types, false otherwise (intrinsic).
func sameComparable(a, b interface{}) bool { return a == b }

// assignTo stores err in *target when its type allows (intrinsic).
func assignTo(err error, target interface{}) bool { return false }

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if sameComparable(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	for {
		if assignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// SortSlice models sort.Slice by insertion sort through an element swapper (intrinsic swap/len).
func sliceLen(x any) int       { return 0 }
func sliceSwap(x any, i, j int) {}

func SortSlice(x any, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

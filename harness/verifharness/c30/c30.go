// Package c30 checks lib/errcode.
package c30

import (
	"errors"

	pkgerrors "github.com/pkg/errors"
	"github.com/pojol/braid/lib/errcode"
	"github.com/pojol/braid/verifsym"
)

// wrap wraps err up to n times, the kind of each layer being arbitrary.
func wrap(err error, n int) error {
	for i := 0; i < n; i++ {
		switch verifsym.Choice("wrap", 4) {
		case 0:
			return err
		case 1:
			err = pkgerrors.WithMessage(err, "ctx")
		case 2:
			err = pkgerrors.Wrap(err, verifsym.String("wmsg", 2))
		case 3:
			err = pkgerrors.WithStack(err)
		}
	}
	return err
}

func VerifC30_New() {
	n := verifsym.Int("code")
	m := verifsym.String("msg", verifsym.Size(3, 6))
	refused := false
	var c errcode.Code
	func() {
		defer func() {
			if recover() != nil {
				refused = true
			}
		}()
		c = errcode.New(n, m)
	}()
	verifsym.Assert(refused == (n <= 0), "business codes are positive")
	if !refused {
		verifsym.Assert(c.Code() == n, "number kept")
		verifsym.Assert(c.Message() == m, "message kept")
		verifsym.Assert(c.Error() == m, "error text")
		verifsym.Reach("created")
	}
	verifsym.Assert(errcode.OK.Code() == 0, "success is zero")
}

func VerifC30_Equal() {
	a, b := verifsym.Int("a"), verifsym.Int("b")
	ca, cb := errcode.Add(a, verifsym.String("ma", 2)), errcode.Add(b, verifsym.String("mb", 2))
	verifsym.Assert(errcode.Equal(ca, cb) == (a == b), "equal exactly when the numbers are")
	verifsym.Assert(errcode.Equal(nil, cb) == (b == 0), "nil means success (left)")
	verifsym.Assert(errcode.Equal(ca, nil) == (a == 0), "nil means success (right)")
	verifsym.Assert(errcode.Equal(nil, nil), "nil equals nil")
	var e error = cb
	verifsym.Assert(ca.Equal(e) == (a == b), "method Equal")
	verifsym.Assert(ca.Equal(nil) == (a == 0), "method Equal with nil")
}

func VerifC30_Wrapped() {
	a, b := verifsym.Int("a"), verifsym.Int("b")
	m := verifsym.String("m", verifsym.Size(2, 4))
	ca := errcode.Add(a, "x")
	e := wrap(errcode.Add(b, m), verifsym.Size(3, 4))
	verifsym.Assert(errcode.EqualError(ca, e) == (a == b), "equal through wrapping")
	c := errcode.Cause(e)
	verifsym.Assert(c.Code() == b, "code through wrapping")
	verifsym.Assert(c.Message() == m, "message through wrapping")
	verifsym.Assert(errcode.Cause(nil).Code() == 0, "nil is success")
	verifsym.Assert(errcode.EqualError(ca, nil) == (a == 0), "nil compares as success")
	verifsym.Reach("compared")
}

func VerifC30_Plain() {
	m := verifsym.String("m", verifsym.Size(3, 6))
	c := errcode.Cause(errors.New(m))
	if m == "" {
		verifsym.Assert(c.Code() == 0, "an empty text is success")
		verifsym.Reach("empty")
	} else {
		verifsym.Assert(c.Code() == -1, "a plain error is unknown")
		verifsym.Assert(c.Message() == m, "text kept")
		verifsym.Reach("plain")
	}
	e := wrap(errors.New(m), verifsym.Size(2, 3))
	w := errcode.Cause(e)
	if e.Error() == "" {
		verifsym.Assert(w.Code() == 0, "a wrapped error without any text is success")
	} else {
		verifsym.Assert(w.Code() == -1, "a wrapped plain error is unknown")
		verifsym.Assert(w.Message() == e.Error(), "the whole text kept")
		verifsym.Reach("wrapped plain")
	}
	s := errcode.String(m)
	verifsym.Assert(s.Code() == c.Code(), "String agrees")
	k := verifsym.Int("k")
	verifsym.Assert(errcode.EqualError(errcode.Add(k, ""), errors.New("e")) == (k == -1), "plain error equals the unknown code only")
	verifsym.Assert(errcode.Unknow().Code() == -1, "unknown")
}

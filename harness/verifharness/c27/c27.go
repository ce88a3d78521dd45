package c27

import (
	"strings"

	"github.com/golang-jwt/jwt"
	"github.com/pojol/braid/lib/token"
	_ "github.com/pojol/braid/verifharness/models/macm"
	"github.com/pojol/braid/verifsym"
)

const serviceKey = "token"

func ascii(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = verifsym.And(ok, s[i] < 0x80)
	}
	verifsym.Assume(ok)
	return s
}

// Every entity id: created and parsed back, an empty one refused.
func VerifC27_RoundTrip() {
	id := ascii(verifsym.String("id", verifsym.Size(6, 16)))
	t, err := token.Create(id)
	if len(id) == 0 {
		verifsym.Assert(err != nil && t == "", "empty id refused")
		verifsym.Reach("empty")
		return
	}
	verifsym.Assert(err == nil, "created")
	got, err := token.Parse(t)
	verifsym.Assert(err == nil && got == id, "parsing gives the id back")
	verifsym.Reach("end")
}

var texts = []string{"\u00e9", "\u65e5\u672c", "\U0001f600", "\u2028", "<&>", "\ufffd", "..", "\x00", strings.Repeat("x", 200), strings.Repeat("\u00e9", 700), strings.Repeat("a.b", 3000)}

// Texts beyond ASCII and long ones: each is proved by its own token only.
//
//verif: steps=20000000
func VerifC27_Texts() {
	id := texts[verifsym.Choice("text", len(texts))]
	t, err := token.Create(id)
	verifsym.Assert(err == nil, "created")
	got, err := token.Parse(t)
	verifsym.Assert(err == nil && got == id, "parsing gives the id back")
	evil, err := jwt.NewWithClaims(jwt.SigningMethodHS256, token.Claims{EntityID: id}).SignedString([]byte("another key"))
	verifsym.Assert(err == nil, "forged")
	got, err = token.Parse(evil)
	verifsym.Assert(err != nil && got == "", "not signed with the service key: refused")
	cut := len(t) - 1 - verifsym.Choice("cut", 3)
	got, err = token.Parse(t[:cut])
	verifsym.Assert(err != nil && got == "", "not the whole token: refused")
	verifsym.Reach("end")
}

// Two tokens used in any order: each one proves its own entity.
func VerifC27_Two() {
	a := ascii(verifsym.StringN("a", 3))
	b := ascii(verifsym.StringN("b", 3))
	ta, ea := token.Create(a)
	tb, eb := token.Create(b)
	verifsym.Assert(ea == nil && eb == nil, "created")
	gb, eb := token.Parse(tb)
	ga, ea := token.Parse(ta)
	ga2, ea2 := token.Parse(ta)
	verifsym.Assert(ea == nil && eb == nil && ea2 == nil, "parsed")
	verifsym.Assert(ga == a && gb == b && ga2 == a, "each proves its own entity")
	verifsym.Reach("end")
}

// Tokens signed by somebody else, with any key and method.
func VerifC27_Forged() {
	if verifsym.Choice("warm", 2) == 1 {
		t, _ := token.Create("warm")
		token.Parse(t)
	}
	id := ascii(verifsym.String("id", 3))
	var m jwt.SigningMethod
	var key interface{}
	k := verifsym.Bytes("key", 6)
	ours := false
	switch verifsym.Choice("method", 4) {
	case 0:
		m, key, ours = jwt.SigningMethodHS256, k, string(k) == serviceKey
	case 1:
		m, key, ours = jwt.SigningMethodHS384, k, string(k) == serviceKey
	case 2:
		m, key, ours = jwt.SigningMethodHS512, k, string(k) == serviceKey
	default:
		m, key = jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType
	}
	var cl jwt.Claims
	switch verifsym.Choice("claims", 3) {
	case 0:
		cl = token.Claims{EntityID: id}
	case 1:
		cl = jwt.MapClaims{"EntityID": id}
	default:
		cl = jwt.MapClaims{"exp": float64(99999999999)}
		id = ""
	}
	t, err := jwt.NewWithClaims(m, cl).SignedString(key)
	verifsym.Assert(err == nil, "forged")
	got, err := token.Parse(t)
	if !ours {
		verifsym.Assert(err != nil && got == "", "not signed with the service key: refused")
		verifsym.Reach("refused")
		return
	}
	if len(id) == 0 {
		verifsym.Assert(err != nil && got == "", "no entity id: refused")
		verifsym.Reach("no id")
		return
	}
	verifsym.Assert(err != nil && got == "" || got == id, "the id it carries")
	verifsym.Reach("ours")
}

// Parts of genuine tokens recombined: only the genuine combinations are accepted.
func VerifC27_Splice() {
	a := ascii(verifsym.StringN("a", 2))
	b := ascii(verifsym.StringN("b", 2))
	ta, _ := token.Create(a)
	tb, _ := token.Create(b)
	pa, pb := strings.Split(ta, "."), strings.Split(tb, ".")
	evil, _ := jwt.NewWithClaims(jwt.SigningMethodNone, token.Claims{EntityID: b}).SignedString(jwt.UnsafeAllowNoneSignatureType)
	pe := strings.Split(evil, ".")
	alg := jwt.EncodeSegment([]byte([]string{`{"alg":"RS256"}`, `{"alg":"ES256"}`, `{"alg":"HS512"}`, `{"typ":"JWT"}`, `{"alg":5}`, `null`, `{"alg":"HS256","typ":"JWT","kid":"x"}`}[verifsym.Choice("alg", 7)]))
	hdr := []string{pa[0], pe[0], alg}[verifsym.Choice("header", 3)]
	sig := []string{pa[2], pb[2], "", "AAAA", pa[2][:4], pa[2] + "A", "!"}[verifsym.Choice("sig", 7)]
	parts := []string{hdr, pb[1], sig}
	switch verifsym.Choice("shape", 6) {
	case 1:
		parts = parts[:2]
	case 2:
		parts = append(parts, sig)
	case 3:
		parts = []string{hdr, "", sig}
	case 4:
		parts = []string{"", pb[1], sig}
	case 5:
		parts = []string{hdr, jwt.EncodeSegment([]byte("null")), sig}
	}
	got, err := token.Parse(strings.Join(parts, "."))
	if err == nil {
		verifsym.Assert(len(parts) == 3 && hdr == pa[0] && (sig == pb[2] || a == b && sig == pa[2]) && got == b, "only what the service signed is accepted")
		verifsym.Reach("genuine")
	} else {
		verifsym.Assert(got == "", "a refused token gives no id")
		verifsym.Reach("refused")
	}
}

package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	"github.com/ThinkiumGroup/go-common/hexutil"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "H01",
		Rule:  "every string up to length 5 over a 14 letter alphabet, random and damaged hex strings and random values through every encoder and decoder; non-trivial when the string is outside the grammar of a decoder",
		Floor: map[string]int64{"strings": 100000, "valid_data": 2000, "valid_number": 2000, "malformed": 50000, "values": 5000, "json": 5000, "wide": 500, "fixed": 5000, "negative": 100}, Run: runH01})
}

const hexDigits = "0123456789abcdefABCDEF"

type hexErr = error

// hexBody: the digits behind the prefix; errs collects every documented reason to refuse the string.
func hexBody(s string) (body string, errs []error) {
	if s == "" {
		return "", []error{hexutil.ErrEmptyString}
	}
	if len(s) < 2 || s[0] != '0' || s[1] != 'x' && s[1] != 'X' {
		return "", []error{hexutil.ErrMissingPrefix}
	}
	return s[2:], nil
}

func badDigits(body string) bool {
	return strings.Trim(body, hexDigits) != "" || !allIn(body, hexDigits)
}

func allIn(s, set string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) < 0 {
			return false
		}
	}
	return true
}

// refData: the bytes of 0x-prefixed data.
func refData(s string) ([]byte, []error) {
	body, errs := hexBody(s)
	if errs != nil {
		return nil, errs
	}
	if len(body)%2 != 0 {
		errs = append(errs, hexutil.ErrOddLength)
	}
	if badDigits(body) {
		errs = append(errs, hexutil.ErrSyntax)
	}
	if errs != nil {
		return nil, errs
	}
	out := make([]byte, 0, len(body)/2)
	for i := 0; i < len(body); i += 2 {
		out = append(out, nib(body[i])<<4|nib(body[i+1]))
	}
	return out, nil
}

func nib(c byte) byte {
	i := strings.IndexByte(hexDigits, c)
	if i >= 16 {
		i -= 6
	}
	return byte(i)
}

// refNumber: the quantity of a 0x-prefixed string of at most digits hex digits.
func refNumber(s string, digits int, rng error) (*big.Int, []error) {
	body, errs := hexBody(s)
	if errs != nil {
		return nil, errs
	}
	if body == "" {
		return nil, []error{hexutil.ErrEmptyNumber}
	}
	if len(body) > 1 && body[0] == '0' {
		errs = append(errs, hexutil.ErrLeadingZero)
	}
	if len(body) > digits {
		errs = append(errs, rng)
	}
	if badDigits(body) {
		errs = append(errs, hexutil.ErrSyntax)
	}
	if errs != nil {
		return nil, errs
	}
	n := new(big.Int)
	for i := 0; i < len(body); i++ {
		n.Mul(n, big.NewInt(16))
		n.Add(n, big.NewInt(int64(nib(body[i]))))
	}
	return n, nil
}

// hexErrOK: the error is one of the documented reasons that apply.
func hexErrOK(err error, want []error) bool {
	if len(want) == 0 {
		return err == nil
	}
	for _, w := range want {
		if err == w || err != nil && err.Error() == w.Error() {
			return true
		}
	}
	return false
}

// jsonErrOK: an UnmarshalTypeError that carries one of the reasons.
func jsonErrOK(err error, want []error) bool {
	if len(want) == 0 {
		return err == nil
	}
	te, ok := err.(*json.UnmarshalTypeError)
	if !ok {
		return false
	}
	for _, w := range want {
		if te.Value == w.Error() {
			return true
		}
	}
	return false
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func hexString(c *mon.Ctx, s string) {
	c.Count("strings", 1)
	data, derrs := refData(s)
	u, uerrs := refNumber(s, 16, hexutil.ErrUint64Range)
	n, nerrs := refNumber(s, 64, hexutil.ErrBig256Range)
	bad := derrs != nil || uerrs != nil || nerrs != nil
	c.Case(bad, s)
	if derrs == nil {
		c.Count("valid_data", 1)
	}
	if nerrs == nil {
		c.Count("valid_number", 1)
	}
	if derrs != nil && nerrs != nil {
		c.Count("malformed", 1)
	}
	c.Guard(fmt.Sprintf("decoding %q", s), func() {
		q := trim1(fmt.Sprintf("%q", s))
		if got, err := hexutil.Decode(s); !hexErrOK(err, derrs) || err == nil && !bytes.Equal(got, data) {
			c.Violate("decode", "Decode(%s) = %x, %v, want %x, %v", q, got, err, data, derrs)
		}
		if got, err := hexutil.DecodeUint64(s); !hexErrOK(err, uerrs) || err == nil && got != u.Uint64() {
			c.Violate("decode-uint64", "DecodeUint64(%s) = %x, %v, want %x, %v", q, got, err, u, uerrs)
		}
		if got, err := hexutil.DecodeBig(s); !hexErrOK(err, nerrs) || err == nil && got.Cmp(n) != 0 {
			c.Violate("decode-big", "DecodeBig(%s) = %x, %v, want %x, %v", q, got, err, n, nerrs)
		}
		if p := panics(func() { hexutil.MustDecode(s) }); p != (derrs != nil) {
			c.Violate("must-decode", "MustDecode(%s): panic %v, want %v", q, p, derrs)
		}
		if p := panics(func() { hexutil.MustDecodeUint64(s) }); p != (uerrs != nil) {
			c.Violate("must-decode-uint64", "MustDecodeUint64(%s): panic %v, want %v", q, p, uerrs)
		}
		if p := panics(func() { hexutil.MustDecodeBig(s) }); p != (nerrs != nil) {
			c.Violate("must-decode-big", "MustDecodeBig(%s): panic %v, want %v", q, p, nerrs)
		}
		// text and JSON forms: the empty string stands for the zero value
		if s == "" {
			data, u, n = []byte{}, new(big.Int), new(big.Int)
			derrs, uerrs, nerrs = nil, nil, nil
		}
		werrs := uerrs
		if len(uerrs) > 0 {
			werrs = append(append([]error{}, uerrs...), hexutil.ErrUintRange)
		}
		quoted := `"` + s + `"`
		for form := 0; form < 2; form++ {
			ok, in, what := hexErrOK, []byte(s), "text"
			if form == 1 {
				ok, in, what = jsonErrOK, []byte(quoted), "json"
			}
			keep := append([]byte{}, in...)
			un := func(t interface {
				UnmarshalText([]byte) error
				UnmarshalJSON([]byte) error
			}) error {
				if form == 1 {
					return t.UnmarshalJSON(in)
				}
				return t.UnmarshalText(in)
			}
			b := hexutil.Bytes("old")
			if err := un(&b); !ok(err, derrs) || err == nil && (b == nil || !bytes.Equal(b, data)) || err != nil && string(b) != "old" {
				c.Violate(what+"-bytes", "Bytes %s %s: %x, %v, want %x, %v", what, q, []byte(b), err, data, derrs)
			}
			v := hexutil.Uint64(77)
			if err := un(&v); !ok(err, uerrs) || err == nil && uint64(v) != u.Uint64() || err != nil && v != 77 {
				c.Violate(what+"-uint64", "Uint64 %s %s: %x, %v, want %x, %v", what, q, uint64(v), err, u, uerrs)
			}
			w := hexutil.Uint(77)
			if err := un(&w); !ok(err, werrs) || err == nil && uint64(w) != u.Uint64() || err != nil && w != 77 {
				c.Violate(what+"-uint", "Uint %s %s: %x, %v, want %x, %v", what, q, uint64(w), err, u, werrs)
			}
			g := hexutil.Big(*big.NewInt(77))
			if err := un(&g); !ok(err, nerrs) || err == nil && g.ToInt().Cmp(n) != 0 || err != nil && g.ToInt().Int64() != 77 {
				c.Violate(what+"-big", "Big %s %s: %x, %v, want %x, %v", what, q, g.ToInt(), err, n, nerrs)
			}
			if !bytes.Equal(in, keep) {
				c.Violate(what+"-input", "decoding %s %s changed the input", what, q)
			}
		}
	})
}

// hexFixed decodes into buffers of a fixed length.
func hexFixed(c *mon.Ctx, s string, size int) {
	typ := reflect.TypeOf([3]byte{})
	for form := 0; form < 3; form++ {
		in := s
		if form == 2 && !strings.HasPrefix(s, "0x") && !strings.HasPrefix(s, "0X") && s != "" {
			in = "0x" + s // the prefix is optional
		}
		want, errs := refData(in)
		if s == "" {
			want, errs = []byte{}, nil
		}
		okWant := errs == nil && len(want) == size
		out := bytes.Repeat([]byte{0xC3}, size)
		var err error
		c.Count("fixed", 1)
		c.Guard(fmt.Sprintf("fixed %q into %d bytes", s, size), func() {
			switch form {
			case 0:
				err = hexutil.UnmarshalFixedText("T", []byte(s), out)
			case 1:
				err = hexutil.UnmarshalFixedJSON(typ, []byte(`"`+s+`"`), out)
			default:
				err = hexutil.UnmarshalFixedUnprefixedText("T", []byte(s), out)
			}
			if (err == nil) != okWant || err == nil && !bytes.Equal(out, want) || err != nil && !bytes.Equal(out, bytes.Repeat([]byte{0xC3}, size)) {
				c.Violate("fixed", "form %d of %q into %d bytes: %x, %v, want %x (%v)", form, s, size, out, err, want, okWant)
			}
		})
	}
}

func runH01(c *mon.Ctx) {
	c.Section("exhaustive", func(r0 *rand.Rand) {
		al := "01aFfgxX-+_ .\x00"
		max := 5
		if c.Thorough() {
			al, max = "0189aFfgGxX-+_ .\x00\xff", 6
		}
		total, pow := 0, 1
		for l := 0; l <= max; l++ {
			total += pow
			pow *= len(al)
		}
		c.Cases("short", total, func(i int, r *rand.Rand) {
			l, p := 0, 1
			for i >= p {
				i -= p
				p *= len(al)
				l++
			}
			b := make([]byte, l)
			for k := range b {
				b[k] = al[i%len(al)]
				i /= len(al)
			}
			hexString(c, string(b))
			if l >= 3 { // everything of that length behind the prefix, too
				hexString(c, "0x"+string(b))
				hexFixed(c, "0x"+string(b), (l+r.Intn(2))/2)
				hexFixed(c, string(b), r.Intn(4))
			}
		})
	})
	c.Section("random", func(r0 *rand.Rand) {
		c.Cases("strings", c.N2(40000, 1500000), func(_ int, r *rand.Rand) {
			n := r.Intn(12)
			switch r.Intn(6) {
			case 0:
				n = 15 + r.Intn(4)
			case 1:
				n = 62 + r.Intn(5)
			case 2:
				n = r.Intn(200)
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = hexDigits[r.Intn(len(hexDigits))]
			}
			s := "0x" + string(b)
			if r.Intn(2) == 0 {
				s = "0x" + strings.TrimLeft(string(b), "0")
			}
			if r.Intn(3) == 0 {
				s = mutStr(r, s, "0xX-+_ gG\x00\xff\u00e9"+hexDigits)
			}
			hexString(c, s)
			hexFixed(c, s, (len(s)+1)/2-r.Intn(2)*len(s)/8)
			if strings.HasPrefix(s, "0x") {
				hexFixed(c, s[2:], (len(s)-1)/2)
			}
		})
	})
	c.Section("values", func(r0 *rand.Rand) {
		c.Cases("values", c.N2(10000, 300000), func(i int, r *rand.Rand) { hexValue(c, i, r) })
	})
	c.Section("json", func(r0 *rand.Rand) {
		c.Cases("non-strings", 2000, func(_ int, r *rand.Rand) {
			in := []string{"", `"`, "1", "null", "0x1", "{}", "[]", `"0x1`, `0x1"`, "true", `'0x1'`}[r.Intn(11)]
			if r.Intn(3) == 0 {
				in = fmt.Sprint(r.Intn(1000))
			}
			c.Guard("UnmarshalJSON "+in, func() {
				b, u, w, g := hexutil.Bytes("old"), hexutil.Uint64(77), hexutil.Uint(77), hexutil.Big(*big.NewInt(77))
				for i, err := range []error{b.UnmarshalJSON([]byte(in)), u.UnmarshalJSON([]byte(in)), w.UnmarshalJSON([]byte(in)), g.UnmarshalJSON([]byte(in)), hexutil.UnmarshalFixedJSON(reflect.TypeOf(b), []byte(in), nil)} {
					if te, ok := err.(*json.UnmarshalTypeError); !ok || te.Value != "non-string" {
						c.Violate("non-string", "UnmarshalJSON(%q) of type %d: %v", in, i, err)
					}
				}
				if string(b) != "old" || u != 77 || w != 77 || g.ToInt().Int64() != 77 {
					c.Violate("non-string-changes", "a refused %q changed the destination", in)
				}
			})
		})
	})
}

type hexDoc struct {
	B  hexutil.Bytes
	U  hexutil.Uint64
	W  hexutil.Uint
	G  *hexutil.Big
	Bs []hexutil.Bytes
	M  map[hexutil.Uint64]hexutil.Uint
}

// refQuantity and refEncode print the canonical forms.
func refQuantity(n *big.Int) string {
	if n.Sign() == 0 {
		return "0x0"
	}
	var s []byte
	for m := new(big.Int).Set(n); m.Sign() > 0; m.Rsh(m, 4) {
		s = append(s, hexDigits[new(big.Int).And(m, big.NewInt(15)).Int64()])
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return "0x" + string(s)
}

func refEncode(b []byte) string {
	s := []byte("0x")
	for _, x := range b {
		s = append(s, hexDigits[x>>4], hexDigits[x&15])
	}
	return string(s)
}

func hexValue(c *mon.Ctx, i int, r *rand.Rand) {
	b := make([]byte, r.Intn(70))
	r.Read(b)
	u := r.Uint64() >> r.Intn(64)
	switch r.Intn(10) {
	case 0:
		u = 0
	case 1:
		u = 1<<uint(r.Intn(64)) - 1
	case 2:
		u = ^uint64(0)
	}
	bits := i % 300
	n := new(big.Int)
	if bits > 0 {
		n.Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
		n.SetBit(n, bits-1, 1)
		if r.Intn(4) == 0 {
			n.Lsh(big.NewInt(1), uint(bits-1))
		}
	}
	c.Count("values", 1)
	c.Case(true, refEncode(b)+refQuantity(n))
	c.Guard(fmt.Sprintf("encoding %x, %x, %x", b, u, n), func() {
		keepN, keepB := new(big.Int).Set(n), append([]byte{}, b...)
		bu := new(big.Int).SetUint64(u)
		exp := func(what, got, want string) {
			if got != want {
				c.Violate("encode-"+what, "%s of %x, %x, %x: %q, want %q", what, b, u, n, got, want)
			}
		}
		text := func(t interface{ MarshalText() ([]byte, error) }) string {
			x, err := t.MarshalText()
			if err != nil {
				return "error: " + err.Error()
			}
			return string(x)
		}
		exp("Encode", hexutil.Encode(b), refEncode(b))
		exp("Bytes.String", hexutil.Bytes(b).String(), refEncode(b))
		exp("Bytes.MarshalText", text(hexutil.Bytes(b)), refEncode(b))
		exp("EncodeUint64", hexutil.EncodeUint64(u), refQuantity(bu))
		exp("Uint64.String", hexutil.Uint64(u).String(), refQuantity(bu))
		exp("Uint64.MarshalText", text(hexutil.Uint64(u)), refQuantity(bu))
		exp("Uint.String", hexutil.Uint(u).String(), refQuantity(bu))
		exp("Uint.MarshalText", text(hexutil.Uint(u)), refQuantity(bu))
		exp("EncodeBig", hexutil.EncodeBig(n), refQuantity(n))
		exp("Big.String", (*hexutil.Big)(n).String(), refQuantity(n))
		exp("Big.MarshalText", text((*hexutil.Big)(n)), refQuantity(n))
		if n.Cmp(keepN) != 0 || !bytes.Equal(b, keepB) {
			c.Violate("encode-changes", "encoding changed its argument")
		}
		d := hexDoc{B: b, U: hexutil.Uint64(u), W: hexutil.Uint(u), G: (*hexutil.Big)(n), Bs: []hexutil.Bytes{b, {}}, M: map[hexutil.Uint64]hexutil.Uint{hexutil.Uint64(u): 3}}
		js, err := json.Marshal(d)
		if err != nil {
			c.Violate("json-marshal", "json.Marshal of %x, %x, %x: %v", b, u, n, err)
			return
		}
		c.Count("json", 1)
		if want := fmt.Sprintf(`{"B":"%s","U":"%s","W":"%s","G":"%s","Bs":["%s","0x"],"M":{"%s":"0x3"}}`, refEncode(b), refQuantity(bu), refQuantity(bu), refQuantity(n), refEncode(b), refQuantity(bu)); string(js) != want {
			c.Violate("json-marshal", "json.Marshal: %s, want %s", js, want)
		}
		var e hexDoc
		err = json.Unmarshal(js, &e)
		if bits > 256 {
			c.Count("wide", 1)
			if err == nil {
				c.Violate("json-wide", "json.Unmarshal accepts %d bits: %s", bits, js)
			}
			return
		}
		if err != nil || !bytes.Equal(e.B, b) || uint64(e.U) != u || uint64(e.W) != u || e.G.ToInt().Cmp(n) != 0 || len(e.Bs) != 2 || !bytes.Equal(e.Bs[0], b) || e.Bs[1] == nil || e.M[hexutil.Uint64(u)] != 3 {
			c.Violate("json-unmarshal", "json.Unmarshal of %s: %+v, %v", js, e, err)
		}
		if n.Sign() > 0 {
			c.Count("negative", 1)
			neg := new(big.Int).Neg(n)
			if x, err := (*hexutil.Big)(neg).MarshalText(); err == nil {
				c.Violate("negative", "Big.MarshalText of the negative %v: %q, documented as an error", neg, x)
			}
		}
	})
}

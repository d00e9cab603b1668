// Package rlpx is an independent reference for RLP: an item tree with a strict canonical parser, and an
// encoder and a decoder for Go types written from the documented rules only (doc.go of the rlp package
// and the RLP specification). It also makes random types and values.
package rlpx

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/holiman/uint256"
)

// ---------- items ----------

type Item struct {
	List  bool
	Str   []byte
	Items []Item
}

func S(b []byte) Item   { return Item{Str: b} }
func L(it ...Item) Item { return Item{List: true, Items: it} }
func U(u uint64) Item   { return S(new(big.Int).SetUint64(u).Bytes()) }
func (it Item) N() int {
	n := 1
	for _, x := range it.Items {
		n += x.N()
	}
	return n
}

func head(short byte, n int) []byte {
	if n <= 55 {
		return []byte{short + byte(n)}
	}
	lb := big.NewInt(int64(n)).Bytes()
	return append([]byte{short + 55 + byte(len(lb))}, lb...)
}

// Enc is the specification's encoding of an item.
func Enc(it Item) []byte {
	if !it.List {
		if len(it.Str) == 1 && it.Str[0] < 0x80 {
			return []byte{it.Str[0]}
		}
		return append(head(0x80, len(it.Str)), it.Str...)
	}
	var body []byte
	for _, x := range it.Items {
		body = append(body, Enc(x)...)
	}
	return append(head(0xC0, len(body)), body...)
}

var ErrBad = errors.New("reference: not canonical RLP")

// Head parses the header of the first item of b: whether it is a list, where its content starts, and
// where the item ends. It demands the shortest possible header and that the item lies within b.
func Head(b []byte) (list bool, start, end int, err error) {
	if len(b) == 0 {
		return false, 0, 0, ErrBad
	}
	t := b[0]
	switch {
	case t < 0x80:
		return false, 0, 1, nil
	case t <= 0xB7, t >= 0xC0 && t <= 0xF7:
		list = t >= 0xC0
		n := int(t & 0x3f)
		if 1+n > len(b) {
			return false, 0, 0, ErrBad
		}
		if !list && n == 1 && b[1] < 0x80 {
			return false, 0, 0, ErrBad
		}
		return list, 1, 1 + n, nil
	}
	list = t >= 0xC0
	ln := int(t) - 0xB7
	if list {
		ln = int(t) - 0xF7
	}
	if 1+ln > len(b) || b[1] == 0 {
		return false, 0, 0, ErrBad
	}
	n := new(big.Int).SetBytes(b[1 : 1+ln])
	if n.Cmp(big.NewInt(56)) < 0 || n.Cmp(big.NewInt(int64(len(b)-1-ln))) > 0 {
		return false, 0, 0, ErrBad
	}
	return list, 1 + ln, 1 + ln + int(n.Int64()), nil
}

// Parse reads one item, everything inside it canonical.
func Parse(b []byte) (it Item, rest []byte, err error) {
	list, s, e, err := Head(b)
	if err != nil {
		return it, b, err
	}
	if !list {
		return Item{Str: b[s:e]}, b[e:], nil
	}
	its, err := ParseAll(b[s:e])
	if err != nil {
		return it, b, err
	}
	return Item{List: true, Items: its}, b[e:], nil
}

func ParseAll(b []byte) (its []Item, err error) {
	for len(b) > 0 {
		x, rest, err := Parse(b)
		if err != nil {
			return nil, err
		}
		its = append(its, x)
		b = rest
	}
	return its, nil
}

// ---------- declared types ----------

type (
	MyBytes  []byte
	MyUint   uint32
	MyStr    string
	MyBool   bool
	MyArr    [4]byte
	MySlice  []uint16
	MyByte   byte
	MyByteSl []MyByte
)

// Cust is coded by hand the way generated code is.
type Cust struct {
	A uint64
	B []byte
}

func (c Cust) EncodeRLP(w io.Writer) error {
	b := rlp.NewEncoderBuffer(w)
	l := b.List()
	b.WriteUint64(c.A)
	b.WriteBytes(c.B)
	b.ListEnd(l)
	return b.Flush()
}

func (c *Cust) DecodeRLP(s *rlp.Stream) error {
	if _, err := s.List(); err != nil {
		return err
	}
	a, err := s.Uint64()
	if err != nil {
		return err
	}
	b, err := s.Bytes()
	if err != nil {
		return err
	}
	if err := s.ListEnd(); err != nil {
		return err
	}
	*c = Cust{a, b}
	return nil
}

// PCust has pointer-receiver methods on a non-struct: four fixed bytes.
type PCust uint32

func (c *PCust) EncodeRLP(w io.Writer) error {
	return rlp.Encode(w, []byte{byte(*c >> 24), byte(*c >> 16), byte(*c >> 8), byte(*c)})
}

func (c *PCust) DecodeRLP(s *rlp.Stream) error {
	var b [4]byte
	if err := s.ReadBytes(b[:]); err != nil {
		return err
	}
	*c = PCust(b[0])<<24 | PCust(b[1])<<16 | PCust(b[2])<<8 | PCust(b[3])
	return nil
}

// NCust nests other coders: [[X...], Y] through Encode and Stream.Decode.
type NCust struct {
	X []uint32
	Y *Cust
}

func (c *NCust) EncodeRLP(w io.Writer) error {
	return rlp.Encode(w, []interface{}{c.X, c.Y})
}

func (c *NCust) DecodeRLP(s *rlp.Stream) error {
	var v struct {
		X []uint32
		Y *Cust
	}
	if err := s.Decode(&v); err != nil {
		return err
	}
	c.X, c.Y = v.X, v.Y
	return nil
}

// Rec is recursive with nil tags.
type Rec struct {
	V    uint16
	Next *Rec `rlp:"nil"`
	Kids []*Rec
}

type Tree struct {
	Subs []Tree
	Name string
}

type Mixed struct {
	A      uint64
	hidden int
	B      string `rlp:"-"`
	C      *big.Int
	D      [3]byte
	E      *[20]byte `rlp:"nil"`
	F      *MyStr    `rlp:"nilList"`
	G      []Cust
	H      interface{}
	I      []uint8 `rlp:"optional"`
	J      *Cust   `rlp:"optional"`
	K      []Cust  `rlp:"tail"`
}

var _ = Mixed{}.hidden

var (
	tBig   = reflect.TypeOf(big.Int{})
	tU256  = reflect.TypeOf(uint256.Int{})
	tRaw   = reflect.TypeOf(rlp.RawValue{})
	tCust  = reflect.TypeOf(Cust{})
	tPCust = reflect.TypeOf(PCust(0))
	tNCust = reflect.TypeOf(NCust{})
	tIface = reflect.TypeOf((*interface{})(nil)).Elem()
	tIfSl  = reflect.TypeOf([]interface{}{})
	tBytes = reflect.TypeOf([]byte{})
)

// ---------- reference coder ----------

type tags struct {
	nilOK, opt, tail, ignore bool
	nilList                  bool
}

func parseTags(f reflect.StructField) (t tags) {
	for _, s := range strings.Split(f.Tag.Get("rlp"), ",") {
		switch strings.TrimSpace(s) {
		case "-":
			t.ignore = true
		case "nil":
			t.nilOK, t.nilList = true, !emptyIsString(f.Type.Elem())
		case "nilString":
			t.nilOK = true
		case "nilList":
			t.nilOK, t.nilList = true, true
		case "optional":
			t.opt = true
		case "tail":
			t.tail = true
		}
	}
	if f.PkgPath != "" {
		t.ignore = true
	}
	return
}

func isUint(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }

// emptyIsString: whether a nil pointer to t stands for an empty string.
func emptyIsString(t reflect.Type) bool {
	k := t.Kind()
	return isUint(k) || k == reflect.String || k == reflect.Bool ||
		(k == reflect.Slice || k == reflect.Array) && t.Elem().Kind() == reflect.Uint8
}

func byteSeq(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() == reflect.Uint8
}

// raw items: RawValue content is emitted as it is, so encoding works on byte strings.
func listOf(parts [][]byte) []byte {
	body := bytes.Join(parts, nil)
	return append(head(0xC0, len(body)), body...)
}

func bytesOf(v reflect.Value) []byte {
	b := make([]byte, v.Len())
	for i := range b {
		b[i] = byte(v.Index(i).Uint())
	}
	return b
}

// Encode gives the documented encoding of v.
func Encode(v reflect.Value) []byte { return encode(v, tags{}) }

func encode(v reflect.Value, tg tags) []byte {
	t := v.Type()
	switch t {
	case tRaw:
		return bytesOf(v)
	case tBig:
		b := v.Interface().(big.Int)
		return Enc(S(b.Bytes()))
	case tU256:
		u := v.Interface().(uint256.Int)
		return Enc(S(u.ToBig().Bytes()))
	case tCust:
		c := v.Interface().(Cust)
		return Enc(L(U(c.A), S(c.B)))
	case tPCust:
		u := v.Uint()
		return Enc(S([]byte{byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}))
	case tNCust:
		c := v.Interface().(NCust)
		var xs []Item
		for _, x := range c.X {
			xs = append(xs, U(uint64(x)))
		}
		if c.Y == nil {
			return Enc(L(L(xs...), L()))
		}
		return Enc(L(L(xs...), L(U(c.Y.A), S(c.Y.B))))
	}
	switch k := t.Kind(); {
	case k == reflect.Bool:
		if v.Bool() {
			return []byte{1}
		}
		return []byte{0x80}
	case isUint(k):
		return Enc(U(v.Uint()))
	case k == reflect.String:
		return Enc(S([]byte(v.String())))
	case byteSeq(t):
		return Enc(S(bytesOf(v)))
	case k == reflect.Slice || k == reflect.Array:
		var ps [][]byte
		for i := 0; i < v.Len(); i++ {
			ps = append(ps, encode(v.Index(i), tags{}))
		}
		if tg.tail {
			return bytes.Join(ps, nil)
		}
		return listOf(ps)
	case k == reflect.Ptr:
		if v.IsNil() {
			str := emptyIsString(t.Elem()) || t.Elem() == tBig || t.Elem() == tU256
			if tg.nilOK && t.Elem() != tBig && t.Elem() != tU256 {
				str = !tg.nilList
			}
			if str {
				return []byte{0x80}
			}
			return []byte{0xC0}
		}
		return encode(v.Elem(), tags{})
	case k == reflect.Interface:
		if v.IsNil() {
			return []byte{0xC0}
		}
		return encode(v.Elem(), tags{})
	case k == reflect.Struct:
		type fl struct {
			v  reflect.Value
			tg tags
		}
		var fs []fl
		for i := 0; i < t.NumField(); i++ {
			if ft := parseTags(t.Field(i)); !ft.ignore {
				fs = append(fs, fl{v.Field(i), ft})
			}
		}
		n := 0 // fields to write: up to the last non-zero optional one
		anyOpt := false
		for i, f := range fs {
			anyOpt = anyOpt || f.tg.opt
			if !anyOpt || !f.v.IsZero() {
				n = i + 1
			}
			if !anyOpt {
				n = i + 1
			}
		}
		var ps [][]byte
		for _, f := range fs[:n] {
			ps = append(ps, encode(f.v, f.tg))
		}
		return listOf(ps)
	}
	panic(fmt.Sprintf("reference encoder: type %v", t))
}

// Decode gives the documented decoding of all of b as a t.
func Decode(t reflect.Type, b []byte) (reflect.Value, error) {
	v, rest, err := decode(t, tags{}, b)
	if err == nil && len(rest) != 0 {
		err = ErrBad
	}
	return v, err
}

func str(b []byte) (s, rest []byte, err error) {
	list, st, e, err := Head(b)
	if err == nil && list {
		err = ErrBad
	}
	if err != nil {
		return nil, b, err
	}
	return b[st:e], b[e:], nil
}

func uintOf(b []byte, bits int) (uint64, []byte, error) {
	s, rest, err := str(b)
	if err != nil {
		return 0, b, err
	}
	if len(s)*8 > bits || len(s) > 0 && s[0] == 0 {
		return 0, b, ErrBad
	}
	return new(big.Int).SetBytes(s).Uint64(), rest, nil
}

func decode(t reflect.Type, tg tags, b []byte) (v reflect.Value, rest []byte, err error) {
	v = reflect.New(t).Elem()
	fail := func() (reflect.Value, []byte, error) { return v, b, ErrBad }
	switch t {
	case tRaw:
		// the content of a raw value is not examined
		list, st, e, err := Head(b)
		if err != nil && len(b) >= 2 && b[0] == 0x81 && b[1] < 0x80 {
			list, st, e, err = false, 1, 2, nil
		}
		_, _ = list, st
		if err != nil {
			return fail()
		}
		v.SetBytes(append([]byte{}, b[:e]...))
		return v, b[e:], nil
	case tBig, tU256:
		s, rest, err := str(b)
		if err != nil || len(s) > 0 && s[0] == 0 || t == tU256 && len(s) > 32 {
			return fail()
		}
		x := new(big.Int).SetBytes(s)
		if t == tBig {
			v.Set(reflect.ValueOf(*x))
		} else {
			u, _ := uint256.FromBig(x)
			v.Set(reflect.ValueOf(*u))
		}
		return v, rest, nil
	case tCust:
		list, st, e, err := Head(b)
		if err != nil || !list {
			return fail()
		}
		a, r1, err := uintOf(b[st:e], 64)
		if err != nil {
			return fail()
		}
		s, r2, err := str(r1)
		if err != nil || len(r2) != 0 {
			return fail()
		}
		v.Set(reflect.ValueOf(Cust{a, append([]byte{}, s...)}))
		return v, b[e:], nil
	case tPCust:
		s, rest, err := str(b)
		if err != nil || len(s) != 4 {
			return fail()
		}
		v.SetUint(new(big.Int).SetBytes(s).Uint64())
		return v, rest, nil
	case tNCust:
		x, rest, err := decode(reflect.TypeOf(struct {
			X []uint32
			Y *Cust
		}{}), tags{}, b)
		if err != nil {
			return fail()
		}
		v.Set(reflect.ValueOf(NCust{x.Field(0).Interface().([]uint32), x.Field(1).Interface().(*Cust)}))
		return v, rest, nil
	}
	switch k := t.Kind(); {
	case k == reflect.Bool:
		u, rest, err := uintOf(b, 8)
		if err != nil || u > 1 {
			return fail()
		}
		v.SetBool(u == 1)
		return v, rest, nil
	case isUint(k):
		u, rest, err := uintOf(b, t.Bits())
		if err != nil {
			return fail()
		}
		v.SetUint(u)
		return v, rest, nil
	case k == reflect.String:
		s, rest, err := str(b)
		if err != nil {
			return fail()
		}
		v.SetString(string(s))
		return v, rest, nil
	case byteSeq(t):
		s, rest, err := str(b)
		if err != nil || k == reflect.Array && len(s) != t.Len() {
			return fail()
		}
		if k == reflect.Slice {
			v.Set(reflect.MakeSlice(t, len(s), len(s)))
		}
		for i := range s {
			v.Index(i).SetUint(uint64(s[i]))
		}
		return v, rest, nil
	case k == reflect.Slice || k == reflect.Array:
		body, rest := b, []byte(nil)
		if !tg.tail {
			list, st, e, err := Head(b)
			if err != nil || !list {
				return fail()
			}
			body, rest = b[st:e], b[e:]
		}
		if k == reflect.Slice {
			v.Set(reflect.MakeSlice(t, 0, 0))
		}
		i := 0
		for ; len(body) > 0; i++ {
			x, r, err := decode(t.Elem(), tags{}, body)
			if err != nil || k == reflect.Array && i >= t.Len() {
				return fail()
			}
			if k == reflect.Slice {
				v.Set(reflect.Append(v, x))
			} else {
				v.Index(i).Set(x)
			}
			body = r
		}
		if k == reflect.Array && i != t.Len() {
			return fail()
		}
		return v, rest, nil
	case k == reflect.Ptr:
		if tg.nilOK && t.Elem() != tBig && t.Elem() != tU256 {
			list, st, e, err := Head(b)
			if err != nil && !(t.Elem() == tRaw && len(b) >= 2 && b[0] == 0x81 && b[1] < 0x80) {
				return fail()
			}
			if err == nil && st == e {
				if list != tg.nilList {
					return fail()
				}
				return v, b[e:], nil
			}
		}
		x, rest, err := decode(t.Elem(), tags{}, b)
		if err != nil {
			return fail()
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(x)
		v.Set(p)
		return v, rest, nil
	case k == reflect.Interface:
		list, _, _, err := Head(b)
		if err != nil {
			return fail()
		}
		et := tBytes
		if list {
			et = tIfSl
		}
		x, rest, err := decode(et, tags{}, b)
		if err != nil {
			return fail()
		}
		v.Set(x)
		return v, rest, nil
	case k == reflect.Struct:
		list, st, e, err := Head(b)
		if err != nil || !list {
			return fail()
		}
		body := b[st:e]
		for i := 0; i < t.NumField(); i++ {
			ft := parseTags(t.Field(i))
			if ft.ignore {
				continue
			}
			if len(body) == 0 && ft.opt {
				break // this and all later fields stay zero
			}
			if len(body) == 0 && !ft.tail {
				return fail()
			}
			x, r, err := decode(t.Field(i).Type, ft, body)
			if err != nil {
				return fail()
			}
			v.Field(i).Set(x)
			body = r
		}
		if len(body) != 0 {
			return fail()
		}
		return v, b[e:], nil
	}
	panic(fmt.Sprintf("reference decoder: type %v", t))
}

// Equal compares values, taking nil and empty slices as equal and comparing big integers by value.
func Equal(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.Type() == tBig {
		x, y := a.Interface().(big.Int), b.Interface().(big.Int)
		return x.Cmp(&y) == 0
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return Equal(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !Equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" || parseTags(a.Type().Field(i)).ignore {
				continue
			}
			if !Equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	}
	return a.Uint() == b.Uint()
}

// HasOptional tells whether t contains optional fields (their explicit zero has two encodings).
func HasOptional(t reflect.Type) bool { return hasTag(t, "optional", map[reflect.Type]bool{}) }

func hasTag(t reflect.Type, tag string, seen map[reflect.Type]bool) bool {
	if seen[t] || t == tBig || t == tU256 {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasTag(t.Elem(), tag, seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if strings.Contains(t.Field(i).Tag.Get("rlp"), tag) || hasTag(t.Field(i).Type, tag, seen) {
				return true
			}
		}
	}
	return false
}

// ---------- generators ----------

var leaves = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)),
	reflect.TypeOf(uint64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(""),
	tBytes, reflect.TypeOf([0]byte{}), reflect.TypeOf([1]byte{}), reflect.TypeOf([2]byte{}), reflect.TypeOf([20]byte{}),
	reflect.TypeOf([32]byte{}), reflect.TypeOf([55]byte{}), reflect.TypeOf([56]byte{}), reflect.TypeOf([300]byte{}),
	tBig, reflect.PtrTo(tBig), tU256, reflect.PtrTo(tU256), tRaw, tIface,
	reflect.TypeOf(MyBytes{}), reflect.TypeOf(MyUint(0)), reflect.TypeOf(MyStr("")), reflect.TypeOf(MyBool(false)),
	reflect.TypeOf(MyArr{}), reflect.TypeOf(MySlice{}), reflect.TypeOf(MyByteSl{}), reflect.TypeOf([3]MyByte{}),
	tCust, reflect.PtrTo(tCust), tPCust, tNCust, reflect.TypeOf(Rec{}), reflect.TypeOf(Tree{}), reflect.TypeOf(Mixed{}),
}

// Leaves lists the basic and declared types.
func Leaves() []reflect.Type { return append([]reflect.Type{}, leaves...) }

// RandType makes a random supported type.
func RandType(r *rand.Rand, depth int) reflect.Type {
	if depth <= 0 || r.Intn(4) == 0 {
		return leaves[r.Intn(len(leaves))]
	}
	switch r.Intn(6) {
	case 0:
		return reflect.SliceOf(RandType(r, depth-1))
	case 1:
		return reflect.ArrayOf(r.Intn(4), RandType(r, depth-1))
	case 2:
		return reflect.PtrTo(RandType(r, depth-1))
	}
	n := r.Intn(6)
	var fs []reflect.StructField
	opt := -1
	if r.Intn(3) == 0 {
		opt = r.Intn(n + 1)
	}
	for i := 0; i < n; i++ {
		t := RandType(r, depth-1)
		var tg []string
		switch {
		case r.Intn(12) == 0:
			tg = append(tg, "-")
		case i == n-1 && t.Kind() == reflect.Slice && !byteSeq(t) && r.Intn(2) == 0:
			tg = append(tg, "tail")
		default:
			if t.Kind() == reflect.Ptr && r.Intn(2) == 0 {
				tg = append(tg, []string{"nil", "nilString", "nilList"}[r.Intn(3)])
			}
			if opt >= 0 && i >= opt {
				tg = append(tg, "optional")
			}
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t}
		if len(tg) > 0 {
			f.Tag = reflect.StructTag(`rlp:"` + strings.Join(tg, ",") + `"`)
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func randUint(r *rand.Rand, bits int) uint64 {
	m := ^uint64(0)
	if bits < 64 {
		m = 1<<uint(bits) - 1
	}
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return uint64(r.Intn(3)) & m
	case 2:
		return (127 + uint64(r.Intn(3))) & m
	case 3:
		return (m - uint64(r.Intn(2))) & m
	case 4:
		return (uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(2))) & m
	}
	return (r.Uint64() >> uint(r.Intn(64))) & m
}

// RandBytes favours the lengths where headers change.
func RandBytes(r *rand.Rand) []byte {
	n := []int{0, 1, 1, 2, 3, 20, 54, 55, 56, 57, 255, 256, 300}[r.Intn(13)]
	if r.Intn(3) == 0 {
		n = r.Intn(64)
	}
	if r.Intn(400) == 0 {
		n = 65530 + r.Intn(12)
	}
	b := make([]byte, n)
	r.Read(b)
	if n > 0 && r.Intn(2) == 0 {
		b[0] = []byte{0, 1, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xc0, 0xff}[r.Intn(9)]
	}
	return b
}

func randBig(r *rand.Rand, max int) *big.Int {
	switch r.Intn(6) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).SetUint64(randUint(r, 64))
	case 2:
		x := new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(max)))
		return x.Sub(x, big.NewInt(int64(r.Intn(2))))
	}
	b := make([]byte, r.Intn(max/8+1))
	r.Read(b)
	return new(big.Int).SetBytes(b)
}

// RandItem makes a random item tree.
func RandItem(r *rand.Rand, depth int) Item {
	if depth <= 0 || r.Intn(2) == 0 {
		return S(RandBytes(r))
	}
	it := Item{List: true}
	n := r.Intn(5)
	if r.Intn(20) == 0 {
		n = 50 + r.Intn(20)
		depth = 1
	}
	for i := 0; i < n; i++ {
		it.Items = append(it.Items, RandItem(r, depth-1))
	}
	return it
}

// Gen makes a random value of type t; nils says whether nil pointers, slices and interfaces may occur.
func Gen(r *rand.Rand, t reflect.Type, nils bool) reflect.Value { return gen(r, t, tags{}, nils, 4) }

func gen(r *rand.Rand, t reflect.Type, tg tags, nils bool, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t {
	case tRaw:
		v.SetBytes(Enc(RandItem(r, 2)))
		return v
	case tBig:
		v.Set(reflect.ValueOf(*randBig(r, 600)))
		return v
	case tU256:
		u, _ := uint256.FromBig(randBig(r, 256))
		v.Set(reflect.ValueOf(*u))
		return v
	case tCust:
		v.Set(reflect.ValueOf(Cust{randUint(r, 64), RandBytes(r)}))
		return v
	case tNCust:
		n := NCust{X: make([]uint32, r.Intn(5)), Y: &Cust{randUint(r, 64), RandBytes(r)}}
		for i := range n.X {
			n.X[i] = uint32(randUint(r, 32))
		}
		v.Set(reflect.ValueOf(n))
		return v
	}
	switch k := t.Kind(); {
	case k == reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case isUint(k):
		v.SetUint(randUint(r, t.Bits()))
	case k == reflect.String:
		v.SetString(string(RandBytes(r)))
	case byteSeq(t):
		if k == reflect.Slice {
			if nils && r.Intn(8) == 0 {
				return v
			}
			b := RandBytes(r)
			v.Set(reflect.MakeSlice(t, len(b), len(b)))
		}
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(uint64([]int{0, 1, 0x7f, 0x80, r.Intn(256), r.Intn(256)}[r.Intn(6)]))
		}
	case k == reflect.Slice || k == reflect.Array:
		if k == reflect.Slice {
			if nils && r.Intn(8) == 0 {
				return v
			}
			n := r.Intn(5)
			if depth <= 0 {
				n = 0
			} else if r.Intn(12) == 0 && depth > 2 {
				n = 20 + r.Intn(50)
				depth = 1
			}
			v.Set(reflect.MakeSlice(t, n, n))
		}
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(gen(r, t.Elem(), tags{}, nils, depth-1))
		}
	case k == reflect.Ptr:
		e := t.Elem()
		canNil := e.Kind() != reflect.Ptr && e.Kind() != reflect.Interface && e != tCust && e != tPCust && e != tNCust || tg.nilOK
		if tg.nilOK && (depth <= 0 || r.Intn(3) == 0) || canNil && nils && r.Intn(6) == 0 {
			return v
		}
		p := reflect.New(e)
		p.Elem().Set(gen(r, e, tags{}, nils, depth-1))
		v.Set(p)
	case k == reflect.Interface:
		if nils && r.Intn(4) == 0 {
			return v
		}
		var x interface{}
		switch r.Intn(5) {
		case 0:
			if nils {
				x = randUint(r, 64)
			} else {
				x = RandBytes(r)
			}
		case 1:
			if nils {
				x = string(RandBytes(r))
			} else {
				x = []interface{}{}
			}
		case 2:
			n := r.Intn(4)
			if depth <= 0 {
				n = 0
			}
			l := make([]interface{}, n)
			for i := range l {
				l[i] = gen(r, t, tags{}, nils, depth-2).Interface()
			}
			x = l
		default:
			x = RandBytes(r)
		}
		v.Set(reflect.ValueOf(x))
	case k == reflect.Struct:
		zeroFrom := t.NumField()
		if r.Intn(2) == 0 {
			zeroFrom = r.Intn(zeroFrom + 1)
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			ft := parseTags(f)
			if ft.opt && (i >= zeroFrom || r.Intn(4) == 0) {
				continue
			}
			v.Field(i).Set(gen(r, f.Type, ft, nils, depth-1))
		}
	default:
		panic(fmt.Sprintf("generator: type %v", t))
	}
	return v
}

// Mutate damages an encoding: bytes, lengths, headers, nesting.
func Mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.Intn(3); n > 0; n-- {
		p := 0
		if len(b) > 0 {
			p = r.Intn(len(b))
			if r.Intn(2) == 0 {
				p = r.Intn(minInt(len(b), 12))
			}
		}
		switch r.Intn(12) {
		case 0:
			b = b[:p]
		case 1:
			b = append(b, RandBytes(r)...)
		case 2, 3:
			if len(b) > 0 {
				b[p] = byte(r.Intn(256))
			}
		case 4:
			if len(b) > 0 {
				b[p] += byte(r.Intn(3) - 1)
			}
		case 5:
			if len(b) > 0 {
				b[p] = []byte{0x00, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xb9, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xf9, 0xff}[r.Intn(14)]
			}
		case 6: // insert
			b = append(b[:p:p], append([]byte{[]byte{0, 1, 0x80, 0x81, 0xc0, 0xb8}[r.Intn(6)]}, b[p:]...)...)
		case 7: // delete
			if len(b) > 0 {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 8: // long header for the whole thing, with the right length but not the shortest form
			if list, s, e, err := Head(b); err == nil && s > 0 {
				n := e - s
				t := byte(0xB7)
				if list {
					t = 0xF7
				}
				lb := []byte{byte(n >> 8), byte(n)}
				if n < 256 && r.Intn(2) == 0 {
					lb = lb[1:]
				}
				b = append(append([]byte{t + byte(len(lb))}, lb...), b[s:]...)
			}
		case 9: // wrap or unwrap
			if r.Intn(2) == 0 {
				b = append(head(0xC0, len(b)), b...)
			} else if _, s, _, err := Head(b); err == nil {
				b = b[s:]
			}
		case 10: // huge length
			t := []byte{0xBF, 0xFF, 0xBB, 0xFB}[r.Intn(4)]
			x := []byte{t, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, byte(r.Intn(256))}
			b = append(b[:p:p], append(x, b[p:]...)...)
		default: // rebuild an item with one element more or less
			if it, rest, err := Parse(b); err == nil && it.List {
				b = append(Enc(alter(r, it)), rest...)
			}
		}
	}
	return b
}

func alter(r *rand.Rand, it Item) Item {
	out := Item{List: it.List, Str: append([]byte{}, it.Str...), Items: append([]Item{}, it.Items...)}
	if !it.List {
		switch r.Intn(4) {
		case 0:
			out.Str = append([]byte{0}, out.Str...)
		case 1:
			if len(out.Str) > 0 {
				out.Str = out.Str[1:]
			}
		case 2:
			return L(out)
		default:
			out.Str = append(out.Str, byte(r.Intn(256)))
		}
		return out
	}
	if n := len(out.Items); n > 0 {
		k := r.Intn(n)
		switch r.Intn(6) {
		case 0:
			out.Items = append(out.Items[:k:k], out.Items[k+1:]...)
		case 1:
			out.Items = append(out.Items, out.Items[k])
		case 2:
			out.Items[k] = []Item{S(nil), L(), S([]byte{0}), S([]byte{1})}[r.Intn(4)]
		default:
			out.Items[k] = alter(r, out.Items[k])
		}
		return out
	}
	if r.Intn(2) == 0 {
		return S(nil)
	}
	return L(S([]byte{byte(r.Intn(256))}))
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Package abix is an independent reference of the contract ABI: types, values, encoder, decoder, written from the
// specification and sharing no code with go-common/abi.
package abix

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	"github.com/ThinkiumGroup/go-common/abi"
)

type Kind int

const (
	Uint Kind = iota
	Int
	Bool
	Address
	FixedBytes
	Function
	Bytes
	String
	Slice
	Array
	Tuple
)

// Ty is an ABI type.
type Ty struct {
	K      Kind
	Size   int // bits of Uint and Int, bytes of FixedBytes, length of Array
	Elem   *Ty
	Fields []Field
}

type Field struct {
	Name string
	Ty   *Ty
}

// Val is a value: N for Uint, Int, Bool; B for the byte kinds; L for the composite ones.
type Val struct {
	N *big.Int
	B []byte
	L []*Val
}

// Canon is the canonical type string, in which tuples are spelled out.
func (t *Ty) Canon() string {
	switch t.K {
	case Uint:
		return fmt.Sprint("uint", t.Size)
	case Int:
		return fmt.Sprint("int", t.Size)
	case Bool:
		return "bool"
	case Address:
		return "address"
	case FixedBytes:
		return fmt.Sprint("bytes", t.Size)
	case Function:
		return "function"
	case Bytes:
		return "bytes"
	case String:
		return "string"
	case Slice:
		return t.Elem.Canon() + "[]"
	case Array:
		return fmt.Sprintf("%s[%d]", t.Elem.Canon(), t.Size)
	}
	var s []string
	for _, f := range t.Fields {
		s = append(s, f.Ty.Canon())
	}
	return "(" + strings.Join(s, ",") + ")"
}

// Desc is the JSON description of the type: its type string with "tuple" for tuples, and the components.
func (t *Ty) Desc() (string, []abi.ArgumentMarshaling) {
	switch t.K {
	case Slice:
		s, c := t.Elem.Desc()
		return s + "[]", c
	case Array:
		s, c := t.Elem.Desc()
		return fmt.Sprintf("%s[%d]", s, t.Size), c
	case Tuple:
		var c []abi.ArgumentMarshaling
		for _, f := range t.Fields {
			s, cc := f.Ty.Desc()
			c = append(c, abi.ArgumentMarshaling{Name: f.Name, Type: s, Components: cc})
		}
		return "tuple", c
	}
	return t.Canon(), nil
}

// Dynamic: the type is encoded behind an offset.
func (t *Ty) Dynamic() bool {
	switch t.K {
	case Bytes, String, Slice:
		return true
	case Array:
		return t.Elem.Dynamic()
	case Tuple:
		for _, f := range t.Fields {
			if f.Ty.Dynamic() {
				return true
			}
		}
	}
	return false
}

// headSize is the number of bytes the type takes in a head.
func (t *Ty) headSize() int {
	if t.Dynamic() {
		return 32
	}
	switch t.K {
	case Array:
		return t.Size * t.Elem.headSize()
	case Tuple:
		n := 0
		for _, f := range t.Fields {
			n += f.Ty.headSize()
		}
		return n
	}
	return 32
}

func word(n *big.Int) []byte {
	m := new(big.Int).Set(n)
	if m.Sign() < 0 {
		m.Add(m, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	b := m.Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

func padRight(b []byte) []byte {
	out := append([]byte{}, b...)
	for len(out)%32 != 0 {
		out = append(out, 0)
	}
	return out
}

// Encode is enc(v) of the specification.
func Encode(t *Ty, v *Val) []byte {
	switch t.K {
	case Uint, Int, Bool:
		return word(v.N)
	case Address:
		return append(make([]byte, 12), v.B...)
	case FixedBytes, Function:
		return padRight(v.B)
	case Bytes, String:
		return append(word(big.NewInt(int64(len(v.B)))), padRight(v.B)...)
	case Slice:
		return append(word(big.NewInt(int64(len(v.L)))), EncodeList(repeat(t.Elem, len(v.L)), v.L)...)
	case Array:
		return EncodeList(repeat(t.Elem, t.Size), v.L)
	}
	return EncodeList(t.fieldTypes(), v.L)
}

func (t *Ty) fieldTypes() []*Ty {
	var ts []*Ty
	for _, f := range t.Fields {
		ts = append(ts, f.Ty)
	}
	return ts
}

func repeat(t *Ty, n int) []*Ty {
	ts := make([]*Ty, n)
	for i := range ts {
		ts[i] = t
	}
	return ts
}

// EncodeList encodes an argument list: heads, then tails.
func EncodeList(ts []*Ty, vs []*Val) []byte {
	total := 0
	for _, t := range ts {
		total += t.headSize()
	}
	var heads, tails []byte
	for i, t := range ts {
		e := Encode(t, vs[i])
		if t.Dynamic() {
			heads = append(heads, word(big.NewInt(int64(total+len(tails))))...)
			tails = append(tails, e...)
		} else {
			heads = append(heads, e...)
		}
	}
	return append(heads, tails...)
}

// ErrBounds: a word that the value needs lies outside the data. ErrBad: a boolean that is neither 0 nor 1 or a function with trailing bytes.
var (
	ErrBounds = errors.New("out of bounds")
	ErrBad    = errors.New("bad value")
)

// Decoder decodes leniently: offsets may point anywhere inside the frame.
type Decoder struct {
	Dirty bool // a padding byte that should be zero was not, or a number was out of its range
	steps int
}

func (d *Decoder) word(data []byte, at int) (*big.Int, error) {
	if at < 0 || at+32 > len(data) {
		return nil, ErrBounds
	}
	return new(big.Int).SetBytes(data[at : at+32]), nil
}

func small(n *big.Int, max int) (int, error) {
	if !n.IsInt64() || n.Int64() > int64(max) {
		return 0, ErrBounds
	}
	return int(n.Int64()), nil
}

// List decodes an argument list from data.
func (d *Decoder) List(ts []*Ty, data []byte) ([]*Val, error) {
	var vs []*Val
	at := 0
	for _, t := range ts {
		v, err := d.dec(t, data, at)
		if err != nil {
			return nil, err
		}
		vs = append(vs, v)
		at += t.headSize()
	}
	return vs, nil
}

// ErrWork: the input expands into more values than the reference is willing to build.
var ErrWork = errors.New("too much work")

func (d *Decoder) dec(t *Ty, data []byte, at int) (*Val, error) {
	if d.steps++; d.steps > 20000 {
		return nil, ErrWork
	}
	w, err := d.word(data, at)
	if err != nil {
		return nil, err
	}
	raw := data[at : at+32]
	zero := func(b []byte) {
		for _, x := range b {
			if x != 0 {
				d.Dirty = true
			}
		}
	}
	frame := data
	if t.Dynamic() {
		off, err := small(w, len(data))
		if err != nil {
			return nil, err
		}
		frame, at = data[off:], 0
	}
	switch t.K {
	case Uint:
		if w.BitLen() > t.Size {
			d.Dirty = true
		}
		return &Val{N: w}, nil
	case Int:
		if w.Bit(255) == 1 {
			w.Sub(w, new(big.Int).Lsh(big.NewInt(1), 256))
		}
		lim := new(big.Int).Lsh(big.NewInt(1), uint(t.Size-1))
		if w.Cmp(lim) >= 0 || w.Cmp(new(big.Int).Neg(lim)) < 0 {
			d.Dirty = true
		}
		return &Val{N: w}, nil
	case Bool:
		if w.BitLen() > 1 {
			return nil, ErrBad
		}
		return &Val{N: w}, nil
	case Address:
		zero(raw[:12])
		return &Val{B: append([]byte{}, raw[12:]...)}, nil
	case FixedBytes:
		zero(raw[t.Size:])
		return &Val{B: append([]byte{}, raw[:t.Size]...)}, nil
	case Function:
		for _, x := range raw[24:] {
			if x != 0 {
				return nil, ErrBad
			}
		}
		return &Val{B: append([]byte{}, raw[:24]...)}, nil
	case Bytes, String, Slice:
		lw, err := d.word(frame, 0)
		if err != nil {
			return nil, err
		}
		frame = frame[32:]
		n, err := small(lw, len(frame))
		if err != nil {
			return nil, err
		}
		if t.K != Slice {
			return &Val{B: append([]byte{}, frame[:n]...)}, nil
		}
		return d.seq(repeat(t.Elem, n), frame, 0)
	case Array:
		return d.seq(repeat(t.Elem, t.Size), frame, at)
	}
	return d.seq(t.fieldTypes(), frame, at)
}

func (d *Decoder) seq(ts []*Ty, frame []byte, at int) (*Val, error) {
	v := &Val{}
	for _, t := range ts {
		e, err := d.dec(t, frame, at)
		if err != nil {
			return nil, err
		}
		v.L = append(v.L, e)
		at += t.headSize()
	}
	return v, nil
}

// Equal compares values of one type.
func Equal(a, b *Val) bool {
	if (a.N == nil) != (b.N == nil) || a.N != nil && a.N.Cmp(b.N) != 0 || string(a.B) != string(b.B) || len(a.L) != len(b.L) {
		return false
	}
	for i := range a.L {
		if !Equal(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

func (v *Val) Show() string {
	switch {
	case v.N != nil:
		return v.N.String()
	case v.L != nil:
		var s []string
		for _, e := range v.L {
			s = append(s, e.Show())
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("0x%x", v.B)
}

// ---- Go values

var byteT, bigT = reflect.TypeOf(byte(0)), reflect.TypeOf(&big.Int{})

// GoType is the Go type that package abi documents for t.
func (t *Ty) GoType() reflect.Type {
	switch t.K {
	case Uint:
		switch t.Size {
		case 8:
			return reflect.TypeOf(uint8(0))
		case 16:
			return reflect.TypeOf(uint16(0))
		case 32:
			return reflect.TypeOf(uint32(0))
		case 64:
			return reflect.TypeOf(uint64(0))
		}
		return bigT
	case Int:
		switch t.Size {
		case 8:
			return reflect.TypeOf(int8(0))
		case 16:
			return reflect.TypeOf(int16(0))
		case 32:
			return reflect.TypeOf(int32(0))
		case 64:
			return reflect.TypeOf(int64(0))
		}
		return bigT
	case Bool:
		return reflect.TypeOf(false)
	case Address:
		return reflect.ArrayOf(20, byteT)
	case FixedBytes:
		return reflect.ArrayOf(t.Size, byteT)
	case Function:
		return reflect.ArrayOf(24, byteT)
	case Bytes:
		return reflect.SliceOf(byteT)
	case String:
		return reflect.TypeOf("")
	case Slice:
		return reflect.SliceOf(t.Elem.GoType())
	case Array:
		return reflect.ArrayOf(t.Size, t.Elem.GoType())
	}
	return StructOf(t.Fields)
}

// StructOf is the struct with one field per name, in camel case.
func StructOf(fs []Field) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		sf = append(sf, reflect.StructField{Name: Camel(f.Name), Type: f.Ty.GoType(), Tag: reflect.StructTag(`json:"` + f.Name + `"`)})
	}
	return reflect.StructOf(sf)
}

// Camel is the Go field name of an ABI name.
func Camel(s string) string {
	out, up := "", true
	for _, c := range s {
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 32
		}
		up = false
		out += string(c)
	}
	return out
}

// ToGo stores v in dst, which is of the type GoType.
func ToGo(t *Ty, v *Val, dst reflect.Value) {
	switch t.K {
	case Uint, Int:
		switch dst.Kind() {
		case reflect.Ptr:
			dst.Set(reflect.ValueOf(new(big.Int).Set(v.N)))
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			dst.SetInt(v.N.Int64())
		default:
			dst.SetUint(v.N.Uint64())
		}
	case Bool:
		dst.SetBool(v.N.Sign() != 0)
	case Address, FixedBytes, Function:
		reflect.Copy(dst, reflect.ValueOf(v.B))
	case Bytes:
		dst.SetBytes(append([]byte{}, v.B...))
	case String:
		dst.SetString(string(v.B))
	case Slice:
		dst.Set(reflect.MakeSlice(dst.Type(), len(v.L), len(v.L)))
		for i, e := range v.L {
			ToGo(t.Elem, e, dst.Index(i))
		}
	case Array:
		for i, e := range v.L {
			ToGo(t.Elem, e, dst.Index(i))
		}
	case Tuple:
		for i, e := range v.L {
			ToGo(t.Fields[i].Ty, e, dst.Field(i))
		}
	}
}

// Go is v as a Go value.
func Go(t *Ty, v *Val) interface{} {
	x := reflect.New(t.GoType()).Elem()
	ToGo(t, v, x)
	return x.Interface()
}

// FromGo reads a value that package abi produced; the Go type must be the documented one.
func FromGo(t *Ty, x reflect.Value) (*Val, error) {
	if x.Kind() == reflect.Interface {
		x = x.Elem()
	}
	if !x.IsValid() {
		return nil, errors.New("no value")
	}
	want := t.GoType()
	if x.Kind() != want.Kind() || t.K != Tuple && t.K != Slice && t.K != Array && !x.Type().ConvertibleTo(want) {
		return nil, fmt.Errorf("%s is given as %v, want %v", t.Canon(), x.Type(), want)
	}
	switch t.K {
	case Uint, Int:
		switch x.Kind() {
		case reflect.Ptr:
			if x.IsNil() {
				return nil, errors.New("nil number")
			}
			return &Val{N: new(big.Int).Set(x.Interface().(*big.Int))}, nil
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return &Val{N: big.NewInt(x.Int())}, nil
		}
		return &Val{N: new(big.Int).SetUint64(x.Uint())}, nil
	case Bool:
		if x.Bool() {
			return &Val{N: big.NewInt(1)}, nil
		}
		return &Val{N: new(big.Int)}, nil
	case Address, FixedBytes, Function:
		b := make([]byte, x.Len())
		reflect.Copy(reflect.ValueOf(b), x)
		if len(b) != want.Len() {
			return nil, fmt.Errorf("%s of %d bytes", t.Canon(), len(b))
		}
		return &Val{B: b}, nil
	case Bytes:
		return &Val{B: append([]byte{}, x.Bytes()...)}, nil
	case String:
		return &Val{B: []byte(x.String())}, nil
	case Slice, Array:
		v := &Val{}
		if t.K == Array && x.Len() != t.Size {
			return nil, fmt.Errorf("%s of length %d", t.Canon(), x.Len())
		}
		for i := 0; i < x.Len(); i++ {
			e, err := FromGo(t.Elem, x.Index(i))
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, e)
		}
		return v, nil
	}
	v := &Val{}
	if x.NumField() != len(t.Fields) {
		return nil, fmt.Errorf("%s with %d fields", t.Canon(), x.NumField())
	}
	for i, f := range t.Fields {
		if n := x.Type().Field(i).Name; n != Camel(f.Name) {
			return nil, fmt.Errorf("field %d is called %s, want %s", i, n, Camel(f.Name))
		}
		e, err := FromGo(f.Ty, x.Field(i))
		if err != nil {
			return nil, err
		}
		v.L = append(v.L, e)
	}
	return v, nil
}

// ---- generation

// GenElem is a random elementary type.
func GenElem(r *rand.Rand) *Ty {
	size := func() int {
		if r.Intn(3) > 0 {
			return []int{8, 16, 32, 64, 128, 256}[r.Intn(6)]
		}
		return 8 * (1 + r.Intn(32))
	}
	switch r.Intn(9) {
	case 0, 1:
		return &Ty{K: Uint, Size: size()}
	case 2, 3:
		return &Ty{K: Int, Size: size()}
	case 4:
		return &Ty{K: Bool}
	case 5:
		return &Ty{K: Address}
	case 6:
		return &Ty{K: FixedBytes, Size: []int{1, 4, 5, 8, 16, 20, 24, 31, 32}[r.Intn(9)]}
	case 7:
		return &Ty{K: Bytes}
	}
	return &Ty{K: String}
}

// Gen is a random type.
func Gen(r *rand.Rand, depth int) *Ty {
	if depth <= 0 || r.Intn(5) < 2 {
		if r.Intn(12) == 0 {
			return &Ty{K: Function}
		}
		return GenElem(r)
	}
	switch r.Intn(5) {
	case 0, 1:
		return &Ty{K: Slice, Elem: Gen(r, depth-1)}
	case 2, 3:
		return &Ty{K: Array, Size: 1 + r.Intn(4), Elem: Gen(r, depth-1)}
	}
	return &Ty{K: Tuple, Fields: GenFields(r, 1+r.Intn(4), depth-1)}
}

// GenFields are n fields whose names stay distinct in camel case.
func GenFields(r *rand.Rand, n, depth int) []Field {
	var fs []Field
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("%c%d", 'a'+rune(r.Intn(26)), i)
		if i < 5 && r.Intn(6) == 0 { // a single letter, another one for each position
			nm = string(rune('a' + 5*i + r.Intn(5)))
			if r.Intn(3) == 0 {
				nm = strings.ToUpper(nm)
			}
			fs = append(fs, Field{Name: nm, Ty: Gen(r, depth)})
			continue
		}
		switch r.Intn(6) {
		case 0:
			nm = "_" + nm
		case 1:
			nm = nm + "_val"
		case 2:
			nm = "the_" + nm + "_x"
		case 3:
			nm = strings.ToUpper(nm)
		}
		fs = append(fs, Field{Name: nm, Ty: Gen(r, depth)})
	}
	return fs
}

func genNum(r *rand.Rand, t *Ty) *big.Int {
	one := big.NewInt(1)
	lo, hi := new(big.Int), new(big.Int).Lsh(one, uint(t.Size))
	if t.K == Int {
		hi = new(big.Int).Lsh(one, uint(t.Size-1))
		lo = new(big.Int).Neg(hi)
	}
	switch r.Intn(6) {
	case 0:
		return lo
	case 1:
		return hi.Sub(hi, one)
	case 2:
		return new(big.Int).Add(lo, big.NewInt(int64(r.Intn(3))))
	case 3:
		if t.K == Int {
			return big.NewInt(int64(r.Intn(5) - 2))
		}
		return big.NewInt(int64(r.Intn(3)))
	}
	n := new(big.Int).Rand(r, new(big.Int).Sub(hi, lo))
	if r.Intn(2) == 0 {
		n.Rsh(n, uint(r.Intn(t.Size)))
		if t.K == Int {
			if r.Intn(2) == 0 {
				n.Neg(n)
			}
			if n.Cmp(lo) < 0 || n.Cmp(hi) >= 0 {
				return big.NewInt(-1)
			}
		}
		return n
	}
	return n.Add(n, lo)
}

// GenVal is a random value of t.
func GenVal(r *rand.Rand, t *Ty) *Val {
	rb := func(n int) []byte {
		b := make([]byte, n)
		if r.Intn(8) > 0 {
			r.Read(b)
		}
		return b
	}
	switch t.K {
	case Uint, Int:
		return &Val{N: genNum(r, t)}
	case Bool:
		return &Val{N: big.NewInt(int64(r.Intn(2)))}
	case Address:
		return &Val{B: rb(20)}
	case FixedBytes:
		return &Val{B: rb(t.Size)}
	case Function:
		return &Val{B: rb(24)}
	case Bytes, String:
		if r.Intn(50) == 0 {
			n := []int{127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025}[r.Intn(12)]
			if r.Intn(6) == 0 {
				n = []int{65535, 65536, 65537, 70001}[r.Intn(4)]
			}
			return &Val{B: rb(n)}
		}
		return &Val{B: rb([]int{0, 1, 5, 31, 32, 33, 63, 64, 65, 100}[r.Intn(10)])}
	}
	v := &Val{}
	ts := t.fieldTypes()
	switch t.K {
	case Slice:
		ts = repeat(t.Elem, []int{0, 1, 1, 2, 3, 5}[r.Intn(6)])
		if len(ts) > 1 && t.Elem.K != Slice && t.Elem.K != Array && t.Elem.K != Tuple && r.Intn(25) == 0 {
			ts = repeat(t.Elem, []int{8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300}[r.Intn(14)])
		}
	case Array:
		ts = repeat(t.Elem, t.Size)
	}
	for _, e := range ts {
		v.L = append(v.L, GenVal(r, e))
	}
	return v
}

// Mutate damages encoded data: words replaced by extreme numbers or other words, bytes flipped, truncation, extension.
func Mutate(r *rand.Rand, b []byte) []byte {
	out := append([]byte{}, b...)
	for k := r.Intn(3); k >= 0; k-- {
		words := len(out) / 32
		switch x := r.Intn(10); {
		case x < 4 && words > 0:
			w := r.Intn(words)
			var n *big.Int
			switch r.Intn(9) {
			case 0:
				n = new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(256)))
			case 1:
				n = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(256))), big.NewInt(1+int64(r.Intn(64))))
			case 2:
				n = big.NewInt(int64(len(out) - 64 + r.Intn(128)))
			case 3:
				n = big.NewInt(int64(32 * r.Intn(words+3)))
			case 4:
				n = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(int64(32*r.Intn(words+1))))
			case 5:
				n = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(59+r.Intn(6))), big.NewInt(int64(32*r.Intn(words+1))))
			case 6:
				n = big.NewInt(int64(r.Intn(8)))
			default:
				n = new(big.Int).Add(new(big.Int).SetBytes(out[32*w:32*w+32]), big.NewInt(int64(r.Intn(65)-32)))
			}
			if n.Sign() < 0 || n.BitLen() > 256 {
				n = new(big.Int)
			}
			copy(out[32*w:], word(n))
		case x == 4 && len(out) > 0:
			out[r.Intn(len(out))] ^= 1 << uint(r.Intn(8))
		case x == 5 && len(out) > 0:
			out = out[:r.Intn(len(out))]
		case x == 6 && len(out) >= 32:
			out = out[:len(out)-1-r.Intn(32)]
		case x == 7 && words > 1:
			i, j := r.Intn(words), r.Intn(words)
			copy(out[32*i:32*i+32], append([]byte{}, out[32*j:32*j+32]...))
		case x == 8:
			e := make([]byte, r.Intn(70))
			r.Read(e)
			out = append(out, e...)
		default:
			if len(out) > 0 {
				out[r.Intn(len(out))] = byte(r.Intn(256))
			}
		}
	}
	return out
}

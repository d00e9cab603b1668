package rlpx

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/ThinkiumGroup/go-common/rlp"
)

// Pair is a struct type with generated coders and its twin of the same definition without methods.
type Pair struct {
	Name    string
	Gen, By reflect.Type
}

// PairResult is what one comparison run observed.
type PairResult struct {
	Name                        string
	Encoded, Accepted, Rejected int
	Methods, Reused             int
	Bad                         []string // "sig|message"
}

func (p *PairResult) bad(sig, format string, args ...interface{}) {
	if len(p.Bad) < 12 {
		m := fmt.Sprintf(format, args...)
		if len(m) > 1500 {
			m = m[:1500] + "…"
		}
		p.Bad = append(p.Bad, sig+"|"+m)
	}
}

func guard(res *PairResult, what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			res.bad("panic", "%s: %v", what, x)
		}
	}()
	f()
}

// Compare runs generated coder and reflection coder side by side.
func (p Pair) Compare(seed int64, n int) (res PairResult) {
	res.Name = p.Name
	r := rand.New(rand.NewSource(seed))
	genSl, bySl := reflect.SliceOf(p.Gen), reflect.SliceOf(p.By)
	conv := func(v reflect.Value, t reflect.Type) reflect.Value { return v.Convert(t) }
	nilTag := hasNilTag(p.By)
	ignores := false // fields the coders do not touch
	for j := 0; j < p.By.NumField(); j++ {
		ignores = ignores || p.By.Field(j).PkgPath != "" || strings.Contains(p.By.Field(j).Tag.Get("rlp"), "-")
	}
	p.known(&res)
	for i := 0; i < n; i++ {
		v := Gen(r, p.By, i%2 == 0)
		for j := 0; j < v.NumField(); j++ {
			// known finding optional-empty-slice: the generated encoder takes an empty optional slice for an absent one
			if f := v.Field(j); f.Kind() == reflect.Slice && f.CanSet() && f.Len() == 0 && strings.Contains(p.By.Field(j).Tag.Get("rlp"), "optional") {
				f.Set(reflect.Zero(f.Type()))
			}
		}
		rp := reflect.New(p.By)
		rp.Elem().Set(v)
		gp := reflect.New(p.Gen)
		gp.Elem().Set(conv(v, p.Gen))
		guard(&res, "encoding "+fmt.Sprintf("%+v", v), func() {
			a, ea := rlp.EncodeToBytes(gp.Interface())
			b, eb := rlp.EncodeToBytes(rp.Interface())
			if (ea == nil) != (eb == nil) || ea == nil && !bytes.Equal(a, b) {
				res.bad("encode", "value %+v: generated %x err %v, reflection %x err %v", v, a, ea, b, eb)
			}
			res.Encoded++
			// by calling the generated method itself, on a writer and on an encoder buffer in the middle of other output
			if enc, ok := gp.Interface().(rlp.Encoder); ok {
				var w bytes.Buffer
				if eg := enc.EncodeRLP(&w); (eg == nil) != (eb == nil) || eg == nil && !bytes.Equal(w.Bytes(), b) {
					res.bad("encode-method", "value %+v: EncodeRLP on a writer %x err %v, reflection %x err %v", v, w.Bytes(), eg, b, eb)
				}
				w.Reset()
				eb2 := rlp.NewEncoderBuffer(&w)
				l := eb2.List()
				eb2.WriteUint64(9)
				eg := enc.EncodeRLP(eb2)
				eb2.ListEnd(l)
				ef := eb2.Flush()
				want := append(head(0xC0, len(b)+1), append([]byte{9}, b...)...)
				if eg == nil && eb == nil && (ef != nil || !bytes.Equal(w.Bytes(), want)) || (eg == nil) != (eb == nil) {
					res.bad("encode-method", "value %+v: EncodeRLP inside a list of an encoder buffer %x err %v %v, reflection %x err %v", v, w.Bytes(), eg, ef, want, eb)
				}
				res.Methods++
			}
			// as elements of a list, and behind a pointer
			gs, rs := reflect.New(genSl), reflect.New(bySl)
			for k := r.Intn(3); k >= 0; k-- {
				gs.Elem().Set(reflect.Append(gs.Elem(), gp.Elem()))
				rs.Elem().Set(reflect.Append(rs.Elem(), rp.Elem()))
			}
			a, ea = rlp.EncodeToBytes(gs.Interface())
			b, eb = rlp.EncodeToBytes(rs.Interface())
			if (ea == nil) != (eb == nil) || ea == nil && !bytes.Equal(a, b) {
				res.bad("encode-list", "list of %d values %+v: generated %x err %v, reflection %x err %v", gs.Elem().Len(), v, a, ea, b, eb)
			}
		})
		base := Encode(v)
		for k := 0; k < 8; k++ {
			in := base
			if k > 0 {
				in = Mutate(r, base)
			}
			gt, rt := p.Gen, p.By
			if k == 7 {
				gt, rt, in = genSl, bySl, append(head(0xC0, len(base)+len(in)), append(append([]byte{}, base...), in...)...)
			}
			guard(&res, fmt.Sprintf("decoding %x", in), func() {
				gd, rd := reflect.New(gt), reflect.New(rt)
				ea, eb := rlp.DecodeBytes(in, gd.Interface()), rlp.DecodeBytes(in, rd.Interface())
				if nilTag && (eb != nil || hasNil(rd.Elem(), p.By)) {
					return // known findings nil-not-consumed and nil-wrong-kind
				}
				if (ea == nil) != (eb == nil) {
					sig := "accept"
					if ea == nil {
						sig = "accept-malformed"
					}
					res.bad(sig, "input %x: generated error %v, reflection error %v", in, ea, eb)
					return
				}
				if eb != nil {
					res.Rejected++
					return
				}
				res.Accepted++
				var x reflect.Value
				if gt == genSl {
					x = reflect.New(bySl).Elem()
					for j := 0; j < gd.Elem().Len(); j++ {
						x.Set(reflect.Append(x, conv(gd.Elem().Index(j), p.By)))
					}
				} else {
					x = conv(gd.Elem(), p.By)
				}
				if !Equal(x, rd.Elem()) {
					res.bad("value", "input %x: generated %+v, reflection %+v", in, x, rd.Elem())
				}
				if gt == p.Gen && !ignores {
					// into a value that was used before, by the method itself, from a stream with more behind
					old := reflect.New(p.Gen)
					old.Elem().Set(conv(v, p.Gen))
					s := rlp.NewStream(bytes.NewReader(append(append([]byte{}, in...), 0x05)), 0)
					dec, ok := old.Interface().(rlp.Decoder)
					if !ok {
						return
					}
					if err := dec.DecodeRLP(s); err != nil || !Equal(conv(old.Elem(), p.By), rd.Elem()) {
						res.bad("reused", "input %x decoded into %+v: generated %+v err %v, reflection %+v", in, v, old.Elem(), err, rd.Elem())
					} else if x, err := s.Uint64(); err != nil || x != 5 {
						res.bad("reused", "input %x: what follows on the stream reads as %v, %v", in, x, err)
					}
					res.Reused++
				}
			})
		}
	}
	return
}

func hasNilTag(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		if strings.Contains(t.Field(i).Tag.Get("rlp"), "nil") {
			return true
		}
	}
	return false
}

// hasNil: v, a value of the struct type t or a slice of it, has a nil pointer in a field tagged nil.
func hasNil(v reflect.Value, t reflect.Type) bool {
	if v.Kind() == reflect.Slice {
		for i := 0; i < v.Len(); i++ {
			if hasNil(v.Index(i), t) {
				return true
			}
		}
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		if strings.Contains(t.Field(i).Tag.Get("rlp"), "nil") && v.Field(i).Kind() == reflect.Ptr && v.Field(i).IsNil() {
			return true
		}
	}
	return false
}

// The three definitions on which the known findings are looked for, and nothing else.
const (
	KnownNil      = "A *uint64 `rlp:\"nil\"`; B uint8"
	KnownNilKind  = "A *uint64 `rlp:\"nilList\"`"
	KnownOptEmpty = "A []uint64 `rlp:\"optional\"`"
)

func (p Pair) known(res *PairResult) {
	try := func(in []byte) (ea, eb error) {
		return rlp.DecodeBytes(in, reflect.New(p.Gen).Interface()), rlp.DecodeBytes(in, reflect.New(p.By).Interface())
	}
	switch p.Name {
	case KnownNil:
		if ea, eb := try([]byte{0xc2, 0x80, 0x05}); ea != nil && eb == nil {
			res.bad("nil-not-consumed", "input c28005: generated error %v, reflection accepts", ea)
		}
	case KnownNilKind:
		if ea, eb := try([]byte{0xc1, 0x80}); ea == nil && eb != nil {
			res.bad("nil-wrong-kind", "input c180: generated accepts, reflection error %v", eb)
		}
	case KnownOptEmpty:
		g, b := reflect.New(p.Gen), reflect.New(p.By)
		g.Elem().Field(0).Set(reflect.ValueOf([]uint64{}))
		b.Elem().Field(0).Set(reflect.ValueOf([]uint64{}))
		x, ea := rlp.EncodeToBytes(g.Interface())
		y, eb := rlp.EncodeToBytes(b.Interface())
		if ea == nil && eb == nil && !bytes.Equal(x, y) {
			res.bad("optional-empty-slice", "value {A:[]uint64{}}: generated %x, reflection %x", x, y)
		}
	}
}

package checks

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/holiman/uint256"

	"verif/harness/mon"
	"verif/harness/rlpx"
)

func init() {
	mon.Register(&mon.Check{ID: "R01",
		Rule:  "random values of every basic and declared type and of randomly composed structs (with tags), slices, arrays and pointers; encoding compared byte by byte with an independent reference, decoding with the reference decoder; non-trivial when the encoding has a long header or nesting",
		Floor: map[string]int64{"huge": 22, "encodings": 40000, "types": 800, "clean_roundtrips": 20000, "dirty_targets": 20000, "rejected_types": 20}, Run: runR01})
	mon.Register(&mon.Check{ID: "R02",
		Rule:  "every byte string of up to 2 bytes (3 in the thorough tier) and mutated encodings decoded into every basic type and random types; acceptance, value and re-encoding compared with a strict reference parser; non-trivial when the input is accepted or differs from an accepted one by a mutation",
		Floor: map[string]int64{"huge": 22, "exhaustive": 2000000, "accepted": 100000, "rejected": 1000000, "mutated_accepted": 5000}, Run: runR02})
	mon.Register(&mon.Check{ID: "R03",
		Rule:  "every byte string of up to 2 bytes (3 in the thorough tier), random and mutated item lists fed to Split*, CountValues, the list iterator and Stream, compared with a reference parser; random Stream call sequences; non-trivial when the input is malformed or nested",
		Floor: map[string]int64{"huge": 22, "inputs": 200000, "malformed": 100000, "nested": 10000, "iterated": 20000, "stream_calls": 500000, "stream_lists_ended": 10000}, Run: runR03})
	mon.Register(&mon.Check{ID: "R04",
		Rule:  "each value encoded through every entry point and its encoding (sometimes damaged) decoded through readers delivering random chunks, failing or ending at every kind of offset; non-trivial when a chunk boundary or a fault fell inside the value",
		Floor: map[string]int64{"huge": 22, "chunked_decodes": 20000, "reader_faults": 20000, "writer_faults": 5000, "enc_readers": 5000, "manual_buffers": 5000, "failed_encodings": 4000}, Run: runR04})
	mon.Register(&mon.Check{ID: "R06", Race: true,
		Rule:  "8 goroutines released together encode and decode freshly created types through all entry points, with readers abandoned half way; every result compared with the reference; the race detector watches; non-trivial when the type was new to the process",
		Floor: map[string]int64{"fresh_types": 300, "concurrent_calls": 20000, "abandoned_readers": 500, "plain_strings_kept": 3000}, Run: runR06})
}

// needsAddr: the type holds a coder with pointer receivers, so values must be passed by pointer.
func needsAddr(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Name() {
	case "PCust", "NCust":
		return true
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return needsAddr(t.Elem(), seen)
	case reflect.Struct:
		if t.PkgPath() == "math/big" {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			if needsAddr(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func hexs(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x…(%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func showVal(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v)
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		s = fmt.Sprintf("&%+v", v.Elem())
	}
	if len(s) > 500 {
		s = s[:500] + "…"
	}
	return s
}

func runR01(c *mon.Ctx) {
	rlpHuge(c, hugeR01)
	var mu sync.Mutex
	types := map[reflect.Type]bool{}
	leaves := rlpx.Leaves()
	c.Section("values", func(_ *rand.Rand) {
		c.Cases("v", c.N2(12000, 150000), func(i int, r *rand.Rand) {
			t := leaves[i%len(leaves)]
			if i%3 != 0 {
				t = rlpx.RandType(r, 1+r.Intn(3))
			}
			mu.Lock()
			if !types[t] {
				types[t] = true
				c.Count("types", 1)
			}
			mu.Unlock()
			for k := 0; k < 4; k++ {
				rlpValue(c, r, t, rlpx.Gen(r, t, k%2 == 0))
			}
		})
	})
	c.Section("unsupported", func(_ *rand.Rand) { rlpUnsupported(c) })
	c.Section("sizes", func(_ *rand.Rand) {
		c.Cases("s", c.N2(20000, 200000), func(i int, r *rand.Rand) {
			b := rlpx.RandBytes(r)
			enc := rlpx.Enc(rlpx.S(b))
			c.Check(rlp.BytesSize(b) == uint64(len(enc)) && rlp.StringSize(string(b)) == uint64(len(enc)), "string-size", "size of %s: %d / %d, want %d", hexs(b), rlp.BytesSize(b), rlp.StringSize(string(b)), len(enc))
			u := edgeU64(r)
			ue := rlpx.Enc(rlpx.U(u))
			c.Check(rlp.IntSize(u) == len(ue), "int-size", "IntSize(%d)=%d, want %d", u, rlp.IntSize(u), len(ue))
			pre := append(make([]byte, 0, 20), 1, 2, 3)[:r.Intn(4)]
			got := rlp.AppendUint64(pre, u)
			c.Check(bytes.Equal(got, append(append([]byte{}, pre...), ue...)), "append-uint", "AppendUint64(%x,%d)=%x", pre, u, got)
			n := uint64(r.Intn(300))
			if r.Intn(3) == 0 {
				n = u >> 8
			}
			want := n + 1
			if n > 55 {
				want += uint64((bitsLen(n) + 7) / 8)
			}
			c.Check(rlp.ListSize(n) == want, "list-size", "ListSize(%d)=%d, want %d", n, rlp.ListSize(n), want)
			c.Case(len(b) > 55, hexs(b))
		})
	})
}

func bitsLen(n uint64) (l int) {
	for ; n > 0; n >>= 1 {
		l++
	}
	return
}

func rlpValue(c *mon.Ctx, r *rand.Rand, t reflect.Type, v reflect.Value) {
	want := rlpx.Encode(v)
	p := ptrTo(v)
	got, err := rlp.EncodeToBytes(p.Interface())
	c.Count("encodings", 1)
	if err != nil || !bytes.Equal(got, want) {
		c.Violate("encode", "type %v value %s: encoded %s err %v, specification %s", t, showVal(v), hexs(got), err, hexs(want))
		return
	}
	if t.Kind() != reflect.Interface && !needsAddr(t, map[reflect.Type]bool{}) {
		if got, err := rlp.EncodeToBytes(v.Interface()); err != nil || !bytes.Equal(got, want) {
			c.Violate("encode-by-value", "type %v value %s: encoded %s err %v, specification %s", t, showVal(v), hexs(got), err, hexs(want))
			return
		}
	} else if t.Kind() != reflect.Interface {
		// a coder out of reach of its pointer receiver: an error, or the coder's bytes, never others
		x := reflect.ValueOf(v.Interface()).Interface()
		c.Guard(fmt.Sprintf("encoding a %v by value", t), func() {
			if got, err := rlp.EncodeToBytes(x); err == nil && !bytes.Equal(got, want) {
				c.Violate("encode-by-value", "type %v value %s: encoded by value as %s, specification %s", t, showVal(v), hexs(got), hexs(want))
			} else if err != nil {
				c.Count("out_of_reach", 1)
			}
		})
	}
	ref, rerr := rlpx.Decode(t, want)
	in := append([]byte{}, want...)
	d := reflect.New(t)
	err = rlp.DecodeBytes(in, d.Interface())
	if (err == nil) != (rerr == nil) {
		c.Violate("decode", "type %v encoding %s of %s: decode error %v, reference %v", t, hexs(want), showVal(v), err, rerr)
		return
	}
	for i := range in {
		in[i] ^= 0xff // decoded values must not live in the input
	}
	if err == nil {
		if !rlpx.Equal(d.Elem(), ref) {
			c.Violate("decoded-value", "type %v encoding %s: decoded %s, reference %s", t, hexs(want), showVal(d.Elem()), showVal(ref))
			return
		}
		if rlpx.Equal(ref, v) {
			c.Count("clean_roundtrips", 1)
		}
		// a target that already holds something ends up with the same value
		dirty := ptrTo(rlpx.Gen(r, t, true))
		before := showVal(dirty.Elem())
		err = rlp.DecodeBytes(want, dirty.Interface())
		c.Count("dirty_targets", 1)
		if err != nil || !rlpx.Equal(dirty.Elem(), ref) {
			c.Violate("dirty-target", "type %v encoding %s decoded over %s: %s err %v, want %s", t, hexs(want), before, showVal(dirty.Elem()), err, showVal(ref))
			return
		}
	}
	c.Case(len(want) > 56 || len(want) > 2 && want[0] >= 0xC0, t.String()+" "+hexs(want))
}

type rlpBadIface interface{ Foo() }

func rlpUnsupported(c *mon.Ctx) {
	neg := big.NewInt(-1)
	bad := []interface{}{
		int(1), int8(1), int16(1), int32(1), int64(1), float32(1), float64(1), complex(1, 1), map[string]uint{}, make(chan int), func() {},
		[]int{1}, struct{ A int }{}, &struct{ B *float64 }{}, [2]map[int]int{}, neg, *neg, []*big.Int{neg}, struct{ A interface{} }{int(3)},
		struct {
			A uint `rlp:"optional"`
			B uint
		}{}, struct {
			A uint `rlp:"nil"`
		}{}, struct {
			A []uint `rlp:"tail"`
			B uint
		}{}, struct {
			A uint `rlp:"tail"`
		}{}, struct {
			A uint `rlp:"what"`
		}{}, struct {
			A []uint `rlp:"tail,optional"`
		}{},
	}
	for _, x := range bad {
		x := x
		c.Guard(fmt.Sprintf("encode %T", x), func() {
			b, err := rlp.EncodeToBytes(x)
			c.Check(err != nil, "unsupported-encode", "value of unsupported type or value %T %v encoded as %x", x, x, b)
		})
		c.Count("rejected_types", 1)
		c.Case(true, fmt.Sprintf("%T", x))
	}
	for _, p := range []interface{}{new(int), new(float64), new(map[string]uint), new([]int), new(struct{ A int }), new(rlpBadIface), new(struct {
		A uint `rlp:"nil"`
	}), new(struct {
		A uint `rlp:"optional"`
		B uint
	}), new(struct {
		A []uint `rlp:"tail"`
		B uint
	}), new(struct {
		A uint `rlp:"tail"`
	}), new(struct {
		A uint `rlp:"what"`
	}), new(struct {
		A []uint `rlp:"tail,optional"`
	}), new([]struct {
		A []uint `rlp:"optional,tail"`
	}), new(*struct {
		A uint `rlp:"nilString"`
	}), nil, uint(3), (*uint)(nil)} {
		p := p
		for _, in := range [][]byte{{0x01}, {0x80}, {0xC1, 0x01}, {0xC1, 0x80}} {
			in := in
			c.Guard(fmt.Sprintf("decode into %T", p), func() {
				err := rlp.DecodeBytes(in, p)
				c.Check(err != nil, "unsupported-decode", "%x decoded into unsupported target %T", in, p)
			})
			c.Count("rejected_types", 1)
		}
	}
}

// rlpTypes is a fixed list of target types for acceptance tests.
func rlpTypes() []reflect.Type {
	ts := rlpx.Leaves()
	for _, x := range []interface{}{
		[]uint{}, []uint8{}, [][]byte{}, []string{}, [2]uint16{}, [0]uint16{}, [1]rlp.RawValue{}, []rlp.RawValue{}, []rlpx.Cust{}, []*rlpx.Cust{}, [1]rlpx.Cust{}, []rlpx.PCust{}, [][]rlpx.Cust{},
		struct{}{}, struct{ A uint8 }{}, struct{ A, B uint8 }{}, struct{ A []uint8 }{}, struct{ A []bool }{},
		struct {
			A uint8 `rlp:"optional"`
		}{}, struct {
			A *uint8 `rlp:"nil"`
		}{}, struct {
			A *uint8 `rlp:"nilList"`
		}{}, struct {
			A *struct{ B uint8 } `rlp:"nilString"`
		}{}, struct {
			A []uint8
			B []uint8 `rlp:"optional"`
			C []uint  `rlp:"tail"`
		}{}, struct {
			A []uint `rlp:"tail"`
		}{}, struct {
			A *rlpx.Cust `rlp:"nil"`
		}{}, struct {
			A rlpx.Cust `rlp:"optional"`
			B uint      `rlp:"optional"`
		}{}, struct {
			A []rlpx.Cust
			B uint `rlp:"optional"`
		}{}, struct {
			A []rlpx.Cust `rlp:"tail"`
		}{}, struct {
			A, B *big.Int
		}{}, []interface{}{}, new(uint8), new(*uint8), [1]*big.Int{},
	} {
		ts = append(ts, reflect.TypeOf(x))
	}
	return ts
}

// rlpAccept compares one decode with the reference; returns whether it was accepted.
func rlpAccept(c *mon.Ctx, t reflect.Type, in []byte, opt bool) bool {
	d := reflect.New(t)
	err := rlp.DecodeBytes(in, d.Interface())
	ref, rerr := rlpx.Decode(t, in)
	if (err == nil) != (rerr == nil) {
		sig := "accepted-malformed"
		if err != nil {
			sig = "rejected-canonical"
		}
		c.Violate(sig, "input %s into %v: error %v, reference %v (value %s)", hexs(in), t, err, rerr, showVal(d.Elem()))
		return err == nil
	}
	if err != nil {
		return false
	}
	if !rlpx.Equal(d.Elem(), ref) {
		c.Violate("decoded-value", "input %s into %v: %s, reference %s", hexs(in), t, showVal(d.Elem()), showVal(ref))
		return true
	}
	out, err := rlp.EncodeToBytes(d.Interface())
	switch {
	case err != nil:
		c.Violate("reencode-error", "input %s decoded into %v but its encoding fails: %v", hexs(in), t, err)
	case opt:
		d2 := reflect.New(t)
		if err := rlp.DecodeBytes(out, d2.Interface()); err != nil || !rlpx.Equal(d2.Elem(), d.Elem()) {
			c.Violate("reencode-optional", "input %s into %v re-encodes to %s, which decodes to %s err %v", hexs(in), t, hexs(out), showVal(d2.Elem()), err)
		}
	case !bytes.Equal(out, in):
		c.Violate("not-canonical", "input %s into %v re-encodes to %s", hexs(in), t, hexs(out))
	}
	return true
}

// rlpTyped puts one input to every reading method of Stream, at the top level and
// inside a list, and compares what they accept, return and consume with the reference.
func rlpTyped(c *mon.Ctx, b []byte) {
	list, st, e, herr := rlpx.Head(b)
	var s []byte
	if herr == nil {
		s = b[st:e]
	}
	str := herr == nil && !list
	num := str && (len(s) == 0 || s[0] != 0)
	x := new(big.Int).SetBytes(s)
	for _, in := range []bool{false, true} {
		all := b
		if in {
			all = wrapList(b)
		}
		run := func(name string, ok bool, want interface{}, f func(s *rlp.Stream) (interface{}, error)) {
			rd := bytes.NewReader(all)
			st := rlp.NewStream(rd, 0)
			if in {
				if _, err := st.List(); err != nil {
					c.Violate("typed-list", "list of %s: %v", hexs(b), err)
					return
				}
			}
			got, err := f(st)
			c.Count("typed_reads", 1)
			if (err == nil) != ok {
				c.Violate("typed-"+name, "%s on %s (in a list: %v): %v error %v, accepted by the reference: %v", name, hexs(b), in, got, err, ok)
			} else if ok && (fmt.Sprint(got) != fmt.Sprint(want) || rd.Len() != len(b)-e) {
				c.Violate("typed-"+name, "%s on %s (in a list: %v): %v with %d bytes left, want %v and %d", name, hexs(b), in, got, rd.Len(), want, len(b)-e)
			}
		}
		run("Bytes", str, s, func(s *rlp.Stream) (interface{}, error) { return s.Bytes() })
		run("String", str, string(s), func(s *rlp.Stream) (interface{}, error) { return s.String() })
		run("Uint64", num && len(s) <= 8, x, func(s *rlp.Stream) (interface{}, error) { return s.Uint64() })
		run("Uint", num && len(s) <= 8, x, func(s *rlp.Stream) (interface{}, error) { return s.Uint() })
		run("Uint32", num && len(s) <= 4, x, func(s *rlp.Stream) (interface{}, error) { return s.Uint32() })
		run("Uint16", num && len(s) <= 2, x, func(s *rlp.Stream) (interface{}, error) { return s.Uint16() })
		run("Uint8", num && len(s) <= 1, x, func(s *rlp.Stream) (interface{}, error) { return s.Uint8() })
		run("Bool", num && x.Cmp(big.NewInt(1)) <= 0, x.Sign() > 0, func(s *rlp.Stream) (interface{}, error) { return s.Bool() })
		run("BigInt", num, x, func(s *rlp.Stream) (interface{}, error) { return s.BigInt() })
		run("ReadUint256", num && len(s) <= 32, x, func(s *rlp.Stream) (interface{}, error) {
			u := new(uint256.Int).SetAllOne()
			err := s.ReadUint256(u)
			return u.ToBig(), err
		})
		for n := len(s) - 1; n <= len(s)+1; n++ {
			if n < 0 {
				continue
			}
			run("ReadBytes", str && n == len(s), s, func(s *rlp.Stream) (interface{}, error) {
				d := bytes.Repeat([]byte{0xee}, n)
				err := s.ReadBytes(d)
				return d, err
			})
		}
	}
	if herr == nil {
		c.Count("typed_canonical", 1)
	}
	c.Case(herr != nil || num, hexs(b))
}

func runR02(c *mon.Ctx) {
	rlpHuge(c, hugeR02)
	ts := rlpTypes()
	c.Section("typed", func(_ *rand.Rand) {
		c.Cases("short", 256, func(a int, r *rand.Rand) {
			rlpTyped(c, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				rlpTyped(c, []byte{byte(a), byte(b)})
				if a >= 0x80 {
					rlpTyped(c, []byte{byte(a), byte(b), byte(r.Intn(256))})
				}
			}
		})
		c.Cases("long", c.N2(1500, 60000), func(i int, r *rand.Rand) {
			it := rlpx.RandItem(r, r.Intn(2))
			if i%3 != 0 {
				s := make([]byte, r.Intn(70))
				r.Read(s)
				if len(s) > 0 && r.Intn(3) == 0 {
					s[0] = byte(r.Intn(2))
				}
				it = rlpx.S(s)
			}
			b := rlpx.Enc(it)
			rlpTyped(c, b)
			rlpTyped(c, rlpx.Mutate(r, b))
		})
	})
	c.Section("exhaustive", func(_ *rand.Rand) {
		c.Cases("type", len(ts), func(i int, r *rand.Rand) {
			t := ts[i]
			opt := rlpx.HasOptional(t)
			acc, n := 0, 0
			try := func(in []byte) {
				n++
				if rlpAccept(c, t, in, opt) {
					acc++
				}
			}
			try(nil)
			for a := 0; a < 256; a++ {
				try([]byte{byte(a)})
				for b := 0; b < 256; b++ {
					try([]byte{byte(a), byte(b)})
				}
			}
			// longer ones over the bytes that matter
			al := []byte{0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xb7, 0xb8, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xf8}
			lens := []int{3, 4}
			if c.Thorough() {
				lens = []int{3, 4, 5}
			}
			for _, ln := range lens {
				total := 1
				for k := 0; k < ln; k++ {
					total *= len(al)
				}
				in := make([]byte, ln)
				for x := 0; x < total; x++ {
					y := x
					for k := range in {
						in[k] = al[y%len(al)]
						y /= len(al)
					}
					if in[0] < 0x80 {
						continue
					}
					try(in)
				}
			}
			if c.Thorough() {
				for x := 0; x < 1<<24; x++ {
					if x>>16 >= 0x80 {
						try([]byte{byte(x >> 16), byte(x >> 8), byte(x)})
					}
				}
			}
			c.Count("exhaustive", int64(n))
			c.Count("accepted", int64(acc))
			c.Count("rejected", int64(n-acc))
			c.Case(true, fmt.Sprintf("%v: %d inputs, %d accepted", t, n, acc))
		})
	})
	c.Section("mutated", func(_ *rand.Rand) {
		c.Cases("m", c.N2(15000, 200000), func(i int, r *rand.Rand) {
			t := ts[i%len(ts)]
			if i%2 == 0 {
				t = rlpx.RandType(r, 1+r.Intn(3))
			}
			opt := rlpx.HasOptional(t)
			base := rlpx.Encode(rlpx.Gen(r, t, false))
			for k := 0; k < 8; k++ {
				in := rlpx.Mutate(r, base)
				if rlpAccept(c, t, in, opt) {
					c.Count("mutated_accepted", 1)
					c.Count("accepted", 1)
				} else {
					c.Count("rejected", 1)
				}
				c.Case(!bytes.Equal(in, base), fmt.Sprintf("%v %s", t, hexs(in)))
			}
		})
	})
}

// errBeyond is what streamWalk reports when the stream announces a value that
// reaches beyond the list, or the input, it stands in.
type errBeyond string

func (e errBeyond) Error() string { return string(e) }

// streamWalk reads items with Stream until the end of the current context, which
// is reached when left bytes are still unread in rd.
func streamWalk(s *rlp.Stream, rd *bytes.Reader, depth int, left int) (its []rlpx.Item, err error) {
	for n := 0; ; n++ {
		k, size, err := s.Kind()
		if err == rlp.EOL && depth > 0 || err == io.EOF && depth == 0 {
			return its, nil
		}
		if err != nil {
			return nil, err
		}
		if rd.Len() < left || size > uint64(rd.Len()-left) {
			return nil, errBeyond(fmt.Sprintf("%v of %d bytes announced with %d bytes left in its list (depth %d)", k, size, rd.Len()-left, depth))
		}
		if k == rlp.List {
			ln, err := s.List()
			if err != nil {
				return nil, err
			}
			if ln != size {
				return nil, errBeyond(fmt.Sprintf("List says %d bytes, Kind said %d", ln, size))
			}
			sub, err := streamWalk(s, rd, depth+1, rd.Len()-int(size))
			if err != nil {
				return nil, err
			}
			if s.MoreDataInList() {
				return nil, errors.New("more-data-at-eol")
			}
			if err := s.ListEnd(); err != nil {
				return nil, err
			}
			its = append(its, rlpx.Item{List: true, Items: sub})
		} else {
			b, err := s.Bytes()
			if err != nil {
				return nil, err
			}
			its = append(its, rlpx.S(b))
		}
	}
}

func splitWalk(b []byte) (its []rlpx.Item, err error) {
	for len(b) > 0 {
		k, content, rest, err := rlp.Split(b)
		if err != nil {
			return nil, err
		}
		if len(rest) >= len(b) {
			return nil, errors.New("no-progress")
		}
		if k == rlp.List {
			sub, err := splitWalk(content)
			if err != nil {
				return nil, err
			}
			its = append(its, rlpx.Item{List: true, Items: sub})
		} else {
			its = append(its, rlpx.S(content))
		}
		b = rest
	}
	return its, nil
}

func encAll(its []rlpx.Item) []byte {
	var b []byte
	for _, it := range its {
		b = append(b, rlpx.Enc(it)...)
	}
	return b
}

func rlpReaders(c *mon.Ctx, b []byte) {
	bad := func(sig, format string, args ...interface{}) {
		c.Violate(sig, "input %s: %s", hexs(b), fmt.Sprintf(format, args...))
	}
	list, st, e, rerr := rlpx.Head(b)
	k, content, rest, err := rlp.Split(b)
	switch {
	case (err == nil) != (rerr == nil):
		bad("split", "Split error %v, reference %v", err, rerr)
	case err == nil:
		wk := rlp.String
		if list {
			wk = rlp.List
		} else if b[0] < 0x80 {
			wk = rlp.Byte
		}
		if k != wk || !bytes.Equal(content, b[st:e]) || !bytes.Equal(rest, b[e:]) {
			bad("split", "Split=%v %s | %s, reference [%d:%d]", k, hexs(content), hexs(rest), st, e)
		}
	}
	sc, sr, err := rlp.SplitString(b)
	if ok := rerr == nil && !list; (err == nil) != ok || ok && (!bytes.Equal(sc, b[st:e]) || !bytes.Equal(sr, b[e:])) {
		bad("split-string", "SplitString=%s | %s err %v", hexs(sc), hexs(sr), err)
	}
	sc, sr, err = rlp.SplitList(b)
	if ok := rerr == nil && list; (err == nil) != ok || ok && (!bytes.Equal(sc, b[st:e]) || !bytes.Equal(sr, b[e:])) {
		bad("split-list", "SplitList=%s | %s err %v", hexs(sc), hexs(sr), err)
	}
	u, ur, err := rlp.SplitUint64(b)
	okU := rerr == nil && !list && e-st <= 8 && (e == st || b[st] != 0)
	if (err == nil) != okU || okU && (u != new(big.Int).SetBytes(b[st:e]).Uint64() || !bytes.Equal(ur, b[e:])) {
		bad("split-uint", "SplitUint64=%d | %s err %v", u, hexs(ur), err)
	}
	// counting
	n, x := 0, b
	var cerr error
	for len(x) > 0 && cerr == nil {
		var ee int
		if _, _, ee, cerr = rlpx.Head(x); cerr == nil {
			x = x[ee:]
			n++
		}
	}
	cn, err := rlp.CountValues(b)
	if (err == nil) != (cerr == nil) || err == nil && cn != n {
		bad("count", "CountValues=%d err %v, reference %d err %v", cn, err, n, cerr)
	}
	// iterator
	it, err := rlp.NewListIterator(b)
	if (err == nil) != (rerr == nil && list) {
		bad("iterator-new", "NewListIterator error %v, reference list=%v %v", err, list, rerr)
	} else if err == nil {
		var want [][]byte
		x := b[st:e]
		var ierr error
		for len(x) > 0 && ierr == nil {
			var ee int
			if _, _, ee, ierr = rlpx.Head(x); ierr == nil {
				want = append(want, x[:ee])
				x = x[ee:]
			}
		}
		steps, seen := 0, 0
		var last error
		for it.Next() {
			if steps++; steps > len(b)+2 {
				bad("iterator-endless", "list iterator still has values after %d steps over %d bytes (Err=%v)", steps, len(b), it.Err())
				break
			}
			if last = it.Err(); last != nil {
				continue
			}
			if seen >= len(want) || !bytes.Equal(it.Value(), want[seen]) {
				bad("iterator-value", "value %d is %s, reference has %d values", seen, hexs(it.Value()), len(want))
				break
			}
			seen++
		}
		if steps <= len(b)+2 && (seen != len(want) || (it.Err() == nil) != (ierr == nil)) {
			bad("iterator", "iterator gave %d values, Err=%v; reference %d, %v", seen, it.Err(), len(want), ierr)
		}
		c.Count("iterated", 1)
	}
	// whole trees
	ref, perr := rlpx.ParseAll(b)
	sw, err := splitWalk(b)
	if (err == nil) != (perr == nil) || err == nil && !bytes.Equal(encAll(sw), b) {
		bad("split-tree", "walking with Split: %d items err %v, reference %v", len(sw), err, perr)
	}
	beyond := func(err error, what string) {
		if _, is := err.(errBeyond); is {
			bad("stream-beyond", "%s: %v", what, err)
		}
	}
	rd := bytes.NewReader(b)
	tw, err := streamWalk(rlp.NewStream(rd, 0), rd, 0, 0)
	beyond(err, "NewStream")
	if (err == nil) != (perr == nil) || err == nil && !bytes.Equal(encAll(tw), b) {
		bad("stream-tree", "walking with Stream: %d items err %v, reference %v", len(tw), err, perr)
	}
	// the lists alone bound the values of a stream whose length is not known
	if rerr == nil {
		_, perr := rlpx.ParseAll(b[:e])
		rd = bytes.NewReader(b[:e])
		tw, err = streamWalk(rlp.NewStream(struct{ rlp.ByteReader }{rd}, 0), rd, 0, 0)
		beyond(err, "stream without a limit")
		if (err == nil) != (perr == nil) || err == nil && !bytes.Equal(encAll(tw), b[:e]) {
			bad("stream-unlimited", "walking with Stream: %d items err %v, reference %v", len(tw), err, perr)
		}
		c.Count("unlimited", 1)
	}
	if len(b) > 0 {
		rd = bytes.NewReader(b)
		ls := rlp.NewListStream(rd, uint64(len(b)))
		_, err = ls.List()
		if err == nil {
			tw, err = streamWalk(ls, rd, 1, 0)
		}
		beyond(err, "NewListStream")
		if err == nil {
			err = ls.ListEnd()
		}
		if (err == nil) != (perr == nil) || err == nil && !bytes.Equal(encAll(tw), b) {
			bad("list-stream", "walking with NewListStream: %d items err %v, reference %v", len(tw), err, perr)
		}
	}
	// raw values
	rs := rlp.NewStream(bytes.NewReader(b), 0)
	x = b
	for {
		raw, err := rs.Raw()
		_, _, ee, herr := rlpx.Head(x)
		if len(x) > 1 && x[0] == 0x81 && x[1] < 0x80 {
			break // a raw value's content is documented as unchecked
		}
		if (err == nil) != (herr == nil) || err == nil && !bytes.Equal(raw, x[:ee]) {
			bad("raw", "Stream.Raw=%s err %v at %s", hexs(raw), err, hexs(x))
			break
		}
		if err != nil {
			break
		}
		x = x[ee:]
	}
	c.Count("inputs", 1)
	nested := false
	for _, it := range ref {
		for _, s := range it.Items {
			nested = nested || s.List
		}
	}
	if perr != nil {
		c.Count("malformed", 1)
	}
	if nested {
		c.Count("nested", 1)
	}
	if len(b) > 2 {
		c.Case(perr != nil || nested, hexs(b))
	}
}

func runR03(c *mon.Ctx) {
	rlpHuge(c, hugeR03)
	c.Section("exhaustive", func(_ *rand.Rand) {
		rlpReaders(c, nil)
		c.Cases("first", 256, func(a int, r *rand.Rand) {
			rlpReaders(c, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				rlpReaders(c, []byte{byte(a), byte(b)})
			}
			if a < 0x80 {
				return
			}
			for x := 0; x < 1<<16; x++ {
				if c.Thorough() || x%251 == a%251 {
					rlpReaders(c, []byte{byte(a), byte(x >> 8), byte(x)})
				}
			}
		})
	})
	c.Section("mutated", func(_ *rand.Rand) {
		c.Cases("m", c.N2(12000, 200000), func(i int, r *rand.Rand) {
			var b []byte
			for n := r.Intn(3); n >= 0; n-- {
				b = append(b, rlpx.Enc(rlpx.RandItem(r, r.Intn(5)))...)
			}
			rlpReaders(c, b)
			for k := 0; k < 8; k++ {
				rlpReaders(c, rlpx.Mutate(r, b))
			}
			if i%4 == 0 { // a list whose content is damaged behind a correct header
				rlpReaders(c, wrapList(rlpx.Mutate(r, b)))
			}
		})
	})
	c.Section("stream-model", func(_ *rand.Rand) {
		c.Cases("m", c.N2(6000, 120000), func(i int, r *rand.Rand) {
			s := rlp.NewStream(bytes.NewReader(nil), 0)
			for k := 0; k < 3; k++ { // the same stream, given up anywhere and reset
				streamModel(c, r, s)
			}
		})
	})
	c.Section("stream-calls", func(_ *rand.Rand) {
		c.Cases("s", c.N2(12000, 150000), func(i int, r *rand.Rand) {
			b := rlpx.Enc(rlpx.RandItem(r, 4))
			if r.Intn(2) == 0 {
				b = rlpx.Mutate(r, b)
			}
			rd := bytes.NewReader(b)
			s := rlp.NewStream(rd, []uint64{0, uint64(len(b)), uint64(len(b)) / 2, 1 << 20}[r.Intn(4)])
			var calls []string
			depth := 0
			for k := 0; k < 40; k++ {
				op := r.Intn(13)
				var err error
				switch op {
				case 0:
					_, size, e := s.Kind()
					if e == nil && size > uint64(len(b)) && len(b) > 0 {
						// a limit larger than the data allows it; the read must then fail
						_ = size
					}
					err = e
				case 1, 2:
					if _, err = s.List(); err == nil {
						depth++
					}
				case 3:
					more := s.MoreDataInList()
					if err = s.ListEnd(); err == nil {
						if more || depth == 0 {
							c.Violate("list-end", "input %s calls %v: ListEnd succeeded at depth %d with more data=%v", hexs(b), calls, depth, more)
						}
						depth--
					}
				case 4:
					_, err = s.Bytes()
				case 5:
					_, err = s.Raw()
				case 6:
					_, err = s.Uint64()
				case 7:
					_, err = s.Uint16()
				case 8:
					_, err = s.Bool()
				case 9:
					_, err = s.BigInt()
				case 10:
					err = s.ReadBytes(make([]byte, r.Intn(4)))
				case 11:
					err = s.ReadUint256(new(uint256.Int))
				default:
					var v interface{}
					if err = s.Decode(&v); err != nil {
						depth = 1 << 20 // may have stopped anywhere
					}
				}
				calls = append(calls, fmt.Sprintf("%d:%v", op, err))
				c.Count("stream_calls", 1)
			}
			c.Case(depth > 1, fmt.Sprintf("%s %v", hexs(b), calls))
		})
	})
}

// streamModel drives one Stream over the canonical encodings of some items with random calls and
// demands of every call what the position in the items prescribes: value, kind and size, the
// documented error for the other kind, EOL at the end of a list, io.EOF at the end of the input.
func streamModel(c *mon.Ctx, r *rand.Rand, s *rlp.Stream) {
	var top []rlpx.Item
	var b []byte
	for n := r.Intn(4); n >= 0; n-- {
		it := rlpx.RandItem(r, 4)
		if r.Intn(3) == 0 { // numbers and flags
			it = rlpx.U([]uint64{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, math.MaxUint64}[r.Intn(12)])
			if r.Intn(2) == 0 {
				it = rlpx.L(it, rlpx.U(uint64(r.Intn(3))), rlpx.S(nil))
			}
		}
		top = append(top, it)
		b = append(b, rlpx.Enc(it)...)
	}
	type frame struct {
		items []rlpx.Item
		i     int
		list  bool
	}
	stack := []frame{{items: top}}
	limit := uint64(0)
	src := r.Intn(7)
	if src != 6 {
		limit = []uint64{0, uint64(len(b)), uint64(len(b)) + 1 + uint64(r.Intn(100)), math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}[[]int{0, 0, 1, 1, 2, 2, 3, 4, 5}[r.Intn(9)]]
	}
	input := append([]byte{}, b...)
	switch src {
	case 0:
		s.Reset(bytes.NewReader(input), limit)
	case 1:
		s.Reset(bytes.NewBuffer(input), limit)
	case 2:
		s.Reset(strings.NewReader(string(input)), limit)
	case 3:
		s.Reset(newChunk(r, input, io.EOF), limit)
	case 4:
		s.Reset(bufio.NewReaderSize(bytes.NewReader(input), 16), limit)
	case 5: // a fresh one
		s = rlp.NewStream(bytes.NewReader(input), limit)
	default: // positioned at a list whose header is not in the input
		s = rlp.NewListStream(bytes.NewReader(input), uint64(len(b)))
		stack = []frame{{items: []rlpx.Item{rlpx.L(top...)}}}
	}
	peeked := false
	var calls []string
	fail := func(sig, format string, args ...interface{}) {
		c.Violate("stream-"+sig, "input %s source %d limit %d calls %v: %s", hexs(b), src, limit, calls, fmt.Sprintf(format, args...))
	}
	deep, ends := 0, 0
	for k := 0; k < 200; k++ {
		c.Count("stream_calls", 1)
		f := &stack[len(stack)-1]
		if len(stack) > deep {
			deep = len(stack)
		}
		atEnd := f.i >= len(f.items)
		var it rlpx.Item
		if !atEnd {
			it = f.items[f.i]
		}
		num := !atEnd && !it.List && (len(it.Str) == 0 || it.Str[0] != 0)
		x := new(big.Int).SetBytes(it.Str)
		wantErr := endErr(f.list)
		// ends and kinds the call has to report; returns true when the call must deliver a value
		judge := func(name string, err error, wantList bool) bool {
			calls = append(calls, name)
			switch {
			case atEnd:
				if err != wantErr {
					fail("end", "%s at the end gives %v, want %v", name, err, wantErr)
				}
				return false
			case wantList != it.List:
				want := rlp.ErrExpectedString
				if wantList {
					want = rlp.ErrExpectedList
				}
				if err != want {
					fail("kind-mismatch", "%s on the other kind gives %v, want %v", name, err, want)
				}
				peeked = true
				return false
			}
			return true
		}
		next := func() { f.i++; peeked = false }
		number := func(name string, bits int, err error, same bool) (stop bool) {
			if !judge(name, err, false) {
				return false
			}
			ok := num && x.BitLen() <= bits
			if ok != (err == nil) || ok && !same {
				fail("number", "%s on %x gives error %v, value right: %v", name, it.Str, err, same)
				return true
			}
			next()
			return !ok // where a failed number leaves the stream is not specified
		}
		op := r.Intn(20)
		if it.List && r.Intn(2) == 0 {
			op = 1
		}
		if atEnd && f.list && r.Intn(2) == 0 {
			op = 3
		}
		if op >= 9 && op <= 15 && !atEnd && !it.List && r.Intn(5) > 0 && !(num && x.BitLen() <= 8) {
			op = 6 // a number that does not fit ends the walk
		}
		if op >= 18 && !atEnd && it.List != (op == 18) {
			op = 8
		}
		switch op {
		case 0:
			kind, size, err := s.Kind()
			calls = append(calls, "Kind")
			if atEnd {
				if err != wantErr {
					fail("end", "Kind at the end gives %v %d %v", kind, size, err)
					return
				}
				continue
			}
			wk, ws := rlp.String, uint64(len(it.Str))
			if it.List {
				wk, ws = rlp.List, payloadLen(it)
			} else if len(it.Str) == 1 && it.Str[0] < 0x80 {
				wk, ws = rlp.Byte, 0
			}
			if err != nil || kind != wk || size != ws {
				fail("Kind", "Kind gives %v %d %v, want %v %d", kind, size, err, wk, ws)
				return
			}
			peeked = true
		case 1, 2:
			size, err := s.List()
			if judge("List", err, true) {
				if err != nil || size != payloadLen(it) {
					fail("List", "List gives %d %v, want %d", size, err, payloadLen(it))
					return
				}
				next()
				stack = append(stack, frame{items: it.Items, list: true})
			}
		case 3:
			if peeked { // the tag has been taken: only the value itself can follow
				continue
			}
			err := s.ListEnd()
			calls = append(calls, "ListEnd")
			if (err == nil) != (f.list && atEnd) {
				fail("ListEnd", "ListEnd gives %v in a list: %v, at its end: %v", err, f.list, atEnd)
				return
			}
			if err == nil {
				stack = stack[:len(stack)-1]
				ends++
			}
		case 4:
			if peeked {
				continue
			}
			calls = append(calls, "More")
			if m := s.MoreDataInList(); m != (f.list && !atEnd) {
				fail("MoreDataInList", "MoreDataInList gives %v in a list: %v, at its end: %v", m, f.list, atEnd)
				return
			}
		case 5, 6:
			got, err := s.Bytes()
			if judge("Bytes", err, false) {
				if err != nil || !bytes.Equal(got, it.Str) {
					fail("Bytes", "Bytes gives %x %v, want %x", got, err, it.Str)
					return
				}
				scribble(got)
				next()
			}
		case 7:
			got, err := s.String()
			if judge("String", err, false) {
				if err != nil || got != string(it.Str) {
					fail("String", "String gives %x %v, want %x", got, err, it.Str)
					return
				}
				next()
			}
		case 8:
			got, err := s.Raw()
			if atEnd {
				judge("Raw", err, false)
			} else {
				calls = append(calls, "Raw")
				if want := rlpx.Enc(it); err != nil || !bytes.Equal(got, want) {
					fail("Raw", "Raw gives %x %v, want %x", got, err, want)
					return
				}
				scribble(got)
				next()
			}
		case 9:
			v, err := s.Uint64()
			if number("Uint64", 64, err, x.IsUint64() && v == x.Uint64()) {
				return
			}
		case 10:
			v, err := s.Uint32()
			if number("Uint32", 32, err, uint64(v) == x.Uint64()) {
				return
			}
		case 11:
			v, err := s.Uint16()
			if number("Uint16", 16, err, uint64(v) == x.Uint64()) {
				return
			}
		case 12:
			v, err := s.Uint8()
			if number("Uint8", 8, err, uint64(v) == x.Uint64()) {
				return
			}
		case 13:
			v, err := s.Bool()
			if number("Bool", 1, err, v == (x.Sign() != 0)) {
				return
			}
		case 14:
			v, err := s.BigInt()
			if number("BigInt", 1<<30, err, err == nil && v.Cmp(x) == 0) {
				return
			}
		case 15:
			v := new(uint256.Int).SetUint64(77)
			err := s.ReadUint256(v)
			if number("ReadUint256", 256, err, err == nil && v.ToBig().Cmp(x) == 0) {
				return
			}
		case 16:
			n := len(it.Str)
			if r.Intn(4) == 0 {
				n = r.Intn(5)
			}
			d := make([]byte, n)
			err := s.ReadBytes(d)
			if judge("ReadBytes", err, false) {
				if (err == nil) != (n == len(it.Str)) || err == nil && !bytes.Equal(d, it.Str) {
					fail("ReadBytes", "ReadBytes into %d bytes gives %x %v, want %x", n, d, err, it.Str)
					return
				}
				if err != nil {
					return
				}
				next()
			}
		case 17:
			var v rlp.RawValue
			if err := s.Decode(&v); atEnd {
				judge("Decode raw", err, false)
			} else {
				calls = append(calls, "Decode raw")
				if want := rlpx.Enc(it); err != nil || !bytes.Equal(v, want) {
					fail("Decode", "decoding a raw value gives %x %v, want %x", []byte(v), err, want)
					return
				}
				next()
			}
		case 18:
			var v []rlp.RawValue
			if err := s.Decode(&v); atEnd {
				judge("Decode list", err, true)
			} else if !it.List {
				return // a failed Decode may have stopped anywhere
			} else {
				calls = append(calls, "Decode list")
				if err != nil || len(v) != len(it.Items) {
					fail("Decode", "decoding a list gives %d elements %v, want %d", len(v), err, len(it.Items))
					return
				}
				for j := range v {
					if !bytes.Equal(v[j], rlpx.Enc(it.Items[j])) {
						fail("Decode", "element %d of the decoded list is %x, want %x", j, []byte(v[j]), rlpx.Enc(it.Items[j]))
						return
					}
				}
				next()
			}
		default:
			var v []byte
			if err := s.Decode(&v); atEnd {
				judge("Decode bytes", err, false)
			} else if it.List {
				return
			} else {
				calls = append(calls, "Decode bytes")
				if err != nil || !bytes.Equal(v, it.Str) {
					fail("Decode", "decoding bytes gives %x %v, want %x", v, err, it.Str)
					return
				}
				next()
			}
		}
		if len(stack) == 1 && stack[0].i >= len(stack[0].items) && r.Intn(4) == 0 {
			break
		}
	}
	c.Count("stream_lists_ended", int64(ends))
	c.Case(deep > 1, fmt.Sprintf("%s %v", hexs(b), calls))
}

// endErr is what a Stream reports where nothing is left.
func endErr(list bool) error {
	if list {
		return rlp.EOL
	}
	return io.EOF
}

func payloadLen(it rlpx.Item) uint64 {
	n := 0
	for _, x := range it.Items {
		n += len(rlpx.Enc(x))
	}
	return uint64(n)
}

func wrapList(body []byte) []byte {
	// header of a list with this body, whatever the body is
	n := len(body)
	if n <= 55 {
		return append([]byte{0xC0 + byte(n)}, body...)
	}
	lb := big.NewInt(int64(n)).Bytes()
	return append(append([]byte{0xF7 + byte(len(lb))}, lb...), body...)
}

// ---------- R04 ----------

var errRW = errors.New("injected fault")

// rlpChunk delivers b in random pieces, then fails with end (io.EOF or an injected error).
type rlpChunk struct {
	b        []byte
	r        *rand.Rand
	end      error
	withData bool // deliver the end error together with the last piece
}

func (c *rlpChunk) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.b) == 0 {
		return 0, c.end
	}
	if c.r.Intn(16) == 0 {
		return 0, nil
	}
	n := 1 + c.r.Intn(len(p))
	if c.r.Intn(3) == 0 {
		n = 1
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	if len(c.b) == 0 && c.withData {
		return n, c.end
	}
	return n, nil
}

type chunkByteReader struct{ rlpChunk }

func (c *chunkByteReader) ReadByte() (byte, error) {
	if len(c.b) == 0 {
		return 0, c.end
	}
	x := c.b[0]
	c.b = c.b[1:]
	return x, nil
}

func newChunk(r *rand.Rand, b []byte, end error) io.Reader {
	cr := rlpChunk{b: b, r: r, end: end, withData: end == io.EOF && r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		return &chunkByteReader{cr}
	}
	return &cr
}

type faultWriter struct {
	b     []byte
	limit int // bytes accepted before failing; <0 never
	calls int
	once  int // the call that fails, >0; those after it succeed
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.calls == w.once {
		n := len(p) / 2
		w.b = append(w.b, p[:n]...)
		return n, errRW
	}
	if w.limit >= 0 && len(w.b)+len(p) > w.limit {
		n := w.limit - len(w.b)
		w.b = append(w.b, p[:n]...)
		return n, errRW
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

func runR04(c *mon.Ctx) {
	rlpHuge(c, hugeR04)
	leaves := rlpx.Leaves()
	c.Section("values", func(_ *rand.Rand) {
		c.Cases("v", c.N2(8000, 100000), func(i int, r *rand.Rand) {
			t := leaves[i%len(leaves)]
			if i%3 != 0 {
				t = rlpx.RandType(r, 1+r.Intn(3))
			}
			v := rlpx.Gen(r, t, false)
			want := rlpx.Encode(v)
			p := ptrTo(v).Interface()
			// writers
			w := &faultWriter{limit: -1}
			err := rlp.Encode(w, p)
			c.Check(err == nil && bytes.Equal(w.b, want), "encode-writer", "%v: Encode wrote %s err %v, want %s", t, hexs(w.b), err, hexs(want))
			for k := 0; k < 3 && len(want) > 0; k++ {
				lim := r.Intn(len(want))
				if k == 0 {
					lim = len(want) - 1
				}
				w := &faultWriter{limit: lim}
				if k == 2 {
					eb := rlp.NewEncoderBuffer(w)
					if err = rlp.Encode(eb, p); err == nil {
						err = eb.Flush()
					}
				} else {
					err = rlp.Encode(w, p)
				}
				c.Check(err == errRW && bytes.HasPrefix(want, w.b), "writer-fault", "%v: writer failing after %d of %d bytes: error %v, wrote %s", t, lim, len(want), err, hexs(w.b))
				c.Count("writer_faults", 1)
			}
			// a single write that fails, in whatever pieces the encoding is written
			for once := 1; once <= w.calls && once <= 12; once++ {
				fw := &faultWriter{limit: -1, once: once}
				if once%2 == 0 {
					eb := rlp.NewEncoderBuffer(fw)
					if err = rlp.Encode(eb, p); err == nil {
						err = eb.Flush()
					}
				} else {
					err = rlp.Encode(fw, p)
				}
				c.Check(err == errRW || fw.calls < once, "writer-fault-once", "%v: write %d of %d fails: error %v, wrote %s of %s", t, once, fw.calls, err, hexs(fw.b), hexs(want))
				c.Count("writer_faults", 1)
			}
			encReaders(c, r, t, p, want)
			// readers
			base := want
			if r.Intn(3) == 0 {
				base = rlpx.Mutate(r, want)
			}
			d0 := reflect.New(t)
			err0 := rlp.DecodeBytes(base, d0.Interface())
			for k := 0; k < 3; k++ {
				d := reflect.New(t)
				rd := newChunk(r, base, io.EOF)
				var err error
				if bytes.Equal(base, want) && r.Intn(2) == 0 {
					err = rlp.Decode(rd, d.Interface())
				} else if len(base) > 0 {
					err = rlp.NewStream(rd, uint64(len(base))).Decode(d.Interface())
				} else {
					continue
				}
				c.Count("chunked_decodes", 1)
				ok0 := err0 == nil || err0 == rlp.ErrMoreThanOneValue
				if (err == nil) != ok0 || ok0 && !rlpx.Equal(d.Elem(), d0.Elem()) {
					c.Violate("chunked-decode", "%v input %s: chunked %s err %v, from bytes %s err %v", t, hexs(base), showVal(d.Elem()), err, showVal(d0.Elem()), err0)
				}
			}
			// faults inside the value
			_, derr := rlpx.Decode(t, want)
			for k := 0; k < 4 && len(want) > 0 && derr == nil; k++ {
				cut := r.Intn(len(want))
				if k == 0 {
					cut = len(want) - 1
				}
				end := errRW
				if k == 1 {
					end = io.EOF
				}
				d := reflect.New(t)
				rd := newChunk(r, append([]byte{}, want[:cut]...), end)
				var err error
				if r.Intn(2) == 0 {
					err = rlp.Decode(rd, d.Interface())
				} else {
					err = rlp.NewStream(rd, uint64(len(want))).Decode(d.Interface())
				}
				c.Count("reader_faults", 1)
				if err == nil {
					c.Violate("reader-fault-lost", "%v encoding %s cut at %d with %v: decoded %s without error", t, hexs(want), cut, end, showVal(d.Elem()))
				} else if end == errRW && !errors.Is(err, errRW) {
					c.Violate("reader-fault-masked", "%v encoding %s: reader failed at %d with the injected error, decoder reports %v", t, hexs(want), cut, err)
				}
			}
			c.Case(len(want) > 3, t.String()+" "+hexs(base))
		})
	})
	c.Section("sequence", func(_ *rand.Rand) {
		// several values one after another from one reader: each decode stops exactly at its end
		c.Cases("q", c.N2(4000, 40000), func(i int, r *rand.Rand) {
			var all []byte
			var vals []reflect.Value
			for n := 1 + r.Intn(5); n > 0; n-- {
				t := rlpx.RandType(r, 2)
				v := rlpx.Gen(r, t, false)
				ref, err := rlpx.Decode(t, rlpx.Encode(v))
				if err != nil {
					continue
				}
				vals = append(vals, ref)
				all = append(all, rlpx.Encode(v)...)
			}
			one := &chunkByteReader{rlpChunk{b: all, r: r, end: io.EOF}}
			s := rlp.NewStream(&rlpChunk{b: all, r: r, end: io.EOF}, 0)
			for k, v := range vals {
				d, d2 := reflect.New(v.Type()), reflect.New(v.Type())
				err, err2 := s.Decode(d.Interface()), rlp.Decode(one, d2.Interface())
				if err != nil || err2 != nil || !rlpx.Equal(d.Elem(), v) || !rlpx.Equal(d2.Elem(), v) {
					c.Violate("sequence", "value %d of %d (%v): stream %s err %v, reader %s err %v, want %s", k, len(vals), v.Type(), showVal(d.Elem()), err, showVal(d2.Elem()), err2, showVal(v))
					return
				}
			}
			var x interface{}
			if len(vals) > 0 {
				e1, e2 := s.Decode(&x), rlp.Decode(one, &x)
				c.Check(e1 == io.EOF && e2 == io.EOF, "sequence-end", "after all values the stream gives %v and the reader %v", e1, e2)
			}
			c.Count("chunked_decodes", int64(len(vals)))
			c.Case(len(vals) > 1, hexs(all))
		})
	})
	c.Section("buffer", func(_ *rand.Rand) {
		c.Cases("b", c.N2(8000, 100000), func(i int, r *rand.Rand) { manualBuffer(c, r) })
	})
	c.Section("failed", func(_ *rand.Rand) {
		c.Cases("f", c.N2(3000, 40000), func(i int, r *rand.Rand) { failedEncoding(c, r) })
	})
}

func encReaders(c *mon.Ctx, r *rand.Rand, t reflect.Type, p interface{}, want []byte) {
	type er struct {
		rd   io.Reader
		got  []byte
		done bool
	}
	var rs []*er
	for k := 0; k < 1+r.Intn(3); k++ {
		size, rd, err := rlp.EncodeToReader(p)
		if err != nil || size != len(want) {
			c.Violate("enc-reader-size", "%v: EncodeToReader size %d err %v, want %d", t, size, err, len(want))
			return
		}
		rs = append(rs, &er{rd: rd})
		c.Count("enc_readers", 1)
	}
	if r.Intn(6) == 0 {
		rs[0].done = true // abandoned half way
		_, _ = rs[0].rd.Read(make([]byte, r.Intn(4)))
		rs[0].got = want
	}
	for steps := 0; ; steps++ {
		var open []*er
		for _, x := range rs {
			if !x.done {
				open = append(open, x)
			}
		}
		if len(open) == 0 {
			break
		}
		x := open[r.Intn(len(open))]
		buf := make([]byte, r.Intn(12))
		if r.Intn(3) == 0 {
			buf = make([]byte, 1+r.Intn(1+len(want)))
		}
		n, err := x.rd.Read(buf)
		if n < 0 || n > len(buf) {
			c.Violate("enc-reader-count", "%v: Read of %d bytes returned %d", t, len(buf), n)
			return
		}
		x.got = append(x.got, buf[:n]...)
		if err == io.EOF {
			x.done = true
			if n, err := x.rd.Read(make([]byte, 3)); n != 0 || err != io.EOF {
				c.Violate("enc-reader-eof", "%v: Read after EOF gives %d, %v", t, n, err)
			}
		} else if err != nil {
			c.Violate("enc-reader-error", "%v: Read: %v", t, err)
			return
		}
		if r.Intn(4) == 0 { // other encodings in between must not disturb it
			_, _ = rlp.EncodeToBytes([]interface{}{"other", []byte("data"), []uint{1, 2, 3}})
		}
		if len(x.got) > len(want) || steps > 40*(len(want)+10) {
			c.Violate("enc-reader-endless", "%v: reader delivered %d bytes of %d after %d reads", t, len(x.got), len(want), steps)
			return
		}
	}
	for _, x := range rs {
		c.Check(bytes.Equal(x.got, want), "enc-reader", "%v: reader delivered %s, want %s", t, hexs(x.got), hexs(want))
	}
}

// writeItem writes an item tree into an encoder buffer through randomly chosen methods.
func writeItem(r *rand.Rand, w rlp.EncoderBuffer, it rlpx.Item, log *[]string) error {
	note := func(s string) { *log = append(*log, s) }
	if it.List {
		if r.Intn(8) == 0 { // through a derived buffer
			note("derived")
			d := rlp.NewEncoderBuffer(w)
			if r.Intn(2) == 0 {
				d = rlp.NewEncoderBuffer(&w)
			}
			if r.Intn(4) == 0 && !doesPanic(func() { dd := d; dd.Reset(nil) }) {
				return errors.New("a derived buffer let itself be reset")
			}
			if err := writeItem(r, d, it, log); err != nil {
				return err
			}
			return d.Flush()
		}
		note("list")
		l := w.List()
		for _, x := range it.Items {
			if err := writeItem(r, w, x, log); err != nil {
				return err
			}
		}
		w.ListEnd(l)
		note("end")
		return nil
	}
	num := len(it.Str) == 0 || it.Str[0] != 0
	x := new(big.Int).SetBytes(it.Str)
	switch m := r.Intn(8); {
	case m == 0 && num && len(it.Str) <= 8:
		note("uint")
		w.WriteUint64(x.Uint64())
	case m == 1 && num:
		note("big")
		w.WriteBigInt(x)
	case m == 2 && num && len(it.Str) <= 32:
		note("u256")
		u, _ := uint256.FromBig(x)
		w.WriteUint256(u)
	case m == 3 && (len(it.Str) == 0 || len(it.Str) == 1 && it.Str[0] == 1):
		note("bool")
		w.WriteBool(len(it.Str) == 1)
	case m == 4:
		note("string")
		w.WriteString(string(it.Str))
	case m == 5:
		note("raw")
		b := rlpx.Enc(it)
		n, err := w.Write(b)
		if n != len(b) || err != nil {
			return fmt.Errorf("Write=%d,%v", n, err)
		}
		scribble(b)
	case m == 6:
		note("encode")
		return rlp.Encode(w, it.Str)
	default:
		note("bytes")
		b := append([]byte{}, it.Str...)
		w.WriteBytes(b)
		scribble(b)
	}
	return nil
}

func manualBuffer(c *mon.Ctx, r *rand.Rand) {
	var dst *faultWriter
	var w rlp.EncoderBuffer
	if r.Intn(2) == 0 {
		dst = &faultWriter{limit: -1}
		w = rlp.NewEncoderBuffer(dst)
	} else {
		w = rlp.NewEncoderBuffer(nil)
	}
	for round := 0; round < 1+r.Intn(3); round++ {
		var want []byte
		var log []string
		for n := r.Intn(4); n >= 0; n-- {
			it := rlpx.RandItem(r, 4)
			want = append(want, rlpx.Enc(it)...)
			if err := writeItem(r, w, it, &log); err != nil {
				c.Violate("buffer-write", "calls %v: %v", log, err)
				return
			}
			if r.Intn(4) == 0 { // looking at it does not change it
				if got := w.ToBytes(); !bytes.Equal(got, want) {
					c.Violate("buffer-bytes", "calls %v: ToBytes %s, want %s", log, hexs(got), hexs(want))
					return
				}
			}
		}
		got := w.ToBytes()
		pre := append(make([]byte, 0, 4+r.Intn(len(want)+10)), 9, 8, 7, 6)[:r.Intn(5)]
		keep := append([]byte{}, pre...)
		app := w.AppendToBytes(pre)
		c.Check(bytes.Equal(got, want), "buffer-bytes", "calls %v: ToBytes %s, want %s", log, hexs(got), hexs(want))
		c.Check(bytes.Equal(app, append(keep, want...)), "buffer-append", "calls %v: AppendToBytes %s, want %x then %s", log, hexs(app), keep, hexs(want))
		scribble(got)
		c.Count("manual_buffers", 1)
		c.Case(len(log) > 6, fmt.Sprintf("%v %s", log, hexs(want)))
		if round%2 == 0 {
			if dst != nil {
				dst.b = nil
			}
			err := w.Flush()
			if dst != nil {
				c.Check(err == nil && bytes.Equal(dst.b, want), "buffer-flush", "calls %v: Flush wrote %s err %v, want %s", log, hexs(dst.b), err, hexs(want))
			} else {
				c.Check(err == nil, "buffer-flush", "Flush: %v", err)
			}
		}
		if dst != nil {
			w.Reset(dst)
		} else {
			w.Reset(nil)
		}
		if b := w.ToBytes(); len(b) != 0 {
			c.Violate("buffer-reset", "buffer holds %s after Reset", hexs(b))
		}
	}
	_ = w.Flush()
}

// failedEncoding: an encoding that fails part-way leaves nothing at the writer, in the buffers
// other encodings use, or in the reader handed out.
func failedEncoding(c *mon.Ctx, r *rand.Rand) {
	var list []interface{}
	for n := r.Intn(5); n >= 0; n-- {
		list = append(list, rlpx.RandBytes(r))
	}
	var bad interface{} = []interface{}{make(chan int), -1, 1.5, map[string]int{"a": 1}, func() {}, new(big.Int).SetInt64(-7), failEnc{}}[r.Intn(7)]
	list = append(list, bad)
	for n := r.Intn(3); n > 0; n-- {
		list = append(list, "after")
	}
	var v interface{} = list
	if r.Intn(2) == 0 {
		v = []interface{}{"x", list, uint(7)}
	}
	w := &faultWriter{limit: -1}
	err := rlp.Encode(w, v)
	c.Check(err != nil && len(w.b) == 0, "failed-encode", "encoding a %T inside a list: error %v, %d bytes written", bad, err, len(w.b))
	b, err := rlp.EncodeToBytes(v)
	c.Check(err != nil && len(b) == 0, "failed-bytes", "encoding a %T inside a list: error %v, %d bytes", bad, err, len(b))
	n, rd, err := rlp.EncodeToReader(v)
	c.Check(err != nil && n == 0 && rd == nil, "failed-reader", "encoding a %T inside a list: error %v, size %d, reader %v", bad, err, n, rd != nil)
	_, isEnc := bad.(failEnc)
	if isEnc {
		c.Check(errors.Is(err, errRW), "failed-error", "the coder's own error became %v", err)
	}
	c.Count("failed_encodings", 3)
	// encodings taken up afterwards, all alive at once
	type live struct {
		rd   io.Reader
		eb   *rlp.EncoderBuffer
		want []byte
	}
	var ls []live
	for k := 0; k < 2+r.Intn(3); k++ {
		it := rlpx.RandItem(r, 2)
		want := rlpx.Enc(it)
		if r.Intn(2) == 0 {
			_, rd, err := rlp.EncodeToReader(rlp.RawValue(want))
			if err != nil {
				c.Violate("after-failure", "EncodeToReader after failed encodings: %v", err)
				return
			}
			ls = append(ls, live{rd: rd, want: want})
			continue
		}
		eb := rlp.NewEncoderBuffer(nil)
		var log []string
		if err := writeItem(r, eb, it, &log); err != nil {
			c.Violate("after-failure", "EncoderBuffer after failed encodings: %v", err)
			return
		}
		ls = append(ls, live{eb: &eb, want: want})
	}
	for _, l := range ls {
		var got []byte
		if l.rd != nil {
			got, _ = io.ReadAll(l.rd)
		} else {
			got = l.eb.ToBytes()
			_ = l.eb.Flush()
		}
		c.Check(bytes.Equal(got, l.want), "after-failure", "an encoding taken up after a failed one (%T) is %s, want %s", bad, hexs(got), hexs(l.want))
	}
	c.Case(len(ls) > 2, fmt.Sprintf("%T %d %d", bad, len(list), len(ls)))
}

type failEnc struct{}

func (failEnc) EncodeRLP(w io.Writer) error {
	_, _ = w.Write([]byte{1, 2, 3})
	return errRW
}

// ---------- R06 ----------

func runR06(c *mon.Ctx) {
	var mu sync.Mutex
	seen := map[string]bool{}
	c.Section("concurrent", func(_ *rand.Rand) {
		n := c.N2(700, 6000)
		for i := 0; i < n && c.Violations() == 0; i++ {
			r := c.Rand(fmt.Sprintf("c/%d", i))
			t := rlpx.RandType(r, 3)
			// a struct type no earlier round has seen
			t = reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("Z%d", i), Type: t}, {Name: "Y", Type: reflect.SliceOf(t)}})
			mu.Lock()
			if !seen[t.String()] {
				seen[t.String()] = true
				c.Count("fresh_types", 1)
			}
			mu.Unlock()
			v := rlpx.Gen(r, t, false)
			want := rlpx.Encode(v)
			ref, rerr := rlpx.Decode(t, want)
			p := ptrTo(v).Interface() // shared, read only
			bad := rlpx.Mutate(r, want)
			bref, berr := rlpx.Decode(t, bad)
			seeds := make([]int64, 8)
			for g := range seeds {
				seeds[g] = r.Int63()
			}
			mon.Parallel(8, func(g int) {
				c.Guard(fmt.Sprintf("round %d type %v", i, t), func() {
					gr := rand.New(rand.NewSource(seeds[g]))
					kept := &rlpKept{}
					for k := 0; k < 6; k++ {
						concurrentRLP(c, gr, t, p, want, ref, rerr, bad, bref, berr, kept)
						if gr.Intn(3) == 0 {
							runtime.Gosched()
						}
					}
					for k, b := range kept.bs {
						c.Check(bytes.Equal(b, want), "concurrent-kept", "%v: result %d of %d changed to %s after it was returned, was %s", t, k, len(kept.bs), hexs(b), hexs(want))
						c.Count("results_kept", 1)
					}
					for _, rd := range kept.rds {
						if n, err := rd.Read(make([]byte, 4)); n != 0 || err != io.EOF {
							c.Violate("concurrent-eof", "%v: a reader that was at its end delivers %d bytes, %v", t, n, err)
						}
					}
				})
			})
			c.Case(true, t.String()[:minI(len(t.String()), 300)])
		}
	})
	c.Section("plain", func(_ *rand.Rand) { rlpPlain(c) })
}

// rlpPlain has each goroutine encode values of its own, lists and single
// strings of every kind, and keeps the results: nothing another call does may
// show in them later.
func rlpPlain(c *mon.Ctx) {
	n := c.N2(60, 800)
	for i := 0; i < n && c.Violations() == 0; i++ {
		r := c.Rand(fmt.Sprintf("p/%d", i))
		seeds := make([]int64, 8)
		for g := range seeds {
			seeds[g] = r.Int63()
		}
		mon.Parallel(8, func(g int) {
			c.Guard(fmt.Sprintf("plain round %d", i), func() {
				gr := rand.New(rand.NewSource(seeds[g]))
				type kept struct{ what, got, want []byte }
				var ks []kept
				for k := 0; k < 24; k++ {
					var t reflect.Type
					if gr.Intn(4) == 0 {
						t = rlpx.RandType(gr, 2)
					} else {
						t = rlpx.RandType(gr, 0)
					}
					v := rlpx.Gen(gr, t, false)
					want := rlpx.Encode(v)
					x := ptrTo(v).Interface()
					var got []byte
					var err error
					switch gr.Intn(4) {
					case 0:
						eb := rlp.NewEncoderBuffer(nil)
						err = rlp.Encode(eb, x)
						got = eb.ToBytes()
						_ = eb.Flush()
					case 1:
						eb := rlp.NewEncoderBuffer(nil)
						err = rlp.Encode(eb, x)
						got = eb.AppendToBytes(make([]byte, 0, gr.Intn(40)))
						_ = eb.Flush()
					default:
						got, err = rlp.EncodeToBytes(x)
					}
					if err != nil || !bytes.Equal(got, want) {
						c.Violate("plain-encode", "%v: got %s err %v, want %s", t, hexs(got), err, hexs(want))
					}
					ks = append(ks, kept{[]byte(t.String()), got, want})
					if gr.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
				for k, e := range ks {
					c.Count("plain_kept", 1)
					if len(e.want) > 0 && e.want[0] < 0xc0 {
						c.Count("plain_strings_kept", 1)
					}
					c.Check(bytes.Equal(e.got, e.want), "plain-kept", "%s: result %d of %d changed to %s after it was returned, was %s", e.what, k, len(ks), hexs(e.got), hexs(e.want))
				}
			})
		})
		c.Case(true, fmt.Sprint("plain", i))
	}
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// rlpKept is what a goroutine keeps from earlier calls.
type rlpKept struct {
	bs  [][]byte
	rds []io.Reader
}

// rlpSlow is a writer that lets others run before it takes the bytes it is given.
type rlpSlow struct {
	b []byte
	r *rand.Rand
}

func (w *rlpSlow) Write(p []byte) (int, error) {
	for n := w.r.Intn(4); n > 0; n-- {
		if w.r.Intn(2) == 0 {
			_, _ = rlp.EncodeToBytes([]interface{}{"something", []byte("else"), []uint{1, 2, 3}})
		}
		runtime.Gosched()
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

func concurrentRLP(c *mon.Ctx, r *rand.Rand, t reflect.Type, p interface{}, want []byte, ref reflect.Value, rerr error, bad []byte, bref reflect.Value, berr error, kept *rlpKept) {
	c.Count("concurrent_calls", 1)
	chk := func(what string, got []byte, err error) {
		if err != nil || !bytes.Equal(got, want) {
			c.Violate("concurrent-"+what, "%v: %s gave %s err %v, want %s", t, what, hexs(got), err, hexs(want))
		}
	}
	dec := func(what string, d reflect.Value, err error, ref reflect.Value, rerr error) {
		if (err == nil) != (rerr == nil) || err == nil && !rlpx.Equal(d.Elem(), ref) {
			c.Violate("concurrent-"+what, "%v: %s gave %s err %v, reference %v", t, what, showVal(d.Elem()), err, rerr)
		}
	}
	d := reflect.New(t)
	switch r.Intn(8) {
	case 0:
		b, err := rlp.EncodeToBytes(p)
		chk("encode", b, err)
		if r.Intn(2) == 0 {
			kept.bs = append(kept.bs, b)
		} else {
			scribble(b)
		}
	case 1:
		w := &rlpSlow{r: r}
		err := rlp.Encode(w, p)
		chk("writer", w.b, err)
	case 7:
		w := &rlpSlow{r: r}
		eb := rlp.NewEncoderBuffer(w)
		err := rlp.Encode(eb, p)
		b := eb.ToBytes()
		if err == nil {
			err = eb.Flush()
		}
		chk("flush", w.b, err)
		kept.bs = append(kept.bs, b)
	case 2:
		_, rd, err := rlp.EncodeToReader(p)
		var b []byte
		if err == nil {
			b, err = io.ReadAll(&chunkReader2{rd, r})
			kept.rds = append(kept.rds, rd)
		}
		chk("reader", b, err)
	case 3:
		_, rd, err := rlp.EncodeToReader(p)
		if err == nil {
			_, _ = rd.Read(make([]byte, r.Intn(5)))
		}
		c.Count("abandoned_readers", 1)
	case 4:
		eb := rlp.NewEncoderBuffer(nil)
		err := rlp.Encode(eb, p)
		b := eb.ToBytes()
		_ = eb.Flush()
		chk("buffer", b, err)
	case 5:
		if r.Intn(3) == 0 {
			err := rlp.DecodeBytes(bad, d.Interface())
			dec("decode-bad", d, err, bref, berr)
		} else {
			err := rlp.DecodeBytes(want, d.Interface())
			dec("decode", d, err, ref, rerr)
		}
	default:
		err := rlp.Decode(newChunk(r, want, io.EOF), d.Interface())
		dec("decode-reader", d, err, ref, rerr)
	}
}

// chunkReader2 reads from rd in small pieces.
type chunkReader2 struct {
	rd io.Reader
	r  *rand.Rand
}

func (c *chunkReader2) Read(p []byte) (int, error) {
	if n := 1 + c.r.Intn(9); n < len(p) {
		p = p[:n]
	}
	return c.rd.Read(p)
}

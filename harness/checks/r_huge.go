package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"

	"github.com/ThinkiumGroup/go-common/rlp"

	"verif/harness/mon"
	"verif/harness/rlpx"
)

// payload lengths around the points where a header grows by one byte
var hugeLens = []int{254, 255, 256, 257, 65534, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<24 + 1}

// hugeItem is a string or a list of strings with exactly n bytes of payload.
func hugeItem(r *rand.Rand, n int, list bool) rlpx.Item {
	blob := func(n int) []byte {
		b := make([]byte, n)
		x := r.Uint32()
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
		return b
	}
	if !list {
		return rlpx.S(blob(n))
	}
	it := rlpx.L()
	for left := n; left > 0; {
		k := 1 + r.Intn(1+n/4) // encoded size of the next element
		if k > left || left-k < 8 {
			k = left
		}
		// a string whose encoding takes k bytes, or a shorter one where no string does
		c := k - 1
		for c > 0 && len(rlpx.Enc(rlpx.S(make([]byte, c)))) > k {
			c--
		}
		b := blob(c)
		if c == 1 {
			b[0] |= 0x80
		}
		e := len(rlpx.Enc(rlpx.S(b)))
		if k == 1 {
			b, e = []byte{5}, 1
		}
		it.Items = append(it.Items, rlpx.S(b))
		left -= e
	}
	return it
}

// rlpHuge runs the given judgement over strings and lists of every length in hugeLens.
func rlpHuge(c *mon.Ctx, judge func(c *mon.Ctx, r *rand.Rand, it rlpx.Item, enc []byte, what string)) {
	c.Section("huge", func(r *rand.Rand) {
		for _, n := range hugeLens {
			for _, list := range []bool{false, true} {
				it := hugeItem(r, n, list)
				enc := rlpx.Enc(it)
				what := fmt.Sprintf("a string of %d bytes", n)
				if list {
					what = fmt.Sprintf("a list of %d elements and %d bytes", len(it.Items), n)
				}
				c.Guard(what, func() { judge(c, r, it, enc, what) })
				c.Count("huge", 1)
				c.Case(true, what)
			}
		}
	})
}

func payload(it rlpx.Item) int {
	if !it.List {
		return len(it.Str)
	}
	n := 0
	for _, x := range it.Items {
		n += len(rlpx.Enc(x))
	}
	return n
}

func strsOf(it rlpx.Item) (out [][]byte) {
	for _, x := range it.Items {
		out = append(out, x.Str)
	}
	return
}

func hugeEqual(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func hugeR01(c *mon.Ctx, r *rand.Rand, it rlpx.Item, enc []byte, what string) {
	if it.List {
		in := strsOf(it)
		got, err := rlp.EncodeToBytes(in)
		c.Check(err == nil && bytes.Equal(got, enc), "huge-encode", "%s encodes to %s, %v, want %s", what, hexs(got), err, hexs(enc))
		var back [][]byte
		err = rlp.DecodeBytes(enc, &back)
		c.Check(err == nil && hugeEqual(back, in), "huge-decode", "%s decodes with %v to %d elements", what, err, len(back))
		type st struct {
			A uint64
			B []string
			C string `rlp:"optional"`
		}
		s := st{A: 77, C: "end"}
		for _, x := range in {
			s.B = append(s.B, string(x))
		}
		want := rlpx.Enc(rlpx.L(rlpx.U(77), it, rlpx.S([]byte("end"))))
		got, err = rlp.EncodeToBytes(&s)
		c.Check(err == nil && bytes.Equal(got, want), "huge-encode-struct", "a struct around %s encodes to %s, %v, want %s", what, hexs(got), err, hexs(want))
		var s2 st
		err = rlp.DecodeBytes(want, &s2)
		same := err == nil && s2.A == 77 && s2.C == "end" && len(s2.B) == len(s.B)
		for i := 0; same && i < len(s.B); i++ {
			same = s.B[i] == s2.B[i]
		}
		c.Check(same, "huge-decode-struct", "a struct around %s does not decode: %v", what, err)
		c.Check(rlp.ListSize(uint64(payload(it))) == uint64(len(enc)), "huge-list-size", "ListSize(%d)=%d, want %d", payload(it), rlp.ListSize(uint64(payload(it))), len(enc))
		return
	}
	got, err := rlp.EncodeToBytes(it.Str)
	c.Check(err == nil && bytes.Equal(got, enc), "huge-encode", "%s encodes to %s, %v, want %s", what, hexs(got), err, hexs(enc))
	got, err = rlp.EncodeToBytes(string(it.Str))
	c.Check(err == nil && bytes.Equal(got, enc), "huge-encode", "%s (as string) encodes to %s, %v, want %s", what, hexs(got), err, hexs(enc))
	var b []byte
	err = rlp.DecodeBytes(enc, &b)
	c.Check(err == nil && bytes.Equal(b, it.Str), "huge-decode", "%s decodes to %s, %v", what, hexs(b), err)
	var s string
	err = rlp.DecodeBytes(enc, &s)
	c.Check(err == nil && s == string(it.Str), "huge-decode", "%s decodes to a string of %d bytes, %v", what, len(s), err)
	c.Check(rlp.BytesSize(it.Str) == uint64(len(enc)) && rlp.StringSize(s) == uint64(len(enc)), "huge-size", "size of %s: %d / %d, want %d", what, rlp.BytesSize(it.Str), rlp.StringSize(s), len(enc))
}

func hugeR02(c *mon.Ctx, r *rand.Rand, it rlpx.Item, enc []byte, what string) {
	n := len(enc) - payload(it) - 2 // bytes of the length beyond the first
	hl := len(enc) - payload(it)
	bad := map[string][]byte{}
	bad["truncated"] = enc[: len(enc)-1 : len(enc)-1]
	bad["header alone"] = enc[:hl:hl]
	bad["half"] = enc[: len(enc)/2 : len(enc)/2]
	bad["trailing byte"] = append(mon.Clone(enc), 0)
	if n >= 0 {
		// the same length with a leading zero byte
		p := append([]byte{enc[0] + 1, 0}, enc[1:]...)
		bad["padded length"] = p
		up := mon.Clone(enc)
		up[hl-1]++
		if up[hl-1] != 0 {
			bad["length one too large"] = up
		}
		dn := mon.Clone(enc)
		if dn[hl-1] > 0 {
			dn[hl-1]--
			bad["length one too small"] = dn
		}
	}
	for name, in := range bad {
		var x interface{}
		e1 := rlp.DecodeBytes(in, &x)
		var e2 error
		if it.List {
			var v [][]byte
			e2 = rlp.DecodeBytes(in, &v)
		} else {
			var v []byte
			e2 = rlp.DecodeBytes(in, &v)
		}
		var raw rlp.RawValue
		e3 := rlp.DecodeBytes(in, &raw)
		c.Check(e1 != nil && e2 != nil && e3 != nil, "huge-accepted", "%s, %s: accepted (interface %v, typed %v, raw %v)", what, name, e1, e2, e3)
	}
	var x interface{}
	err := rlp.DecodeBytes(enc, &x)
	if !c.Check(err == nil, "huge-rejected", "%s: %v", what, err) {
		return
	}
	again, err := rlp.EncodeToBytes(x)
	c.Check(err == nil && bytes.Equal(again, enc), "huge-reencode", "%s decodes to something that encodes to %s, %v", what, hexs(again), err)
}

func hugeR03(c *mon.Ctx, r *rand.Rand, it rlpx.Item, enc []byte, what string) {
	tail := []byte{0x83, 1, 2, 3}
	in := append(mon.Clone(enc), tail...)
	hl := len(enc) - payload(it)
	k, content, rest, err := rlp.Split(in)
	c.Check(err == nil && (k == rlp.List) == it.List && bytes.Equal(content, enc[hl:]) && bytes.Equal(rest, tail), "huge-split", "Split of %s: %v, %d bytes, rest %s, %v", what, k, len(content), hexs(rest), err)
	cnt, err := rlp.CountValues(in)
	c.Check(err == nil && cnt == 2, "huge-count", "CountValues of %s and a short string: %d, %v", what, cnt, err)
	_, rs, e1 := rlp.SplitString(in)
	_, rl, e2 := rlp.SplitList(in)
	if it.List {
		c.Check(e1 != nil && e2 == nil && bytes.Equal(rl, tail), "huge-split-kind", "SplitString/SplitList of %s: %v, %v", what, e1, e2)
		cnt, err = rlp.CountValues(enc[hl:])
		c.Check(err == nil && cnt == len(it.Items), "huge-count", "CountValues inside %s: %d, %v", what, cnt, err)
		li, err := rlp.NewListIterator(enc)
		if c.Check(err == nil, "huge-iterator", "%s: %v", what, err) {
			i := 0
			for ; li.Next(); i++ {
				if i >= len(it.Items) || !bytes.Equal(li.Value(), rlpx.Enc(it.Items[i])) {
					c.Violate("huge-iterator", "%s: element %d is %s", what, i, hexs(li.Value()))
					break
				}
			}
			c.Check(li.Err() == nil && i == len(it.Items), "huge-iterator", "%s: %d elements, %v", what, i, li.Err())
		}
	} else {
		c.Check(e1 == nil && e2 != nil && bytes.Equal(rs, tail), "huge-split-kind", "SplitString/SplitList of %s: %v, %v", what, e1, e2)
	}
	for _, limit := range []uint64{0, uint64(len(in))} {
		s := rlp.NewStream(bytes.NewReader(in), limit)
		kk, size, err := s.Kind()
		c.Check(err == nil && (kk == rlp.List) == it.List && size == uint64(payload(it)), "huge-kind", "Kind of %s: %v, %d, %v", what, kk, size, err)
		if it.List {
			sz, err := s.List()
			c.Check(err == nil && sz == uint64(payload(it)), "huge-list", "List of %s: %d, %v", what, sz, err)
			for i, x := range it.Items {
				b, err := s.Bytes()
				if err != nil || !bytes.Equal(b, x.Str) {
					c.Violate("huge-element", "%s: element %d of %d is %s, %v", what, i, len(it.Items), hexs(b), err)
					return
				}
			}
			_, err = s.Bytes()
			c.Check(err == rlp.EOL, "huge-eol", "after the last element of %s: %v", what, err)
			c.Check(s.ListEnd() == nil, "huge-listend", "ListEnd of %s fails", what)
		} else if raw, err := s.Raw(); err != nil || !bytes.Equal(raw, enc) {
			c.Violate("huge-raw", "Raw of %s: %s, %v", what, hexs(raw), err)
			return
		}
		b, err := s.Bytes()
		c.Check(err == nil && bytes.Equal(b, tail[1:]), "huge-after", "the value after %s is %s, %v", what, hexs(b), err)
		_, _, err = s.Kind()
		c.Check(err == io.EOF, "huge-eof", "at the end of the input: %v", err)
	}
	// cut short: every reader reports it
	cut := enc[: len(enc)-1 : len(enc)-1]
	_, _, _, e3 := rlp.Split(cut)
	_, e4 := rlp.CountValues(cut)
	_, _, e5 := rlp.NewStream(bytes.NewReader(cut), 0).Kind()
	c.Check(e3 != nil && e4 != nil && e5 != nil, "huge-cut", "%s without its last byte: Split %v CountValues %v Kind %v", what, e3, e4, e5)
}

func hugeR04(c *mon.Ctx, r *rand.Rand, it rlpx.Item, enc []byte, what string) {
	var v interface{} = it.Str
	if it.List {
		v = strsOf(it)
	}
	w := &faultWriter{limit: -1}
	err := rlp.Encode(w, v)
	c.Check(err == nil && bytes.Equal(w.b, enc), "huge-writer", "%s written as %s, %v", what, hexs(w.b), err)
	size, rd, err := rlp.EncodeToReader(v)
	if c.Check(err == nil && size == len(enc), "huge-reader", "%s: reader of %d bytes, %v", what, size, err) {
		var out bytes.Buffer
		buf := make([]byte, 1+r.Intn(1+len(enc)/3))
		_, err = io.CopyBuffer(struct{ io.Writer }{&out}, struct{ io.Reader }{rd}, buf)
		c.Check(err == nil && bytes.Equal(out.Bytes(), enc), "huge-reader", "%s read in pieces of %d as %s, %v", what, len(buf), hexs(out.Bytes()), err)
	}
	eb := rlp.NewEncoderBuffer(nil)
	if it.List {
		at := eb.List()
		for _, x := range it.Items {
			eb.WriteBytes(x.Str)
		}
		eb.ListEnd(at)
	} else {
		eb.WriteString(string(it.Str))
	}
	got := eb.ToBytes()
	pre := eb.AppendToBytes([]byte{1, 2})
	_ = eb.Flush()
	c.Check(bytes.Equal(got, enc) && bytes.Equal(pre, append([]byte{1, 2}, enc...)), "huge-buffer", "%s through an encoder buffer: %s / %s", what, hexs(got), hexs(pre))
	// a list around it in a buffer that writes to a destination
	fw := &faultWriter{limit: -1}
	eb = rlp.NewEncoderBuffer(fw)
	at := eb.List()
	eb.WriteUint64(300)
	if err := rlp.Encode(eb, v); err != nil {
		c.Violate("huge-nested", "encoding %s into an encoder buffer: %v", what, err)
	}
	eb.WriteBool(true)
	eb.ListEnd(at)
	err = eb.Flush()
	want := rlpx.Enc(rlpx.L(rlpx.U(300), it, rlpx.U(1)))
	c.Check(err == nil && bytes.Equal(fw.b, want), "huge-nested", "%s inside a list: %s, %v, want %s", what, hexs(fw.b), err, hexs(want))
	// decoding from pieces
	dec := func(rd io.Reader) (out []byte, err error) {
		if it.List {
			var x [][]byte
			if err = rlp.Decode(rd, &x); err == nil && !hugeEqual(x, strsOf(it)) {
				err = errors.New("decoded to something else")
			}
			return nil, err
		}
		var x []byte
		if err = rlp.Decode(rd, &x); err == nil && !bytes.Equal(x, it.Str) {
			err = errors.New("decoded to something else")
		}
		return nil, err
	}
	_, err = dec(&pieces{b: enc, max: 1 + len(enc)/7})
	c.Check(err == nil, "huge-pieces", "decoding %s from pieces: %v", what, err)
	cut := r.Intn(len(enc))
	_, err = dec(&pieces{b: enc[:cut], max: 1 + len(enc)/5, end: errRW})
	c.Check(errors.Is(err, errRW), "huge-reader-error", "decoding %s from a reader failing after %d bytes: %v", what, cut, err)
	_, err = dec(&pieces{b: enc[:cut], max: 1 + len(enc)/5})
	c.Check(err != nil && (cut == 0 || err == io.ErrUnexpectedEOF), "huge-cut", "decoding %s cut after %d bytes: %v", what, cut, err)
	lim := r.Intn(len(enc))
	bw := &faultWriter{limit: lim}
	c.Check(errors.Is(rlp.Encode(bw, v), errRW), "huge-writer-error", "%s: the writer failed after %d bytes, Encode reports none", what, lim)
}

// pieces delivers b in pieces of at most max bytes.
type pieces struct {
	b   []byte
	max int
	end error
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		if p.end != nil {
			return 0, p.end
		}
		return 0, io.EOF
	}
	n := len(b)
	if n > p.max {
		n = p.max
	}
	n = copy(b[:n], p.b)
	p.b = p.b[n:]
	return n, nil
}

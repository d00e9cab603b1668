package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	common "github.com/ThinkiumGroup/go-common"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "C02",
		Rule:  "seeded slices (nil, empty, tiny, exact-size, oversized, sub-slices with live neighbours) passed to every helper; result compared with a byte-by-byte or bit-by-bit reference, arguments and their surroundings compared with a copy, promised copies scribbled over; non-trivial when a slice is nil, empty or has spare capacity holding guard bytes",
		Floor: map[string]int64{"calls": 200000, "guarded": 20000, "nil_or_empty": 10000}, Run: runC02})
}

// guarded makes a slice that lives inside a larger array, so that writes outside it are seen.
type guarded struct {
	all, s, was []byte
}

func guard(r *rand.Rand, n int) *guarded {
	pre, post := r.Intn(9), r.Intn(9)
	all := make([]byte, pre+n+post)
	r.Read(all)
	g := &guarded{all: all, s: all[pre : pre+n], was: mon.Clone(all)}
	return g
}

func (g *guarded) intact() bool { return bytes.Equal(g.all, g.was) }

func randLen(r *rand.Rand) int {
	if r.Intn(40) == 0 {
		return []int{127, 128, 129, 255, 256, 257, 300, 1000, 4096, 65536}[r.Intn(10)]
	}
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return r.Intn(5)
	case 3:
		return []int{7, 8, 9, 19, 20, 21, 31, 32, 33, 63, 64, 65}[r.Intn(12)]
	default:
		return r.Intn(80)
	}
}

// far is a position near n, in its middle, or absurd.
func far(r *rand.Rand, n int) int {
	switch r.Intn(4) {
	case 0:
		return n + r.Intn(5) - 2
	case 1:
		return r.Intn(n + 1)
	case 2:
		return []int{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 7, 1 << 62, 1 << 61, 1<<60 + 1, math.MinInt64, math.MinInt64 + 1, -1 << 61}[r.Intn(9)]
	}
	return []int{math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MinInt32, 1 << 40}[r.Intn(5)]
}

func bitAt(bs []byte, i int) byte { // bit 0 = lowest bit of the last byte
	return bs[len(bs)-1-i/8] >> uint(i%8) & 1
}

func hasNulOnly(s string) bool { return strings.Trim(s, "0123456789abcdefABCDEF") == "" }

func runC02(c *mon.Ctx) {
	c.Cases("copies", c.N2(3000, 40000), func(i int, r *rand.Rand) {
		for k := 0; k < 10; k++ {
			n := randLen(r)
			g := guard(r, n)
			in := g.s
			if n == 0 && r.Intn(2) == 0 {
				in = nil
			}
			if n == 0 {
				c.Count("nil_or_empty", 1)
			}
			c.Count("guarded", 1)
			c.Count("calls", 8)
			c.Case(n == 0 || cap(in) > n, fmt.Sprintf("%d %d %x", i, k, in))
			for name, f := range map[string]func([]byte) []byte{"CopyBytes": common.CopyBytes, "CloneByteSlice": common.CloneByteSlice} {
				out := f(in)
				if !bytes.Equal(out, in) || (out == nil) != (in == nil) {
					c.Violate(name, "%s(%x nil=%v) = %x nil=%v", name, in, in == nil, out, out == nil)
				}
				scribble(out[:cap(out)])
				c.Check(g.intact(), name+"-alias", "%s shares memory with its argument (%d bytes)", name, n)
			}
			l := r.Intn(90)
			if r.Intn(30) == 0 {
				l = []int{n - 1, n, n + 1, 255, 256, 300, -1}[r.Intn(7)]
			}
			lp, rp := common.LeftPadBytes(in, l), common.RightPadBytes(in, l)
			wl, wr := mon.Clone(in), mon.Clone(in)
			for len(wl) < l {
				wl = append([]byte{0}, wl...)
				wr = append(wr, 0)
			}
			c.Check(bytes.Equal(lp, wl), "LeftPadBytes", "LeftPadBytes(%x,%d)=%x", in, l, lp)
			c.Check(bytes.Equal(rp, wr), "RightPadBytes", "RightPadBytes(%x,%d)=%x", in, l, rp)
			c.Check(g.intact(), "Pad-modified", "padding changed its argument")
			if l > n {
				scribble(lp)
				scribble(rp)
				c.Check(g.intact(), "Pad-alias", "padding of %d bytes to %d shares memory with its argument", n, l)
			}
			// reverse works in place, on exactly that slice
			g2 := guard(r, n)
			out := common.ReverseBytes(g2.s)
			okr := len(out) == n
			for j := 0; okr && j < n; j++ {
				okr = out[j] == g2.was[len(g2.all)-cap(g2.s)+n-1-j]
			}
			c.Check(okr, "ReverseBytes", "ReverseBytes of %x gave %x", g2.was, out)
			common.ReverseBytes(out)
			c.Check(g2.intact(), "ReverseBytes-twice", "reversing twice changed %x to %x", g2.was, g2.all)
			// printing excerpts
			from, to := r.Intn(100)-10, r.Intn(100)-10
			if r.Intn(10) == 0 {
				from = far(r, n)
			}
			if r.Intn(10) == 0 {
				to = far(r, n)
			}
			fp := common.ForPrintSlice(in, from, to)
			c.Check(len(fp) <= n && (n == 0 || bytes.Contains(in, fp)), "ForPrintSlice", "ForPrintSlice(%x,%d,%d)=%x", in, from, to, fp)
			if from >= 0 && from < to && to <= n {
				c.Check(bytes.Equal(fp, in[from:to]), "ForPrintSlice-exact", "ForPrintSlice(%x,%d,%d)=%x", in, from, to, fp)
			}
			var arr [20]byte
			copy(arr[:], in)
			for _, v := range []interface{}{in, string(in), arr, &arr, common.Hash{1}, (*common.Hash)(nil), nil, 5, []int{1}, [0]byte{}, ""} {
				p := common.ForPrint(v, from, to)
				p2 := common.ForPrint(v)
				p3 := common.ForPrint(v, from)
				c.Check(p != nil && p2 != nil && p3 != nil && len(p2) <= 5, "ForPrint", "ForPrint(%T)=%x %x %x", v, p, p2, p3)
			}
			if from >= 0 && from < to && to <= 20 {
				c.Check(bytes.Equal(common.ForPrint(arr, from, to), arr[from:to]) && bytes.Equal(common.ForPrint(&arr, from, to), arr[from:to]), "ForPrint-array", "ForPrint(%x,%d,%d)", arr, from, to)
			}
			if from >= 0 && from < to && to <= n {
				c.Check(bytes.Equal(common.ForPrint(in, from, to), in[from:to]) && bytes.Equal(common.ForPrint(string(in), from, to), in[from:to]), "ForPrint-slice", "ForPrint(%x,%d,%d)", in, from, to)
			}
			c.Check(g.intact(), "ForPrint-modified", "printing changed its argument")
		}
	})
	c.Cases("hex", c.N2(2000, 30000), func(i int, r *rand.Rand) {
		const alphabet = "0123456789abcdefABCDEF"
		for k := 0; k < 10; k++ {
			n := randLen(r)
			b := make([]byte, n)
			for j := range b {
				b[j] = alphabet[r.Intn(len(alphabet))]
			}
			valid := true
			if n > 0 && r.Intn(3) == 0 {
				b[r.Intn(n)] = "gxzX -:\x00\xff"[r.Intn(9)]
			}
			s := string(b)
			valid = hasNulOnly(s)
			prefixed := r.Intn(2) == 0
			full := s
			if prefixed {
				full = []string{"0x", "0X"}[r.Intn(2)] + s
			}
			c.Count("calls", 8)
			if n == 0 {
				c.Count("nil_or_empty", 1)
			}
			c.Case(n == 0 || n%2 == 1 || !valid, full)
			hasP := len(full) >= 2 && full[0] == '0' && (full[1] == 'x' || full[1] == 'X')
			c.Check(common.HasHexPrefix(full) == hasP, "HasHexPrefix", "%q", full)
			c.Check(common.IsHex(s) == (valid && n%2 == 0), "IsHex", "IsHex(%q)=%v", s, common.IsHex(s))
			body := full
			if hasP {
				body = full[2:]
			}
			ref := func(t string) ([]byte, bool) { // own decoder
				if len(t)%2 != 0 || !hasNulOnly(t) {
					return nil, false
				}
				o := make([]byte, len(t)/2)
				for j := range o {
					o[j] = byte(strings.IndexByte("0123456789abcdef", t[2*j]|lowerBit(t[2*j])))<<4 | byte(strings.IndexByte("0123456789abcdef", t[2*j+1]|lowerBit(t[2*j+1])))
				}
				return o, true
			}
			want, ok := ref(body)
			got, err := common.DecodeHex(full)
			c.Check((err == nil) == ok && (!ok || bytes.Equal(got, want)), "DecodeHex", "DecodeHex(%q)=%x,%v want %x", full, got, err, want)
			if ok {
				c.Check(bytes.Equal(common.FromHex(full), want), "FromHex", "FromHex(%q)=%x want %x", full, common.FromHex(full), want)
				c.Check(bytes.Equal(common.Hex2Bytes(body), want), "Hex2Bytes", "%q", body)
				c.Check(common.Bytes2Hex(want) == strings.ToLower(body), "Bytes2Hex", "%x", want)
				fl := r.Intn(40)
				if r.Intn(10) == 0 {
					fl = len(want) + r.Intn(3) - 1
					if fl < 0 {
						fl = 0
					}
				}
				hf := common.Hex2BytesFixed(body, fl)
				wf := make([]byte, fl)
				for j := 0; j < fl && j < len(want); j++ {
					wf[fl-1-j] = want[len(want)-1-j]
				}
				c.Check(bytes.Equal(hf, wf), "Hex2BytesFixed", "Hex2BytesFixed(%q,%d)=%x want %x", body, fl, hf, wf)
			} else if valid && len(body)%2 == 1 && hasNulOnly(body) {
				w2, _ := ref("0" + body)
				c.Check(bytes.Equal(common.FromHex(full), w2), "FromHex-odd", "FromHex(%q)=%x want %x", full, common.FromHex(full), w2)
			}
			a40 := common.IsHexAddress(full)
			c.Check(a40 == (len(body) == 40 && hasNulOnly(body)), "IsHexAddress", "IsHexAddress(%q)=%v", full, a40)
		}
	})
	c.Cases("bits", c.N2(2000, 40000), func(i int, r *rand.Rand) {
		for k := 0; k < 10; k++ {
			n := randLen(r) % 12
			if r.Intn(10) == 0 {
				n = randLen(r) % 300
			}
			g := guard(r, n)
			from, size := r.Intn(100)-2, r.Intn(100)-2
			if r.Intn(8) == 0 {
				from = far(r, 8*n)
			}
			if r.Intn(8) == 0 {
				size = far(r, 8*n)
			}
			c.Count("calls", 2)
			c.Count("guarded", 1)
			out, err := common.SubBytes(g.s, from, size)
			c.Check(g.intact(), "SubBytes-modified", "SubBytes changed its argument")
			c.Case(n == 0 || from%8 != 0 && size%8 != 0, fmt.Sprintf("sub %x %d %d", g.s, from, size))
			switch {
			case from < 0 || size <= 0:
				c.Check(err != nil, "SubBytes-badargs", "SubBytes(%x,%d,%d)=%x,%v", g.s, from, size, out, err)
			case from >= 8*n:
				c.Check(err == nil && len(out) == 0, "SubBytes-beyond", "SubBytes(%x,%d,%d)=%x,%v", g.s, from, size, out, err)
			default:
				if size > 8*n-from {
					size = 8*n - from
				}
				ok := err == nil && len(out) == (size+7)/8
				for j := 0; ok && j < 8*len(out); j++ {
					w := byte(0)
					if j < size {
						w = bitAt(g.s, from+j)
					}
					ok = bitAt(out, j) == w
				}
				c.Check(ok, "SubBytes", "SubBytes(%x,%d,%d)=%x,%v", g.s, from, size, out, err)
				scribble(out)
				c.Check(g.intact(), "SubBytes-alias", "SubBytes result shares memory with its argument")
			}
			b0, b1 := byte(r.Intn(256)), byte(r.Intn(256))
			sh, l := uint8(r.Intn(8)), uint8(r.Intn(8)+1)
			v := uint16(b1)<<8 | uint16(b0)
			w := byte(v >> sh)
			c.Check(common.ShiftBits(b0, b1, sh) == w && common.ShiftBits(b0, b1, sh, 8) == w, "ShiftBits", "ShiftBits(%x,%x,%d)=%x want %x", b0, b1, sh, common.ShiftBits(b0, b1, sh), w)
			w = byte(uint16(w) & (1<<l - 1))
			c.Check(common.ShiftBits(b0, b1, sh, l) == w, "ShiftBits-len", "ShiftBits(%x,%x,%d,%d)=%x want %x", b0, b1, sh, l, common.ShiftBits(b0, b1, sh, l), w)
		}
	})
	c.Cases("lists", c.N2(2500, 30000), func(i int, r *rand.Rand) {
		for k := 0; k < 8; k++ {
			mkList := func() [][]byte {
				m := r.Intn(6)
				if m == 0 && r.Intn(2) == 0 {
					return nil
				}
				if r.Intn(15) == 0 {
					m = 10 + r.Intn(300)
				}
				l := make([][]byte, m)
				for j := range l {
					switch r.Intn(5) {
					case 2: // long ones that differ at the end or in length only
						l[j] = bytes.Repeat([]byte{7}, 30+r.Intn(5))
						if r.Intn(2) == 0 {
							l[j][len(l[j])-1] = byte(r.Intn(3))
						}
					case 0:
						l[j] = nil
					case 1:
						l[j] = []byte{}
					default:
						l[j] = make([]byte, r.Intn(3))
						for x := range l[j] {
							l[j][x] = byte(r.Intn(2))
						}
					}
				}
				return l
			}
			a, b := mkList(), mkList()
			dump := func(l [][]byte) string { return fmt.Sprintf("%x", l) }
			da, db := dump(a), dump(b)
			c.Count("calls", 8)
			c.Case(len(a) == 0 || len(b) == 0 || len(a[0]) == 0, da+db)
			if len(a) == 0 {
				c.Count("nil_or_empty", 1)
			}
			// concatenation
			cat := common.ConcatenateBytes(a)
			var w []byte
			for _, x := range a {
				w = append(w, x...)
			}
			c.Check(cat != nil && bytes.Equal(cat, w), "ConcatenateBytes", "%s -> %x", da, cat)
			scribble(cat)
			c.Check(dump(a) == da, "ConcatenateBytes-alias", "writing to the result changed the argument")
			// deep copy
			cp := common.CopyBytesSlice(a)
			okc := (cp == nil) == (a == nil) && len(cp) == len(a)
			for j := 0; okc && j < len(a); j++ {
				okc = bytes.Equal(cp[j], a[j]) && (cp[j] == nil) == (a[j] == nil)
			}
			c.Check(okc, "CopyBytesSlice", "%s -> %s", da, dump(cp))
			for _, x := range cp {
				scribble(x)
			}
			c.Check(dump(a) == da, "CopyBytesSlice-alias", "writing to the copy changed the original")
			// equality
			eq := len(a) == len(b)
			for j := 0; eq && j < len(a); j++ {
				eq = bytes.Equal(a[j], b[j])
			}
			c.Check(common.BytesSliceEqual(a, b) == eq, "BytesSliceEqual", "%s %s", da, db)
			c.Check(common.BytesSliceEqual(a, append([][]byte(nil), a...)), "BytesSliceEqual-self", "%s", da)
			// intersections are sets
			ma, inter := map[string]struct{}{}, map[string]bool{}
			for _, x := range a {
				ma[string(x)] = struct{}{}
			}
			for _, x := range b {
				if _, ok := ma[string(x)]; ok {
					inter[string(x)] = true
				}
			}
			for name, got := range map[string][][]byte{"BytesIntersection": common.BytesIntersection(a, b), "BytesIntersectionMap": common.BytesIntersectionMap(ma, b)} {
				seen := map[string]bool{}
				for _, x := range got {
					if seen[string(x)] {
						c.Violate(name+"-dup", "%s of %s and %s = %s", name, da, db, dump(got))
					}
					seen[string(x)] = true
				}
				c.Check(fmt.Sprint(hexKeys(seen)) == fmt.Sprint(hexKeys(inter)), name, "%s of %s and %s = %s", name, da, db, dump(got))
			}
			c.Check(dump(a) == da && dump(b) == db, "lists-modified", "arguments changed: %s -> %s, %s -> %s", da, dump(a), db, dump(b))
			// splitting
			sz := r.Intn(5) + 1
			parts := r.Intn(5)
			flat := make([]byte, sz*parts)
			r.Read(flat)
			fw := mon.Clone(flat)
			sp, err := common.SplitBytes(flat, sz)
			oks := err == nil && len(sp) == parts
			for j := 0; oks && j < parts; j++ {
				oks = bytes.Equal(sp[j], flat[j*sz:(j+1)*sz])
			}
			c.Check(oks, "SplitBytes", "SplitBytes(%x,%d)=%x,%v", flat, sz, sp, err)
			for _, x := range sp {
				scribble(x)
			}
			c.Check(bytes.Equal(flat, fw), "SplitBytes-alias", "writing to a piece changed the argument")
			if sz > 1 {
				_, err = common.SplitBytes(append(mon.Clone(flat), 1), sz)
				c.Check(err != nil, "SplitBytes-length", "SplitBytes of %d bytes by %d accepted", len(flat)+1, sz)
			}
			if out := far(r, len(flat)); out <= 0 || out > len(flat) {
				sp, err = common.SplitBytes(flat, out)
				if out <= 0 {
					c.Check(err != nil, "SplitBytes-size", "SplitBytes of %d bytes by %d gave %d pieces", len(flat), out, len(sp))
				} else {
					c.Check((err == nil) == (len(flat) == 0) && len(sp) == 0, "SplitBytes-size", "SplitBytes of %d bytes by %d gave %d pieces, %v", len(flat), out, len(sp), err)
				}
			}
			// printing
			pl := r.Intn(6) + 1
			ps := common.PrintBytesSlice(a, pl)
			var items []string
			for _, x := range a {
				if len(x) > pl {
					x = x[:pl]
				}
				items = append(items, hex.EncodeToString(x))
			}
			c.Check(ps == "["+strings.Join(items, ", ")+"]", "PrintBytesSlice", "%s -> %s", da, ps)
			// node id lists: exact length, no duplicates
			m := r.Intn(4)
			if r.Intn(20) == 0 {
				m = 20 + r.Intn(100)
			}
			var raw [][]byte
			bad := ""
			for j := 0; j < m; j++ {
				x := make([]byte, common.NodeIDBytes)
				r.Read(x)
				raw = append(raw, x)
			}
			if m > 0 {
				switch r.Intn(4) {
				case 0:
					raw[r.Intn(m)] = make([]byte, []int{0, 1, 63, 65}[r.Intn(4)])
					bad = "length"
				case 1:
					if m > 1 {
						raw[m-1-r.Intn(m-1)] = mon.Clone(raw[0])
						bad = "duplicate"
					}
				}
			}
			ids, err := common.ByteSlicesToNodeIDs(raw)
			c.Check((err != nil) == (bad != ""), "ByteSlicesToNodeIDs-error", "%d ids with bad %q: %v", m, bad, err)
			if err == nil {
				okn := len(ids) == m
				for j := 0; okn && j < m; j++ {
					okn = bytes.Equal(ids[j][:], raw[j])
				}
				c.Check(okn, "ByteSlicesToNodeIDs", "%d ids", m)
				back := ids.ToBytesSlice()
				c.Check(common.BytesSliceEqual(back, raw), "NodeIDs.ToBytesSlice", "%d ids", m)
				for _, x := range back {
					scribble(x)
				}
				for j := 0; okn && j < m; j++ {
					c.Check(bytes.Equal(ids[j][:], raw[j]), "NodeIDs.ToBytesSlice-alias", "id %d changed", j)
				}
			}
			// comparisons are orders: nil first, then by length, then elementwise
			cmpB := func(x, y interface{}) int { return bytes.Compare(x.([]byte), y.([]byte)) }
			wc := func(a, b [][]byte) int {
				switch {
				case a == nil && b == nil:
					return 0
				case a == nil:
					return -1
				case b == nil:
					return 1
				case len(a) != len(b):
					if len(a) < len(b) {
						return -1
					}
					return 1
				}
				for j := range a {
					if p := bytes.Compare(a[j], b[j]); p != 0 {
						return p
					}
				}
				return 0
			}
			c.Check(common.CompareSlices(a, b, cmpB) == wc(a, b) && common.CompareSlices(b, a, cmpB) == -wc(a, b), "CompareSlices", "%s %s", da, db)
			ptrs := []*int{nil, nil, new(int), new(int)}
			x, y := r.Intn(6)-1, r.Intn(6)-1
			less, need := common.PointerSliceLess(ptrs, x, y)
			in := func(v int) bool { return v >= 0 && v < 4 }
			wantLess, wantNeed := false, false
			if in(x) && in(y) && x != y {
				wantNeed = x >= 2 && y >= 2
				wantLess = x < 2 && y >= 2
			}
			c.Check(less == wantLess && need == wantNeed, "PointerSliceLess", "(%d,%d)=%v,%v", x, y, less, need)
			if in(x) && in(y) {
				pc, nc := common.PointerCompare(ptrs[x], ptrs[y])
				wp := 0
				if x < 2 && y >= 2 {
					wp = -1
				} else if x >= 2 && y < 2 {
					wp = 1
				}
				c.Check(pc == wp && nc == (x >= 2 && y >= 2), "PointerCompare", "(%d,%d)=%d,%v", x, y, pc, nc)
			}
			p := strings.Repeat("a", r.Intn(3)) + []string{"", "/", "b"}[r.Intn(3)]
			fp := common.FormalizeBasePath(p)
			c.Check(strings.HasSuffix(fp, "/") && (p == "" && fp == "./" || p != "" && strings.TrimSuffix(fp, "/") == strings.TrimSuffix(p, "/")), "FormalizeBasePath", "%q -> %q", p, fp)
		}
	})
}

func lowerBit(ch byte) byte {
	if ch >= 'A' && ch <= 'F' {
		return 0x20
	}
	return 0
}

func hexKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, fmt.Sprintf("%x", k))
	}
	sort.Strings(r)
	return r
}

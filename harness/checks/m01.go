package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	cmath "github.com/ThinkiumGroup/go-common/math"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "M01",
		Rule:  "seeded operands biased to zero, powers of two +-1, word boundaries, 64/256-bit extremes and negatives; every result compared with exact math/big arithmetic and every argument compared with a copy taken before; non-trivial when an operand lies within 2 of a power of two at a word boundary or a result overflowed",
		Floor: map[string]int64{"ops": 200000, "overflows": 2000, "fractions": 5000, "forms": 20000}, Run: runM01})
}

// edgeInt yields integers clustered at the interesting boundaries, up to bits wide.
func edgeInt(r *rand.Rand, bits int, signed bool) *big.Int {
	var x *big.Int
	switch r.Intn(6) {
	case 0:
		x = big.NewInt(int64(r.Intn(4)))
	case 1, 2:
		k := []int{8, 31, 32, 53, 63, 64, 65, 127, 128, 160, 191, 192, 254, 255, 256, 257, 320}[r.Intn(17)]
		if k > bits {
			k = r.Intn(bits) + 1
		}
		x = new(big.Int).Lsh(big.NewInt(1), uint(k))
		x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
	case 3:
		x = new(big.Int).Lsh(big.NewInt(int64(r.Intn(255)+1)), uint(r.Intn(bits)))
	default:
		n := r.Intn(bits) + 1
		x = new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(n)))
	}
	if x.BitLen() > bits {
		x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
	}
	if signed && r.Intn(2) == 0 {
		x.Neg(x)
	} else if x.Sign() < 0 {
		x.Neg(x)
	}
	return x
}

func edgeU64(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(3))
	case 1:
		return math.MaxUint64 - uint64(r.Intn(3))
	case 2:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 3:
		return uint64(1)<<32 + uint64(r.Intn(5)) - 2
	default:
		return r.Uint64() >> uint(r.Intn(64))
	}
}

var (
	bigTwo256 = new(big.Int).Lsh(big.NewInt(1), 256)
	bigTwo255 = new(big.Int).Lsh(big.NewInt(1), 255)
)

func floorQuo(num, den *big.Int) *big.Int {
	q, m := new(big.Int).QuoRem(num, den, new(big.Int)) // truncated
	if m.Sign() != 0 && (m.Sign() < 0) != (den.Sign() < 0) {
		q.Sub(q, big.NewInt(1))
	}
	return q
}

// frozen remembers argument values and demands that a call left them alone.
type frozen struct {
	xs   []*big.Int
	vals []string
}

func freeze(xs ...*big.Int) *frozen {
	f := &frozen{xs: xs}
	for _, x := range xs {
		f.vals = append(f.vals, x.String())
	}
	return f
}

func (f *frozen) check(c *mon.Ctx, what string) {
	for i, x := range f.xs {
		c.Check(x.String() == f.vals[i], "argument-modified-"+what, "%s changed argument %d from %s to %s", what, i, f.vals[i], x)
	}
}

func runM01(c *mon.Ctx) {
	c.Cases("safe64", c.N2(400, 4000), func(i int, r *rand.Rand) {
		of := 0
		for k := 0; k < 100; k++ {
			x, y := edgeU64(r), edgeU64(r)
			bx, by := new(big.Int).SetUint64(x), new(big.Int).SetUint64(y)
			type op struct {
				name string
				f    func(x, y uint64) (uint64, bool)
				e    *big.Int
			}
			for _, o := range []op{
				{"SafeAdd", cmath.SafeAdd, new(big.Int).Add(bx, by)},
				{"SafeSub", cmath.SafeSub, new(big.Int).Sub(bx, by)},
				{"SafeMul", cmath.SafeMul, new(big.Int).Mul(bx, by)},
			} {
				v, over := o.f(x, y)
				fits := o.e.IsUint64()
				if !fits {
					of++
				}
				c.Check(over == !fits, o.name+"-flag", "%s(%d, %d): overflow=%v, exact %s", o.name, x, y, over, o.e)
				if fits {
					c.Check(v == o.e.Uint64(), o.name+"-value", "%s(%d, %d)=%d, exact %s", o.name, x, y, v, o.e)
				}
			}
			if k%10 == 0 {
				c.Case(x > math.MaxUint64-3 || y > math.MaxUint64-3, fmt.Sprintf("s64 %d %d", x, y))
			}
		}
		c.Count("ops", 300)
		c.Count("overflows", int64(of))
	})
	c.Cases("fixed256", c.N2(1500, 20000), func(i int, r *rand.Rand) {
		for k := 0; k < 10; k++ {
			x := edgeInt(r, 320, true)
			y := edgeInt(r, 320, true)
			c.Case(x.BitLen() >= 255 && x.BitLen() <= 257, "fx "+x.String())
			c.Count("ops", 12)
			f := freeze(x, y)
			mx, mn := cmath.BigMax(x, y), cmath.BigMin(x, y)
			c.Check(mx.Cmp(x) >= 0 && mx.Cmp(y) >= 0 && (mx.Cmp(x) == 0 || mx.Cmp(y) == 0), "BigMax", "BigMax(%s,%s)=%s", x, y, mx)
			c.Check(mn.Cmp(x) <= 0 && mn.Cmp(y) <= 0 && (mn.Cmp(x) == 0 || mn.Cmp(y) == 0), "BigMin", "BigMin(%s,%s)=%s", x, y, mn)
			f.check(c, "BigMax/BigMin")
			a := new(big.Int).Abs(x)
			// FirstBitSet
			want := a.BitLen()
			for b := 0; b < a.BitLen(); b++ {
				if a.Bit(b) == 1 {
					want = b
					break
				}
			}
			fa := freeze(a)
			c.Check(cmath.FirstBitSet(a) == want, "FirstBitSet", "FirstBitSet(%x)=%d want %d", a, cmath.FirstBitSet(a), want)
			// PaddedBigBytes / ReadBits / Byte
			n := []int{0, 1, 2, 8, 16, 31, 32, 33, 40, 41, 47, 48, 55, 56, 57, 64, 65, 100, 128, 129, 255, 256, 300}[r.Intn(23)]
			pb := cmath.PaddedBigBytes(a, n)
			if len(pb) < n || (len(pb) > n && len(pb) != len(a.Bytes())) || new(big.Int).SetBytes(pb).Cmp(a) != 0 {
				c.Violate("PaddedBigBytes", "PaddedBigBytes(%x, %d) = %x", a, n, pb)
			}
			buf := make([]byte, n)
			r.Read(buf)
			for j := range buf {
				buf[j] = 0 // ReadBits fills only the significant part; the caller provides a zeroed buffer
			}
			cmath.ReadBits(a, buf)
			ab := a.Bytes()
			exp := make([]byte, n)
			for j := 0; j < n && j < len(ab); j++ {
				exp[n-1-j] = ab[len(ab)-1-j]
			}
			c.Check(mon.Eq(buf, exp), "ReadBits", "ReadBits(%x, %d bytes) = %x want %x", a, n, buf, exp)
			pl, idx := r.Intn(45), r.Intn(45)
			if r.Intn(8) == 0 {
				pl, idx = []int{54, 55, 56, 64, 127, 128, 255, 256, 300}[r.Intn(9)], r.Intn(301)
			}
			var wb byte
			if idx < pl {
				if p := pl - 1 - idx; p < len(ab) {
					wb = ab[len(ab)-1-p]
				}
			}
			c.Check(cmath.Byte(a, pl, idx) == wb, "Byte", "Byte(%x,%d,%d)=%x want %x", a, pl, idx, cmath.Byte(a, pl, idx), wb)
			fa.check(c, "FirstBitSet/PaddedBigBytes/ReadBits/Byte")
			// U256 is documented destructive: result is the argument reduced
			red := new(big.Int).Mod(x, bigTwo256)
			xc := new(big.Int).Set(x)
			c.Check(cmath.U256(xc).Cmp(red) == 0, "U256", "U256(%s)=%s want %s", x, xc, red)
			ub := cmath.U256Bytes(new(big.Int).Set(x))
			c.Check(len(ub) == 32 && new(big.Int).SetBytes(ub).Cmp(red) == 0, "U256Bytes", "U256Bytes(%s)=%x", x, ub)
			// S256
			rc := new(big.Int).Set(red)
			s := cmath.S256(rc)
			ws := new(big.Int).Set(red)
			if ws.Cmp(bigTwo255) >= 0 {
				ws.Sub(ws, bigTwo256)
			}
			c.Check(s.Cmp(ws) == 0 && rc.Cmp(red) == 0, "S256", "S256(%s)=%s want %s, argument now %s", red, s, ws, rc)
			// Exp
			e := edgeInt(r, []int{3, 8, 70, 256}[r.Intn(4)], false)
			base := edgeInt(r, 256, false)
			fe := freeze(base, e)
			g := cmath.Exp(base, e)
			fe.check(c, "Exp")
			we := new(big.Int).Exp(base, e, bigTwo256)
			c.Check(g.Cmp(we) == 0, "Exp", "Exp(%s,%s)=%s want %s", base, e, g, we)
			g.SetInt64(77)
			fe.check(c, "Exp-result-alias")
			// BigPow
			pa, pbb := int64(r.Intn(2000)-1000), int64(r.Intn(40))
			w := big.NewInt(1)
			for j := int64(0); j < pbb; j++ {
				w.Mul(w, big.NewInt(pa))
			}
			c.Check(cmath.BigPow(pa, pbb).Cmp(w) == 0, "BigPow", "BigPow(%d,%d)", pa, pbb)
		}
	})
	c.Cases("parse", c.N2(800, 8000), func(i int, r *rand.Rand) {
		for k := 0; k < 20; k++ {
			x := edgeInt(r, 320, false)
			u := edgeU64(r)
			zeros := strings.Repeat("0", r.Intn(3))
			hexs, decs := "0x"+zeros+x.Text(16), zeros+x.Text(10)
			if r.Intn(2) == 0 {
				hexs = "0X" + strings.ToUpper(hexs[2:])
			}
			c.Count("ops", 8)
			c.Case(x.BitLen() >= 255, "p "+hexs)
			fit := x.BitLen() <= 256
			for _, s := range []string{hexs, decs} {
				v, ok := cmath.ParseBig256(s)
				c.Check(ok == fit && (!ok || v.Cmp(x) == 0), "ParseBig256", "ParseBig256(%q)=%v,%v", s, v, ok)
				if !fit {
					c.Count("overflows", 1)
				}
				var h cmath.HexOrDecimal256
				err := h.UnmarshalText([]byte(s))
				c.Check((err == nil) == fit && (err != nil || (*big.Int)(&h).Cmp(x) == 0), "HexOrDecimal256", "UnmarshalText(%q): %v %s", s, err, (*big.Int)(&h))
				if err == nil {
					t, err := h.MarshalText()
					var h2 cmath.HexOrDecimal256
					err2 := h2.UnmarshalText(t)
					c.Check(err == nil && err2 == nil && (*big.Int)(&h2).Cmp(x) == 0, "HexOrDecimal256-roundtrip", "%s -> %q -> %s", x, t, (*big.Int)(&h2))
					var d cmath.Decimal256
					_ = d.UnmarshalText([]byte(s))
					t, err = d.MarshalText()
					c.Check(err == nil && string(t) == x.Text(10), "Decimal256-roundtrip", "%s -> %q", x, t)
				}
			}
			for _, s := range []string{fmt.Sprintf("0x%x", u), fmt.Sprintf("%s%d", zeros, u)} {
				v, ok := cmath.ParseUint64(s)
				c.Check(ok && v == u, "ParseUint64", "ParseUint64(%q)=%d,%v", s, v, ok)
				var h cmath.HexOrDecimal64
				err := h.UnmarshalText([]byte(s))
				t, err2 := h.MarshalText()
				var h2 cmath.HexOrDecimal64
				err3 := h2.UnmarshalText(t)
				c.Check(err == nil && err2 == nil && err3 == nil && uint64(h2) == u, "HexOrDecimal64", "%q -> %d -> %q -> %d", s, h, t, h2)
			}
			if v, ok := cmath.ParseUint64(decs); ok != x.IsUint64() || (ok && v != x.Uint64()) {
				c.Violate("ParseUint64-range", "ParseUint64(%q)=%d,%v", decs, v, ok)
			}
			bad := []string{"0x", "0xg1", "1 2", "12a", "--1", "x12", "0x1.5", "1e5", " 1", "1\n", "0b11", "0x0x1"}[r.Intn(12)]
			if _, ok := cmath.ParseBig256(bad); ok {
				c.Violate("ParseBig256-malformed", "ParseBig256(%q) accepted", bad)
			}
			if _, ok := cmath.ParseUint64(bad); ok {
				c.Violate("ParseUint64-malformed", "ParseUint64(%q) accepted", bad)
			}
			// printing keeps the value
			sx := edgeInt(r, 200, true)
			if r.Intn(2) == 0 {
				sx.Mul(sx, cmath.BigPow(10, int64(r.Intn(30))))
			}
			p := cmath.BigIntForPrint(sx)
			if q, ok := new(big.Rat).SetString(p); !ok || q.Cmp(new(big.Rat).SetInt(sx)) != 0 {
				c.Violate("BigIntForPrint", "BigIntForPrint(%s) = %q", sx, p)
			}
		}
	})
	c.Cases("rational", c.N2(1500, 15000), func(i int, r *rand.Rand) {
		for k := 0; k < 20; k++ {
			num, den := edgeInt(r, []int{10, 64, 66, 130}[r.Intn(4)], true), edgeInt(r, []int{2, 10, 64}[r.Intn(3)], false)
			if den.Sign() == 0 {
				den = big.NewInt(1)
			}
			rat := new(big.Rat).SetFrac(num, den)
			rs := rat.String()
			fl := floorQuo(rat.Num(), rat.Denom())
			ce := new(big.Int).Set(fl)
			if !rat.IsInt() {
				ce.Add(ce, big.NewInt(1))
				c.Count("fractions", 1)
			}
			c.Count("ops", 3)
			c.Case(!rat.IsInt() && fl.BitLen() > 53, "r "+rs)
			x, no := cmath.RatToInt64(rat)
			c.Check(no == !ce.IsInt64() && (no || x == ce.Int64()), "RatToInt64", "RatToInt64(%s)=%d,%v exact %s", rs, x, no, ce)
			x, no = cmath.RatToInt64Floor(rat)
			c.Check(no == !fl.IsInt64() && (no || x == fl.Int64()), "RatToInt64Floor", "RatToInt64Floor(%s)=%d,%v exact %s", rs, x, no, fl)
			if no {
				c.Count("overflows", 1)
			}
			// Int64MulRat with 0 <= rat <= 1
			n2 := new(big.Int).Rand(r, new(big.Int).Add(den, big.NewInt(1)))
			q := new(big.Rat).SetFrac(n2, den)
			i64 := int64(edgeU64(r))
			prod := new(big.Rat).Mul(q, new(big.Rat).SetInt64(i64))
			pc := floorQuo(prod.Num(), prod.Denom())
			if !prod.IsInt() {
				pc.Add(pc, big.NewInt(1))
			}
			qs := q.String()
			got := cmath.Int64MulRat(i64, q)
			c.Check(got == pc.Int64(), "Int64MulRat", "Int64MulRat(%d, %s)=%d exact %s", i64, qs, got, pc)
			c.Check(rat.String() == rs && q.String() == qs, "rational-argument-modified", "%s -> %s, %s -> %s", rs, rat, qs, q)
			// BigInt.MulRat: floor of the exact product (receiver is modified by design, argument is not)
			b := edgeInt(r, 130, true)
			bb := cmath.NewBigInt(b)
			m := bb.MulRat(rat)
			if rat.Sign() == 0 {
				c.Check(m.IsZero(), "BigInt.MulRat-zero", "MulRat by 0 = %v", m)
			} else {
				w := floorQuo(new(big.Int).Mul(b, rat.Num()), rat.Denom())
				c.Check(m.MustInt().Cmp(w) == 0, "BigInt.MulRat", "%s MulRat %s = %s want %s", b, rs, m.MustInt(), w)
			}
			c.Check(rat.String() == rs, "BigInt.MulRat-argument", "argument became %s from %s", rat, rs)
			cp := cmath.CopyBigRat(rat)
			c.Check(cp != rat && cp.Cmp(rat) == 0 && cmath.CompareBigRat(cp, rat) == 0 && cmath.CompareBigRat(nil, rat) == -1 && cmath.CompareBigRat(rat, nil) == 1, "CopyBigRat", "%s", rs)
		}
	})
	c.Cases("bigint", c.N2(1500, 15000), func(i int, r *rand.Rand) {
		// a nil BigInt stands for zero; the receiver may be reused, arguments never change
		mk := func() (*cmath.BigInt, *big.Int) {
			if r.Intn(6) == 0 {
				return nil, new(big.Int)
			}
			v := edgeInt(r, 140, true)
			return cmath.NewBigInt(v), v
		}
		for k := 0; k < 20; k++ {
			b, vb := mk()
			a, va := mk()
			c.Count("ops", 2)
			c.Case(b == nil || a == nil, fmt.Sprintf("b %v %v", vb, va))
			argOK := func(what string) {
				c.Check(a.MustInt().Cmp(va) == 0, "BigInt-argument-"+what, "%s changed its argument %s to %s", what, va, a.MustInt())
			}
			eq := func(what string, g *cmath.BigInt, w *big.Int) {
				c.Check(g.MustInt().Cmp(w) == 0, "BigInt-"+what, "%s(%s, %s) = %s want %s", what, vb, va, g.MustInt(), w)
				argOK(what)
			}
			cl := b.Clone()
			c.Check(cl.MustInt().Cmp(vb) == 0 && (b == nil || cl != b), "BigInt-Clone", "clone of %s", vb)
			sgn := vb.Cmp(va)
			c.Check(b.Compare(a) == sgn && b.CompareInt((*big.Int)(a)) == sgn && a.Compare(b) == -sgn, "BigInt-Compare", "%s vs %s: %d (nil %v %v)", vb, va, b.Compare(a), b == nil, a == nil)
			c.Check(b.Sign() == vb.Sign() && b.Positive() == (vb.Sign() > 0) && b.Negative() == (vb.Sign() < 0) && b.IsZero() == (vb.Sign() == 0), "BigInt-Sign", "%s", vb)
			u, ok := b.ToUint64()
			c.Check(ok == (b != nil && vb.IsUint64()) && (!ok || u == vb.Uint64()), "BigInt-ToUint64", "%s -> %d %v", vb, u, ok)
			if b != nil {
				hs := b.HexString()
				p, okp := new(big.Int).SetString(hs, 16)
				c.Check(okp && p.Cmp(vb) == 0, "BigInt-HexString", "%s -> %q", vb, hs)
			}
			switch r.Intn(7) {
			case 0:
				eq("Add", b.Add(a), new(big.Int).Add(vb, va))
			case 1:
				eq("Sub", b.Sub(a), new(big.Int).Sub(vb, va))
			case 2:
				eq("Mul", b.Mul(a), new(big.Int).Mul(vb, va))
			case 3:
				if va.Sign() != 0 {
					eq("Div", b.Div(a), new(big.Int).Div(vb, va))
				}
			case 4:
				left, act := b.SubIntNotLessZero((*big.Int)(a))
				argOK("SubIntNotLessZero")
				c.Check(b.MustInt().Cmp(vb) == 0, "SubIntNotLessZero-receiver", "receiver %s became %s", vb, b.MustInt())
				wl, wa := new(big.Int).Set(vb), new(big.Int)
				if va.Sign() > 0 && vb.Sign() > 0 {
					if vb.Cmp(va) > 0 {
						wl.Sub(vb, va)
						wa.Set(va)
					} else {
						wl.SetInt64(0)
						wa.Set(vb)
					}
				}
				c.Check(left.MustInt().Cmp(wl) == 0 && act.MustInt().Cmp(wa) == 0, "SubIntNotLessZero", "(%s, %s) = %s, %s want %s, %s", vb, va, left.MustInt(), act.MustInt(), wl, wa)
				// the returned amounts are independent of the argument
				if act != nil && a != nil {
					act.AddInt(big.NewInt(5))
					argOK("SubIntNotLessZero-alias")
				}
			case 5:
				x, vx := mk()
				g := b.AddInts((*big.Int)(a), (*big.Int)(x), nil)
				eq("AddInts", g, new(big.Int).Add(new(big.Int).Add(vb, va), vx))
				c.Check(x.MustInt().Cmp(vx) == 0, "BigInt-AddInts-arg2", "%s became %s", vx, x.MustInt())
				if g != nil && (b == nil) {
					g.AddInt(big.NewInt(9))
					argOK("AddInts-alias")
					c.Check(x.MustInt().Cmp(vx) == 0, "BigInt-AddInts-alias2", "%s became %s", vx, x.MustInt())
				}
			case 6:
				if a != nil {
					g := b.SetInt((*big.Int)(a))
					eq("SetInt", g, va)
					g.AddInt(big.NewInt(9))
					argOK("SetInt-alias")
				}
			}
			// free functions on *big.Int
			ia, ib := (*big.Int)(a), new(big.Int).Set(vb)
			s := cmath.AddBigInt(ib, ia)
			c.Check(s.Cmp(new(big.Int).Add(vb, va)) == 0, "AddBigInt", "%s + %s = %s", vb, va, s)
			argOK("AddBigInt")
			s = cmath.AddBigInt(nil, ia)
			if ia != nil {
				c.Check(s.Cmp(va) == 0, "AddBigInt-nil", "nil + %s = %s", va, s)
				s.SetInt64(1)
				argOK("AddBigInt-alias")
				cp := cmath.CopyBigInt(ia)
				c.Check(cp.Cmp(va) == 0, "CopyBigInt", "%s", va)
				cp.Add(cp, big.NewInt(1))
				argOK("CopyBigInt-alias")
				mc := cmath.MustCreatedBigInt(ia, false)
				mc.Add(mc, big.NewInt(1))
				argOK("MustCreatedBigInt-alias")
			}
			c.Check(cmath.MustBigInt(ia).Cmp(va) == 0, "MustBigInt", "%s", va)
			mp := cmath.MustPositiveInt(ia)
			c.Check((mp == nil) == (va.Sign() <= 0) && (mp == nil || mp.Cmp(va) == 0), "MustPositiveInt", "%s -> %s", va, mp)
		}
	})
	// the remaining constructors, nil operands and must-forms
	c.Cases("forms", c.N2(1500, 12000), func(i int, r *rand.Rand) {
		opt := func(bits int) (*big.Int, *big.Int) {
			switch r.Intn(6) {
			case 0:
				return nil, new(big.Int)
			case 1:
				return new(big.Int), new(big.Int)
			}
			v := edgeInt(r, bits, true)
			return v, new(big.Int).Set(v)
		}
		for k := 0; k < 10; k++ {
			c.Count("ops", 10)
			c.Count("forms", 10)
			i64 := int64(edgeU64(r))
			c.Case(i64 == math.MinInt64 || i64 == math.MaxInt64 || i64 == 0, fmt.Sprintf("form %d", i64))
			h, d := cmath.NewHexOrDecimal256(i64), cmath.NewDecimal256(i64)
			c.Check((*big.Int)(h).Cmp(big.NewInt(i64)) == 0 && (*big.Int)(d).Cmp(big.NewInt(i64)) == 0, "New256", "from %d: %s and %s", i64, (*big.Int)(h), (*big.Int)(d))
			dt, err := d.MarshalText()
			var d2 cmath.Decimal256
			err2 := d2.UnmarshalText(dt)
			c.Check(err == nil && err2 == nil && string(dt) == fmt.Sprint(i64) && d.String() == string(dt) && (*big.Int)(&d2).Cmp(big.NewInt(i64)) == 0, "Decimal256-signed", "%d -> %q -> %s (%v %v)", i64, dt, (*big.Int)(&d2), err, err2)
			if i64 >= 0 {
				ht, err := h.MarshalText()
				c.Check(err == nil && string(ht) == fmt.Sprintf("0x%x", i64), "HexOrDecimal256-text", "%d -> %q %v", i64, ht, err)
				h64, err := cmath.HexOrDecimal64(i64).MarshalText()
				c.Check(err == nil && string(h64) == fmt.Sprintf("0x%x", i64), "HexOrDecimal64-text", "%d -> %q %v", i64, h64, err)
			}
			if k == 0 {
				var hn *cmath.HexOrDecimal256
				var dn *cmath.Decimal256
				ht, _ := hn.MarshalText()
				dt, _ := dn.MarshalText()
				c.Check(string(ht) == "0x0" && string(dt) == "0" && dn.String() == "0", "256-nil-text", "%q %q", ht, dt)
				v, ok := cmath.ParseBig256("")
				u, oku := cmath.ParseUint64("")
				c.Check(ok && oku && v.Sign() == 0 && u == 0, "parse-empty", "%v %v %d %v", v, ok, u, oku)
				v.SetInt64(5) // each call yields its own number
				v, _ = cmath.ParseBig256("")
				c.Check(v.Sign() == 0, "parse-empty-shared", "the empty text now parses to %s", v)
			}
			// must-forms: the value, or a panic exactly where the plain form reports failure
			x := edgeInt(r, 300, false)
			for _, s := range []string{fmt.Sprintf("0x%x", x), x.String(), []string{"0x", "zz", "0xzz", "12 ", "1_000", "-", "+"}[r.Intn(7)]} {
				want, ok := cmath.ParseBig256(s)
				var got *big.Int
				pan := doesPanic(func() { got = cmath.MustParseBig256(s) })
				c.Check(pan == !ok && (!ok || got.Cmp(want) == 0), "MustParseBig256", "%q: panic %v, ParseBig256 ok %v", s, pan, ok)
				wu, oku := cmath.ParseUint64(s)
				var gu uint64
				pan = doesPanic(func() { gu = cmath.MustParseUint64(s) })
				c.Check(pan == !oku && (!oku || gu == wu), "MustParseUint64", "%q: panic %v, ParseUint64 ok %v", s, pan, oku)
				// a failed unmarshalling keeps the old value
				keep := cmath.HexOrDecimal256(*big.NewInt(77))
				kd := cmath.Decimal256(*big.NewInt(77))
				k64 := cmath.HexOrDecimal64(77)
				e1, e2, e3 := keep.UnmarshalText([]byte(s)), kd.UnmarshalText([]byte(s)), k64.UnmarshalText([]byte(s))
				c.Check((e1 == nil) == ok && (e2 == nil) == ok && (e3 == nil) == oku, "unmarshal-agrees", "%q: %v %v %v, parse %v %v", s, e1, e2, e3, ok, oku)
				c.Check((e1 == nil || (*big.Int)(&keep).Int64() == 77) && (e2 == nil || (*big.Int)(&kd).Int64() == 77) && (e3 == nil || k64 == 77), "unmarshal-failure-keeps", "%q changed the value although it failed", s)
			}
			// order on pointers: nil sorts below everything, otherwise the numeric order
			a, va := opt(140)
			b, vb := opt(140)
			wc := 0
			switch {
			case a == nil && b == nil:
			case a == nil:
				wc = -1
			case b == nil:
				wc = 1
			default:
				wc = va.Cmp(vb)
			}
			c.Check(cmath.CompareBigInt(a, b) == wc && cmath.CompareBigInt(b, a) == -wc && cmath.CompareBigInt(a, a) == 0, "CompareBigInt", "%v vs %v: %d want %d", a, b, cmath.CompareBigInt(a, b), wc)
			if a != nil {
				ra := new(big.Rat).SetFrac(a, big.NewInt(int64(r.Intn(9)+1)))
				rb := new(big.Rat).SetFrac(vb, big.NewInt(int64(r.Intn(9)+1)))
				c.Check(cmath.CompareBigRat(ra, rb) == ra.Cmp(rb) && cmath.CompareBigRat(nil, rb) == -1 && cmath.CompareBigRat(rb, nil) == 1 && cmath.CompareBigRat(nil, nil) == 0, "CompareBigRat", "%s vs %s", ra, rb)
				rc := cmath.CopyBigRat(ra)
				keep := ra.String()
				rc.Add(rc, big.NewRat(1, 3))
				c.Check(ra.String() == keep && cmath.CopyBigRat(nil) == nil, "CopyBigRat-alias", "%s became %s", keep, ra)
				c.Check(cmath.BigRatForPrint(ra) == ra.RatString() && cmath.BigRatForPrint(nil) == "", "BigRatForPrint", "%q", cmath.BigRatForPrint(ra))
			}
			// copies of nil, created numbers
			if a == nil {
				c.Check(cmath.CopyBigInt(a) == nil && cmath.NewBigInt(a) == nil && cmath.MustPositiveInt(a) == nil && cmath.MustBigInt(a).Sign() == 0, "nil-copies", "a nil number copied to something")
				c.Check(cmath.MustCreatedBigInt(a, r.Intn(2) == 0).Sign() == 0, "MustCreatedBigInt-nil", "%v", a)
				c.Check(cmath.BigIntForPrint(a) == "" && cmath.BigForPrint(a) == "" && (*cmath.BigInt)(a).String() == "", "print-nil", "printing nil")
			} else {
				c.Check(cmath.MustCreatedBigInt(a, true) == a && cmath.MustCreatedBigInt(a, false) != a && cmath.MustCreatedBigInt(a, false).Cmp(va) == 0, "MustCreatedBigInt", "%s", va)
				nb := cmath.NewBigInt(a)
				(*big.Int)(nb).Add((*big.Int)(nb), big.NewInt(1))
				c.Check(a.Cmp(va) == 0, "NewBigInt-alias", "%s became %s", va, a)
				// both printed forms carry the number
				pr := cmath.BigForPrint(a)
				dec := pr
				if j := strings.IndexByte(pr, ' '); j >= 0 {
					dec = pr[:j]
					in := strings.TrimSuffix(strings.TrimPrefix(pr[j+1:], "("), ")")
					q, ok := new(big.Rat).SetString(in)
					c.Check(ok && q.Cmp(new(big.Rat).SetInt(va)) == 0, "BigForPrint-short", "%s printed %q", va, pr)
				}
				c.Check(dec == va.String() && (*cmath.BigInt)(a).String() == cmath.BigIntForPrint(a), "BigForPrint", "%s printed %q", va, pr)
				if va.Sign() > 0 {
					plus := cmath.BigStringForPrint("+" + va.String())
					q, ok := new(big.Rat).SetString(plus)
					c.Check(ok && q.Cmp(new(big.Rat).SetInt(va)) == 0, "BigStringForPrint-plus", "+%s printed %q", va, plus)
				}
				c.Check(a.Cmp(va) == 0, "print-modified", "%s became %s", va, a)
			}
			// BigInt: a nil number stands for zero and Int() gives nil for zero
			B := (*cmath.BigInt)(a)
			if va.Sign() == 0 {
				c.Check(B.Int() == nil, "BigInt.Int-zero", "%v", B.Int())
			} else {
				c.Check(B.Int().Cmp(va) == 0, "BigInt.Int", "%v want %s", B.Int(), va)
			}
			mp := B.MustPositive()
			c.Check((mp == nil) == (va.Sign() <= 0) && (mp == nil || (*big.Int)(mp).Cmp(va) == 0), "BigInt.MustPositive", "%s -> %v", va, mp)
			c.Check(B.AddInts().MustInt().Cmp(va) == 0 && B.AddInt(nil).MustInt().Cmp(va) == 0 && B.SubInt(nil).MustInt().Cmp(va) == 0 && B.AddInts(nil, new(big.Int)).MustInt().Cmp(va) == 0, "BigInt-nil-argument", "%s changed by adding nothing", va)
			c.Check(doesPanic(func() { B.Clone().DivInt(nil) }) && doesPanic(func() { B.Clone().DivInt(new(big.Int)) }), "BigInt.Div-zero", "%s divided by zero without a panic", va)
			c.Check(B.Clone().MulInt(nil).IsZero() && B.Clone().MulRat(nil).IsZero() && B.Clone().SetInt(nil).IsZero(), "BigInt-times-nil", "%s", va)
			B2 := (*cmath.BigInt)(b)
			s := B.Clone().SubInt((*big.Int)(B2))
			c.Check(s.MustInt().Cmp(new(big.Int).Sub(va, vb)) == 0 && (b == nil || b.Cmp(vb) == 0), "BigInt.SubInt", "%s - %s = %s", va, vb, s.MustInt())
			if s != nil && b != nil { // the difference is its own number
				(*big.Int)(s).Add((*big.Int)(s), big.NewInt(3))
				c.Check(b.Cmp(vb) == 0, "BigInt.SubInt-alias", "%s became %s", vb, b)
			}
			if b != nil {
				sum := cmath.AddBigInt(cmath.CopyBigInt(a), b)
				c.Check(sum.Cmp(new(big.Int).Add(va, vb)) == 0, "AddBigInt-forms", "%v + %s = %s", a, vb, sum)
			}
			c.Check(cmath.AddBigInt(a, nil) == a, "AddBigInt-nothing", "adding nothing replaced the number")
			c.Check((a == nil || a.Cmp(va) == 0) && (b == nil || b.Cmp(vb) == 0), "forms-argument", "%s,%s became %v,%v", va, vb, a, b)
			// the published constants are never touched by any of this
			c.Check(cmath.Big0.Sign() == 0 && cmath.Big1.Int64() == 1 && cmath.Big2.Int64() == 2 && cmath.Big3.Int64() == 3 && cmath.Big32.Int64() == 32 && cmath.Big256.Int64() == 256 && cmath.Big257.Int64() == 257 &&
				cmath.BigMaxUint32.Uint64() == math.MaxUint32 && cmath.BigMaxUint64.Uint64() == math.MaxUint64 && cmath.MaxBig63.Int64() == math.MaxInt64 &&
				cmath.MaxBig256.Cmp(new(big.Int).Sub(bigTwo256, big.NewInt(1))) == 0 && cmath.Rat1.Cmp(big.NewRat(1, 1)) == 0, "constants", "a published constant changed")
		}
	})
}

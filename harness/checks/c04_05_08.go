package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"sync/atomic"

	common "github.com/ThinkiumGroup/go-common"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "C04",
		Rule:  "heights, epochs, eras and block numbers clustered at zero, epoch and era edges, overflow limits and nil, under several epoch lengths; each conversion compared with exact integers; non-trivial when the value is nil, at an epoch edge or the exact result exceeds 64 bits",
		Floor: map[string]int64{"values": 200000, "nils": 5000, "overflows": 5000, "edges": 20000}, Run: runC04})
	mon.Register(&mon.Check{ID: "C05",
		Rule:  "shard sets of 0 to 256 chains with duplicates in random order, with and without the current chain; addresses random, structured, and one per leading bit pattern; non-trivial when the shard count is not a power of two or the list had duplicates",
		Floor: map[string]int64{"shardings": 500, "addresses": 100000, "prefix_tests": 50000}, Run: runC05})
	mon.Register(&mon.Check{ID: "C08",
		Rule:  "seeded sequences of additions and subtractions near zero, near the balance and near 2^64, against an exact balance; non-trivial when an operation was refused",
		Floor: map[string]int64{"ops": 200000, "refused_sub": 20000, "refused_add": 10000}, Run: runC08})
}

func runC08(c *mon.Ctx) {
	c.Cases("pool", c.N2(3000, 40000), func(i int, r *rand.Rand) {
		start := edgeU64(r)
		gp := new(common.GasPool)
		if got := gp.AddGas(start); got != gp {
			c.Violate("AddGas-return", "AddGas returned another pool")
		}
		bal := new(big.Int).SetUint64(start)
		var log []string
		refused := 0
		for k := 0; k < 100; k++ {
			amt := edgeU64(r)
			switch r.Intn(5) {
			case 0: // near the balance
				amt = bal.Uint64() + uint64(r.Intn(5)) - 2
			case 1: // near the room left
				amt = math.MaxUint64 - bal.Uint64() + uint64(r.Intn(5)) - 2
			}
			ba := new(big.Int).SetUint64(amt)
			if r.Intn(2) == 0 {
				log = append(log, fmt.Sprintf("+%d", amt))
				exp := new(big.Int).Add(bal, ba)
				panicked := func() (p bool) {
					defer func() { p = recover() != nil }()
					gp.AddGas(amt)
					return
				}()
				if exp.IsUint64() {
					c.Check(!panicked, "AddGas-refused", "balance %s + %d panicked", bal, amt)
					bal = exp
				} else {
					refused++
					c.Count("refused_add", 1)
					c.Check(panicked, "AddGas-wrapped", "balance %s + %d = %d", bal, amt, gp.Gas())
				}
			} else {
				log = append(log, fmt.Sprintf("-%d", amt))
				err := gp.SubGas(amt)
				if ba.Cmp(bal) > 0 {
					refused++
					c.Count("refused_sub", 1)
					c.Check(err != nil, "SubGas-accepted", "balance %s - %d accepted", bal, amt)
				} else {
					c.Check(err == nil, "SubGas-refused", "balance %s - %d: %v", bal, amt, err)
					bal = new(big.Int).Sub(bal, ba)
				}
			}
			if gp.Gas() != bal.Uint64() || gp.String() != bal.String() {
				c.Violate("balance", "after %v: Gas()=%d String()=%s exact %s", log, gp.Gas(), gp, bal)
				return
			}
		}
		c.Count("ops", 100)
		c.Case(refused > 0, fmt.Sprint(start, log[:5]))
	})
}

func runC04(c *mon.Ctx) {
	origB, origE := common.BlocksInEpoch, common.EpochsInEra
	defer func() { common.BlocksInEpoch, common.EpochsInEra = origB, origE }()
	type cfg struct{ b, e uint64 }
	cfgs := []cfg{{origB, origE}, {1000, 36}, {1, 1}, {2, 3}, {7, 5}, {1 << 10, 1 << 4}, {4294967295, 2}, {12345, 100}}
	for ci, cf := range cfgs {
		common.BlocksInEpoch, common.EpochsInEra = cf.b, cf.e
		c.Cases(fmt.Sprintf("heights%d", ci), c.N2(400, 5000), func(i int, r *rand.Rand) { heightCase(c, r, cf.b, cf.e) })
	}
}

var bigMaxU64 = new(big.Int).SetUint64(math.MaxUint64)

func heightCase(c *mon.Ctx, r *rand.Rand, B, E uint64) {
	u := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	// order value: nil counts as -1
	ord := func(x uint64) *big.Int {
		if x == math.MaxUint64 {
			return big.NewInt(-1)
		}
		return u(x)
	}
	fit := func(x *big.Int) common.Height { // exact value or nil
		if x.IsUint64() {
			return common.Height(x.Uint64())
		}
		return common.NilHeight
	}
	genH := func() uint64 {
		switch r.Intn(5) {
		case 0:
			q := r.Uint64() >> uint(r.Intn(64))
			if q > math.MaxUint64/B {
				q = math.MaxUint64 / B
			}
			return q*B + uint64(r.Intn(3)) - 1
		case 1:
			q := r.Uint64() >> uint(r.Intn(64)) % (math.MaxUint64 / (B * E))
			return q*(B*E) + uint64(r.Intn(3)) - 1
		case 2:
			return math.MaxUint64 - uint64(r.Intn(4))
		default:
			return edgeU64(r)
		}
	}
	for k := 0; k < 100; k++ {
		h := genH()
		H := common.Height(h)
		isNil := h == math.MaxUint64
		edge := h%B == 0 || (h+1)%B == 0
		if isNil {
			c.Count("nils", 1)
		}
		if edge {
			c.Count("edges", 1)
		}
		c.Count("values", 3)
		c.Case(isNil || edge, fmt.Sprintf("h%d/%d", h, B))
		ep, bn := H.Split()
		if isNil {
			c.Check(ep.IsNil() && bn.IsNil() && H.IsNil() && H.EpochNum().IsNil() && H.BlockNum().IsNil() && H.EraNum().IsNil() &&
				!H.IsFirstOfEpoch() && !H.IsLastOfEpoch() && H.UsefulEpoch() == 0 && H.UsefulBlock() == 0, "nil-height", "nil height splits to %v %v", ep, bn)
			c.Check(common.ToHeight(ep, bn).IsNil(), "nil-recombine", "nil height recombines to %v", common.ToHeight(ep, bn))
		} else {
			q, m := new(big.Int).QuoRem(u(h), u(B), new(big.Int))
			c.Check(u(uint64(ep)).Cmp(q) == 0 && u(uint64(bn)).Cmp(m) == 0, "Split", "Split(%d)=%v,%v with %d blocks per epoch", h, ep, bn, B)
			c.Check(H.EpochNum() == ep && H.BlockNum() == bn && H.UsefulEpoch() == ep && H.UsefulBlock() == bn, "Split-agree", "height %d: %v %v %v %v", h, H.EpochNum(), H.BlockNum(), H.UsefulEpoch(), H.UsefulBlock())
			c.Check(common.ToHeight(ep, bn) == H, "recombine", "height %d -> %v,%v -> %v", h, ep, bn, common.ToHeight(ep, bn))
			era := new(big.Int).Quo(q, u(E))
			c.Check(u(uint64(H.EraNum())).Cmp(era) == 0, "EraNum", "EraNum(%d)=%d want %s", h, H.EraNum(), era)
			first, last := m.Sign() == 0, new(big.Int).Add(m, big.NewInt(1)).Cmp(u(B)) == 0
			c.Check(H.IsFirstOfEpoch() == first && bn.IsFirstOfEpoch() == first, "IsFirstOfEpoch", "height %d", h)
			c.Check(H.IsLastOfEpoch() == last && bn.IsLastOfEpoch() == last, "IsLastOfEpoch", "height %d: %v %v want %v", h, H.IsLastOfEpoch(), bn.IsLastOfEpoch(), last)
			c.Check(bn.IsValid() && !bn.IsNil() && !ep.IsNil() && !H.IsNil(), "valid", "height %d", h)
			fh, lh := ep.FirstHeight(), ep.LastHeight()
			c.Check(fh <= H && (H <= lh), "epoch-range", "height %d outside [%v,%v] of its epoch", h, fh, lh)
		}
		// epoch -> heights: exact or nil, never wrapped
		e := genH() / []uint64{1, B}[r.Intn(2)]
		ee := common.EpochNum(e)
		if ee.IsNil() {
			c.Count("nils", 1)
			c.Check(ee.FirstHeight().IsNil() && ee.LastHeight().IsNil() && common.ToHeight(ee, 0).IsNil(), "nil-epoch", "nil epoch has heights")
		} else {
			f := new(big.Int).Mul(u(e), u(B))
			l := new(big.Int).Add(f, u(B-1))
			if !l.IsUint64() {
				c.Count("overflows", 1)
				c.Case(true, fmt.Sprintf("e%d/%d", e, B))
			}
			c.Check(ee.FirstHeight() == fit(f), "FirstHeight", "epoch %d * %d: %v", e, B, ee.FirstHeight())
			c.Check(ee.LastHeight() == fit(l), "LastHeight", "epoch %d * %d: %v", e, B, ee.LastHeight())
			b := uint32(r.Uint64() % B)
			if r.Intn(4) == 0 {
				b = uint32(r.Uint64())
			}
			if r.Intn(8) == 0 {
				b = uint32(B - 1 + uint64(r.Intn(2)))
			}
			g := common.ToHeight(ee, common.BlockNum(b))
			if uint64(b) >= B {
				c.Check(g.IsNil() && !common.BlockNum(b).IsValid(), "ToHeight-invalid", "ToHeight(%d,%d)=%v with %d blocks per epoch", e, b, g, B)
			} else {
				w := fit(new(big.Int).Add(f, u(uint64(b))))
				c.Check(g == w, "ToHeight", "ToHeight(%d,%d)=%v want %v", e, b, g, w)
				if !g.IsNil() {
					ge, gb := g.Split()
					c.Check(ge == ee && gb == common.BlockNum(b), "ToHeight-split", "ToHeight(%d,%d)=%v splits to %v,%v", e, b, g, ge, gb)
				}
			}
		}
		// order and difference
		h2 := genH()
		if r.Intn(3) == 0 {
			h2 = h + uint64(r.Intn(3)) - 1
		}
		H2 := common.Height(h2)
		diff := new(big.Int).Sub(ord(h), ord(h2))
		d, cr := H.Diff(H2)
		c.Check(cr == diff.Sign() && new(big.Int).Abs(diff).Cmp(u(d)) == 0, "Height.Diff", "%d diff %d = %d,%d want %s", h, h2, d, cr, diff)
		c.Check(H.Compare(H2) == diff.Sign() && H2.Compare(H) == -diff.Sign(), "Height.Compare", "%d vs %d", h, h2)
		d, cr = common.EpochNum(h).Diff(common.EpochNum(h2))
		c.Check(cr == diff.Sign() && new(big.Int).Abs(diff).Cmp(u(d)) == 0, "Epoch.Diff", "%d diff %d = %d,%d want %s", h, h2, d, cr, diff)
		e1, e2 := common.EpochNum(h), common.EpochNum(h2)
		c.Check(e1.Compare(e2) == diff.Sign() && e1.Cmp(&e2) == diff.Sign() && (*common.EpochNum)(nil).Cmp(&e1) == -1 && e1.Cmp(nil) == 1 && (*common.EpochNum)(nil).Cmp(nil) == 0, "Epoch.Compare", "%d vs %d", h, h2)
		a1, a2 := common.EraNum(h), common.EraNum(h2)
		c.Check(a1.Compare(a2) == diff.Sign() && a1.Cmp(&a2) == diff.Sign() && (*common.EraNum)(nil).Cmp(&a1) == -1 && a1.Cmp(nil) == 1 && a1.IsNil() == isNil, "Era.Compare", "%d vs %d", h, h2)
		c.Check(H.Equal(&H2) == (h == h2) && a1.Equal(&a2) == (h == h2) && !H.Equal(nil) && !(*common.Height)(nil).Equal(&H) && (*common.Height)(nil).Equal(nil), "Equal", "%d vs %d", h, h2)
		cl := H.Clone()
		c.Check(cl != &H && *cl == H && *e1.Clone() == e1 && *a1.Clone() == a1 && (*common.Height)(nil).Clone() == nil, "Clone", "%d", h)
		c.Check((*common.EraNum)(nil).Value() == common.NilEra && a1.Value() == a1, "Era.Value", "%d", h)
		hh, hh2 := H.Hash(), H2.Hash()
		c.Check((hh == hh2) == (h == h2), "Height.Hash", "%d and %d hash to %x and %x", h, h2, hh, hh2)
		// distinguishable as text
		c.Check((H.String() == H2.String()) == (h == h2) && (e1.String() == e2.String()) == (h == h2) && (a1.String() == a2.String()) == (h == h2), "String", "%d and %d print as %s and %s", h, h2, H.String(), H2.String())
		// multiples
		n := edgeU64(r)
		if r.Intn(2) == 0 {
			n = uint64(r.Intn(2000))
		}
		rr := H.RemoveRemainder(common.Height(n))
		switch {
		case isNil:
			c.Check(rr.IsNil(), "RemoveRemainder-nil", "nil by %d = %v", n, rr)
		case n == 0:
			c.Check(rr == H, "RemoveRemainder-0", "%d by 0 = %v", h, rr)
		default:
			w := new(big.Int).Quo(u(h), u(n))
			w.Mul(w, u(n))
			c.Check(u(uint64(rr)).Cmp(w) == 0, "RemoveRemainder", "%d by %d = %d want %s", h, n, uint64(rr), w)
		}
		// bytes
		hb := H.Bytes()
		c.Check(len(hb) == 8 && common.BytesToHeight(hb) == H && bytes.Equal(H.Slice(), hb) && bytes.Equal(e1.Bytes(), hb) && bytes.Equal(a1.Bytes(), hb), "Bytes", "%d -> %x", h, hb)
		pad := append(make([]byte, r.Intn(4)), hb...)
		c.Check(common.BytesToHeight(pad) == H, "BytesToHeight-long", "%x", pad)
		short := bytes.TrimLeft(hb, "\x00")
		c.Check(common.BytesToHeight(short) == H, "BytesToHeight-short", "%x", short)
		// big integers
		bi := edgeInt(r, 80, true)
		fh, ok := H.FromBig(bi)
		inRange := bi.Sign() >= 0 && bi.Cmp(bigMaxU64) <= 0
		c.Check(ok == inRange && (ok && u(uint64(fh)).Cmp(bi) == 0 || !ok && fh.IsNil()), "FromBig", "FromBig(%s)=%v,%v", bi, fh, ok)
		if B <= 100000 && k%10 == 0 {
			s := r.Intn(int(2*B)) + 1
			if r.Intn(2) == 0 {
				s = r.Intn(60) + 1
			}
			sum := 0
			for m := 0; m < s && m < 3000; m++ {
				p := common.CommID(m).ShouldPropose(s)
				w := 0
				if m < int(B) {
					w = (int(B) - m + s - 1) / s // blocks m, m+s, m+2s, ... below B
				}
				c.Check(p == w, "ShouldPropose", "member %d of %d proposes %d of %d blocks, want %d", m, s, p, B, w)
				sum += p
			}
			if s <= 3000 {
				c.Check(sum == int(B), "ShouldPropose-sum", "committee of %d proposes %d of %d blocks", s, sum, B)
			}
		}
	}
}

func runC05(c *mon.Ctx) {
	var seen8 int32
	c.Cases("shards", c.N2(300, 3000), func(i int, r *rand.Rand) {
		n := r.Intn(12)
		switch {
		case i < 257:
			n = i
		case r.Intn(4) == 0:
			n = r.Intn(257)
		}
		set := map[common.ChainID]bool{}
		for len(set) < n {
			id := common.ChainID(r.Intn(1 << 19))
			if r.Intn(2) == 0 {
				id = common.ChainID(r.Intn(600) + 1)
			}
			if id == 0 { // the parent below
				continue
			}
			set[id] = true
		}
		var uniq []common.ChainID
		for id := range set {
			uniq = append(uniq, id)
		}
		sort.Slice(uniq, func(a, b int) bool { return uniq[a] < uniq[b] })
		parent := common.ChainStruct{ID: 0, ParentID: common.NilChainID, Mode: common.Branch}
		mkList := func() (list []common.ChainID, dup bool, cur common.ChainID) {
			list = append([]common.ChainID(nil), uniq...)
			for len(list) > 0 && r.Intn(3) == 0 {
				list = append(list, list[r.Intn(len(list))])
				dup = true
			}
			r.Shuffle(len(list), func(a, b int) { list[a], list[b] = list[b], list[a] })
			cur = parent.ID
			if n > 0 && r.Intn(2) == 0 {
				cur = uniq[r.Intn(n)]
				if r.Intn(2) == 0 { // the current chain is added when it is not listed
					var l2 []common.ChainID
					for _, id := range list {
						if id != cur {
							l2 = append(l2, id)
						}
					}
					list = l2
				}
			}
			return
		}
		list, dup, cur := mkList()
		orig := fmt.Sprint(list)
		si := common.NewShardInfo(parent, cur, list)
		c.Check(fmt.Sprint(list) == orig, "list-modified", "NewShardInfo reordered its argument %s to %v", orig, list)
		list2, dup2, cur2 := mkList()
		si2 := common.NewShardInfo(parent, cur2, list2)
		cl := si.Clone()
		scribbleIDs(list)
		c.Count("shardings", 2)
		desc := fmt.Sprintf("%d shards, current %d", n, cur)
		c.Case(n&(n-1) != 0 || dup || dup2, fmt.Sprintf("%d %v %v %v", n, cur, orig, cur2))
		bits := uint(0)
		for 1<<bits < n {
			bits++
		}
		c.Check(si.LocalID() == cur && si.GetMaskBits() == bits, "shape", "%s: Local=%d Mask=%d want %d", desc, si.LocalID(), si.GetMaskBits(), bits)
		if x, ok := si.(interface {
			Number() int
			ParentID() common.ChainID
		}); ok {
			c.Check(x.Number() == n && x.ParentID() == 0, "number", "%s: Number=%d Parent=%d", desc, x.Number(), x.ParentID())
		}
		ids := si.AllIDs()
		c.Check(len(ids) == n && fmt.Sprint([]common.ChainID(ids)) == fmt.Sprint(uniq) || n == 0 && len(ids) == 0, "AllIDs", "%s: %v", desc, ids)
		for p, id := range uniq {
			c.Check(si.Pos(id) == p && si2.Pos(id) == p && cl.Pos(id) == p, "Pos", "%s: Pos(%d)=%d want %d", desc, id, si.Pos(id), p)
		}
		for k := 0; k < 5; k++ {
			id := common.ChainID(r.Intn(1 << 19))
			if !set[id] {
				c.Check(si.Pos(id) == -1, "Pos-absent", "%s: Pos(%d)=%d", desc, id, si.Pos(id))
			}
		}
		used := map[common.ChainID]int{}
		to := func(a common.Address) common.ChainID {
			s := si.ShardTo(a)
			s1, s2, s3 := si.ShardTo(&a), si2.ShardTo(a), cl.ShardTo(a)
			c.Check(s == s1 && s == s3, "ShardTo-agree", "%s: %x goes to %d, by pointer %d, in the clone %d", desc, a, s, s1, s3)
			c.Check(s == s2, "ShardTo-order", "%s: %x goes to %d, with shards listed as %v to %d", desc, a, s, list2, s2)
			if n == 0 {
				c.Check(s == parent.ID, "ShardTo-parent", "%s: %x goes to %d", desc, a, s)
			} else {
				c.Check(set[s] && si.Pos(s) >= 0, "ShardTo-member", "%s: %x goes to %d", desc, a, s)
			}
			used[s]++
			return s
		}
		// every leading bit pattern, with random tails: decided by the mask bits only
		for v := 0; v < 1<<bits; v++ {
			var first common.ChainID
			for t := 0; t < 5; t++ {
				var a common.Address
				r.Read(a[:])
				if bits > 0 {
					x := uint16(v)<<(16-bits) | (uint16(r.Intn(1<<16)) >> bits)
					a[0], a[1] = byte(x>>8), byte(x)
				}
				s := to(a)
				c.Count("addresses", 1)
				if t == 0 {
					first = s
				} else if s != first {
					sig := "mask-prefix"
					if bits == 8 {
						sig = "mask-prefix-8bits"
					}
					if bits == 8 && !atomic.CompareAndSwapInt32(&seen8, 0, 1) {
						continue // a recorded finding: one report is enough
					}
					c.Violate(sig, "%s: addresses with the same leading %d bits (%x) go to %d and %d", desc, bits, v, first, s)
				}
			}
		}
		for k := 0; k < 300; k++ {
			var a common.Address
			r.Read(a[:])
			to(a)
		}
		c.Count("addresses", 300)
		for _, id := range uniq {
			if used[id] == 0 {
				// all 2^bits patterns were tried
				miss := true
				for k := 0; k < 20000 && miss; k++ {
					var a common.Address
					r.Read(a[:])
					miss = si.ShardTo(a) != id
				}
				c.Check(!miss, "shard-unused", "%s: no address goes to %d", desc, id)
			}
		}
		c.Check(si.ShardTo(nil) == common.NilChainID, "ShardTo-nil", "%v", si.ShardTo(nil))
	})
	c.Section("onechain", func(r *rand.Rand) {
		for k := 0; k < 50; k++ {
			p := common.ChainStruct{ID: common.ChainID(r.Intn(100)), ParentID: 0}
			si := common.NewShardInfo(p, common.NilChainID, nil)
			var a common.Address
			r.Read(a[:])
			c.Check(si.ShardTo(a) == p.ID && si.LocalID() == p.ID && len(si.AllIDs()) == 0, "one-chain", "%v", si)
		}
		too := make([]common.ChainID, 257)
		for i := range too {
			too[i] = common.ChainID(i + 1)
		}
		p := func() (p bool) {
			defer func() { p = recover() != nil }()
			common.NewShardInfo(common.ChainStruct{}, 0, too)
			return
		}()
		c.Check(p, "too-many", "257 shards accepted")
	})
	c.Cases("prefix", c.N2(2000, 30000), func(i int, r *rand.Rand) {
		for k := 0; k < 30; k++ {
			var a common.Address
			r.Read(a[:])
			idx := r.Intn(170) - 5
			val := make([]byte, r.Intn(22))
			copy(val, a[:])
			if len(val) > 0 && r.Intn(2) == 0 {
				b := r.Intn(len(val) * 8)
				if idx >= 0 && r.Intn(2) == 0 {
					b = idx + r.Intn(3) - 1
				}
				if b >= 0 && b < len(val)*8 {
					val[b/8] ^= 0x80 >> uint(b%8)
				}
			}
			s := &common.AddressShard{Index: common.BitIndex(idx), Value: val}
			c.Count("prefix_tests", 1)
			valid := idx >= 0 && idx < 160 && len(val)*8 > idx
			c.Check(s.IsValid() == valid, "IsValid", "index %d with %d bytes: %v", idx, len(val), s.IsValid())
			c.Case(valid && idx%8 != 7, fmt.Sprintf("%d %x", idx, val))
			if valid {
				in := true
				for b := 0; b <= idx; b++ {
					in = in && (a[b/8]^val[b/8])>>(7-uint(b%8))&1 == 0
				}
				c.Check(s.IsIn(a) == in, "IsIn", "address %x in %x up to bit %d: %v", a, val, idx, s.IsIn(a))
				bit := common.Bits(val).Bit(common.BitIndex(idx))
				c.Check(bit == (val[idx/8]>>(7-uint(idx%8))&1 == 1), "Bit", "bit %d of %x = %v", idx, val, bit)
			}
			l := r.Intn(190) - 3
			if r.Intn(20) == 0 {
				l = far(r, 8*len(val))
			}
			bs := common.Bits(val).Bits(l)
			wl := l
			if wl > len(val)*8 {
				wl = len(val) * 8
			}
			if wl < 0 {
				wl = 0
			}
			ok := len(bs) == wl
			for j := 0; ok && j < wl; j++ {
				ok = bs[j] == (val[j/8]>>(7-uint(j%8))&1 == 1)
			}
			c.Check(ok, "Bits", "Bits(%d) of %x = %v", l, val, bs)
			if out := far(r, 8*len(val)); out < 0 || out >= 8*len(val) {
				c.Check(!common.Bits(val).Bit(common.BitIndex(out)), "Bit-outside", "bit %d of %x is set", out, val)
			}
			bi := r.Intn(30) - 4
			if r.Intn(20) == 0 {
				bi = far(r, len(val))
			}
			v, ex := common.Bits(val).Byte(bi)
			c.Check(ex == (bi >= 0 && bi < len(val)) && (!ex || v == val[bi]), "Byte", "Byte(%d) of %x = %x,%v", bi, val, v, ex)
		}
		c.Check(!(*common.AddressShard)(nil).IsValid() && !(*common.AddressShard)(nil).IsIn(common.Address{}), "nil-shard", "nil")
	})
}

func scribbleIDs(l []common.ChainID) {
	for i := range l {
		l[i] += 7
	}
}

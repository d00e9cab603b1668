package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "T09",
		Rule:  "history trees driven by random appends (right and wrong heights), reads, hashes, commits, collapses, clones, reopenings from height 0 and from restored heights at nibble boundaries, with storage faults; non-trivial when at least one commit, collapse, clone or reopen lies between appends",
		Floor: map[string]int64{"appends": 50000, "reopens": 500, "collapses": 300, "faults": 300, "crash_points": 60}, Run: runT09})
	mon.Register(&mon.Check{ID: "T10",
		Rule:  "proofs of every or many heights of trees of every small size, mutated and re-labelled, restored and merged in random order and continued; non-trivial when the tree has at least two entries",
		Floor: map[string]int64{"proofs": 10000, "mutants": 10000, "merges": 2000, "restores": 300, "storage_faults": 150, "faults_reported": 100}, Run: runT10})
	mon.Register(&mon.Check{ID: "T11",
		Rule:  "every (size, position) up to a bound in committed, uncommitted and reopened trees, continued with new appends, chopped again; non-trivial when the position is not the last height",
		Floor: map[string]int64{"chops": 4500, "reopens": 1000, "storage_faults": 150, "faults_reported": 100}, Run: runT11})
}

func runT09(c *mon.Ctx) {
	c.Section("digits", func(_ *rand.Rand) {
		for b := 0; b < 256; b++ {
			for l := -2; l < 12; l++ {
				bs, err := trie.ToBinary(byte(b), l)
				if l < 1 || l > 8 {
					c.Check(err != nil, "digits-length", "%d binary digits of %d: %v, %v", l, b, bs, err)
					continue
				}
				want := make([]byte, l)
				for j := range want {
					want[j] = byte(b) >> uint(l-1-j) & 1
				}
				back, err2 := trie.ToByte(bs)
				c.Check(err == nil && err2 == nil && bytes.Equal(bs, want) && back == byte(b)&byte(1<<uint(l)-1), "digits", "%d binary digits of %d: %v,%v and back: %d,%v", l, b, bs, err, back, err2)
			}
			_, err := trie.ToByte(make([]byte, 9+b))
			c.Check(err != nil, "digits-length", "%d digits in a byte", 9+b)
		}
	})
	c.Section("log", func(_ *rand.Rand) {
		c.Cases("h", c.N2(1200, 15000), func(i int, r *rand.Rand) {
			d := db.NewMemDB()
			var s *histSim
			if i%3 == 0 {
				s = syntheticHist(c, r, d, boundaryHeight(r))
			} else {
				s = newHistSim(c, d)
			}
			if s == nil || s.t == nil {
				return
			}
			mixed := 0
			for op := 0; op < 40; op++ {
				switch x := r.Intn(20); {
				case x < 8:
					n := 1
					if r.Intn(3) == 0 {
						n = 1 + r.Intn(70)
					}
					for k := 0; k < n; k++ {
						s.append(r)
					}
					s.rec("append*%d", n)
					c.Count("appends", int64(n))
				case x < 9:
					bad := s.someKeys(r)[r.Intn(8)]
					v := randHash(r)
					if bad != s.m.next {
						if err := s.t.Append(bad, v[:]); err == nil {
							c.Violate("append-order", "Append(%d) accepted while expecting %d; %s", bad, s.m.next, s.hist())
						}
					}
					if err := s.t.Append(s.m.next, nil); err == nil {
						c.Violate("append-nil", "Append of an empty value accepted; %s", s.hist())
					}
					s.rec("badappend")
				case x < 12:
					for _, k := range s.someKeys(r) {
						s.get(k)
					}
				case x < 14:
					s.checkRoot()
				case x < 15:
					s.commit(r)
					mixed++
				case x < 17:
					if s.m.next == 0 {
						continue
					}
					s.commit(r)
					for k := 0; k < 3; k++ {
						key := s.m.first + uint64(r.Int63n(int64(s.m.next-s.m.first)))
						key = key >> 4 << 4
						if r.Intn(2) == 0 {
							key = key >> 8 << 8
						}
						switch r.Intn(12) { // heights the tree does not reach, or not a node's first
						case 0:
							key = math.MaxUint64 - uint64(r.Intn(3))*15
						case 1:
							key = uint64(r.Int63()) >> uint(r.Intn(50))
						case 2:
							key = s.m.next + uint64(r.Intn(20))
						case 3:
							key += uint64(r.Intn(16))
						case 4:
							key = s.m.next - 1
						}
						err := s.t.CollapseBefore(key)
						s.rec("collapse(%d)", key)
						if s.m.first <= key && key < s.m.next {
							c.Check(err == nil, "collapse", "CollapseBefore(%d) of a committed tree: %v; %s", key, err, s.hist())
						}
						c.Count("collapses", 1)
					}
					mixed++
				case x < 18:
					s.reopen(r)
					c.Count("reopens", 1)
					mixed++
				case x < 19:
					old := s.t
					s.t = s.t.Clone()
					s.rec("clone")
					if s.t == nil {
						c.Violate("clone", "Clone returned nil; %s", s.hist())
						return
					}
					mixed++
					if r.Intn(2) == 0 && old.Expecting() == s.m.next { // the old one diverges
						v := randHash(r)
						_ = old.Append(s.m.next, v[:])
						_ = old.Commit()
					}
				default:
					nt, err := s.t.Rebase(d)
					if err != nil || nt == nil {
						c.Violate("rebase", "Rebase: %v; %s", err, s.hist())
						return
					}
					s.t = nt
					s.rec("rebase")
					mixed++
				}
			}
			s.checkRoot()
			for k := range s.m.vals {
				s.get(k)
			}
			for _, k := range s.someKeys(r) {
				s.get(k)
			}
			c.Case(mixed > 0, s.hist())
		})
	})
	c.Section("faults", func(_ *rand.Rand) {
		c.Cases("f", c.N2(600, 6000), func(i int, r *rand.Rand) {
			d := newFaultDB()
			s := newHistSim(c, d)
			if s.t == nil {
				return
			}
			for k := 0; k < 1+r.Intn(600); k++ {
				s.append(r)
			}
			s.rec("append*%d", s.m.next)
			if i%2 == 0 { // failing writes
				var old []byte
				var oldm *refHistory
				if r.Intn(2) == 0 {
					if err := s.t.Commit(); err != nil {
						c.Violate("commit", "Commit: %v; %s", err, s.hist())
						return
					}
					old, oldm = s.m.root(), s.m.clone()
					for k := 0; k < 1+r.Intn(300); k++ {
						s.append(r)
					}
				}
				n := int64(1 + r.Intn([]int{4, 40}[r.Intn(2)]))
				d.arm(n, n)
				err := s.t.Commit()
				failed := d.putCount() >= n
				d.disarm()
				if failed && err == nil {
					c.Violate("commit-fault-hidden", "write %d of Commit failed, Commit returned nil; %s", n, s.hist())
				}
				if failed {
					c.Count("faults", 1)
					// had the process died here: what was committed is still there, and the new root
					// is in the storage with everything under it or not at all
					crash := func(root []byte, m *refHistory) {
						has, _ := d.Has(append(mon.Clone(histPrefix), root...))
						if !has {
							if m == oldm {
								c.Violate("crash-old-root", "the root committed before a failed commit is gone; %s", s.hist())
							}
							return
						}
						t := openHist(c, d, root, true)
						if t == nil {
							return
						}
						for k := uint64(0); k < m.next; k++ {
							if v, ok := t.Get(k); !ok || !bytes.Equal(v, m.vals[k]) {
								c.Violate("crash-root", "after write %d of a commit failed the tree at %x has %d=%x,%v want %x; %s", n, root, k, v, ok, m.vals[k], s.hist())
								return
							}
						}
					}
					if old != nil {
						crash(old, oldm)
					}
					crash(s.m.root(), s.m)
					c.Count("crash_points", 1)
				}
				s.checkRoot()
				if r.Intn(2) == 0 {
					s.append(r)
				}
				s.reopen(r)
			} else { // failing reads
				s.reopen(r)
				for q := 0; q < 6; q++ {
					at := int64(1 + r.Intn(3))
					d.cutGet = r.Intn(3) == 0
					d.armGet(at, at)
					if r.Intn(2) == 0 {
						k := uint64(r.Int63n(int64(s.m.next)))
						if v, ok := s.t.Get(k); ok && !bytes.Equal(v, s.m.vals[k]) {
							c.Violate("get-fault-wrong", "Get(%d)=%x under a read fault, stored %x; %s", k, v, s.m.vals[k], s.hist())
						}
						s.rec("faultget(%d)", k)
					} else {
						v := randHash(r)
						before := s.m.root()
						if err := s.t.Append(s.m.next, v[:]); err == nil {
							s.m.append(v[:])
						} else {
							_ = before
						}
						s.rec("faultappend")
					}
					d.disarm()
					c.Count("faults", 1)
					s.checkRoot()
				}
			}
			for k := uint64(0); k < s.m.next; k++ {
				s.get(k)
			}
			for k := 0; k < 20; k++ {
				s.append(r)
			}
			s.checkRoot()
			s.reopen(r)
			s.checkRoot()
			c.Case(true, s.hist())
		})
	})
}

func histProofOK(ch trie.ProofChain, v []byte, root []byte) bool {
	h, err := ch.Proof(common.BytesToHash(v))
	return err == nil && bytes.Equal(h, root)
}

// histFaults: chopping, proving, merging and restoring over storage that fails for a while gives an
// error (or nothing), never a wrong tree, and leaves the tree as it was.
func histFaults(c *mon.Ctx, r *rand.Rand, chop bool) {
	d := newFaultDB()
	s := newHistSim(c, d)
	n := 2 + r.Intn([]int{20, 400}[r.Intn(2)])
	for k := 0; k < n; k++ {
		s.append(r)
	}
	settle := func() {
		switch r.Intn(4) {
		case 0:
			s.commit(r)
		case 1:
			s.reopen(r)
		case 2:
			s.commit(r)
			_ = s.t.CollapseBefore(uint64(r.Intn(n)) >> 4 << 4)
		}
	}
	settle()
	s.rec("n=%d", n)
	faulty := func(what string, f func()) (hit bool) {
		at, to := int64(1+r.Intn(5)), int64(1)<<40
		if r.Intn(3) == 0 {
			to = at
		}
		reads := r.Intn(3) > 0
		d.cutGet = r.Intn(3) == 0
		if reads {
			d.armGet(at, to)
		} else {
			d.arm(at, to)
		}
		s.rec("failing-%s(reads %v cut %v)@%d-%d", what, reads, d.cutGet, at, to)
		panicked := doesPanic(f)
		hit = reads && d.gets >= at || !reads && d.puts >= at
		d.disarm()
		if panicked {
			c.Violate("fault-panic", "%s panicked, storage failing: %v; %s", what, hit, s.hist())
		}
		if hit {
			c.Count("storage_faults", 1)
		}
		return hit
	}
	same := func(what string, t *trie.HistoryTree, m *refHistory, all bool) bool {
		h, err := t.HashValue()
		if err != nil || !bytes.Equal(h, m.root()) || t.Expecting() != m.next {
			c.Violate("fault-root", "%s: root %x,%v want %x, expecting %d want %d; %s", what, h, err, m.root(), t.Expecting(), m.next, s.hist())
			return false
		}
		for k := uint64(0); k < m.next+2; k++ {
			if !all && r.Intn(20) > 0 {
				continue
			}
			v, ok := t.Get(k)
			if w, has := m.vals[k]; ok != has || !bytes.Equal(v, w) {
				c.Violate("fault-entry", "%s: Get(%d)=%x,%v want %x,%v; %s", what, k, v, ok, w, has, s.hist())
				return false
			}
		}
		return true
	}
	upTo := func(p int) *refHistory {
		m := newRefHistory()
		for k := 0; k <= p; k++ {
			m.append(s.m.vals[uint64(k)])
		}
		return m
	}
	for q := 0; q < 5; q++ {
		p := r.Intn(n)
		if chop {
			var t *trie.HistoryTree
			var err error
			hit := faulty(fmt.Sprintf("chop(%d)", p), func() { t, err = s.t.Chop(uint64(p)) })
			if err == nil && t != nil {
				if m := upTo(p); same("the chopped tree", t, m, true) {
					if r.Intn(2) == 0 {
						cs := &histSim{c: c, d: d, t: t, m: m, log: append([]string(nil), s.log...)}
						cs.append(r)
						cs.reopen(r)
						same("the chopped tree, reopened", cs.t, cs.m, true)
					}
				}
			} else if !hit {
				c.Violate("fault-chop", "Chop(%d)=%v,%v with no fault; %s", p, t, err, s.hist())
			} else {
				c.Count("faults_reported", 1)
			}
		} else {
			k := uint64(p)
			var v []byte
			var ch trie.ProofChain
			var ok bool
			hit := faulty(fmt.Sprintf("proof(%d)", k), func() { v, ch, ok = s.t.GetProof(k) })
			if ok {
				bk := ch.BigKey()
				c.Check(bytes.Equal(v, s.m.vals[k]) && histProofOK(ch, v, s.m.root()) && bk != nil && bk.Cmp(new(big.Int).SetUint64(k)) == 0,
					"fault-proof", "the proof of %d made over failing storage is of %x, key %v; %s", k, v, bk, s.hist())
			} else if !hit {
				c.Violate("fault-proof", "GetProof(%d) refused with no fault; %s", k, s.hist())
			} else {
				c.Count("faults_reported", 1)
			}
			// a tree that begins with the last path, over the same storage
			last := s.m.next - 1
			lv, lch, ok1 := s.t.GetProof(last)
			kv, kch, ok2 := s.t.GetProof(k)
			if !ok1 || !ok2 {
				c.Violate("fault-lasting", "GetProof(%d)=%v, GetProof(%d)=%v with the storage right again; %s", last, ok1, k, ok2, s.hist())
				return
			}
			var t2 *trie.HistoryTree
			var err error
			// under a prefix of its own: it knows less of a node than the record of the whole tree
			pre := []byte(fmt.Sprintf("h%d-", q))
			hit = faulty(fmt.Sprintf("restore(%d)", last), func() { t2, err = trie.RestoreTreeFromProofs(d, pre, last, lv, lch) })
			if err != nil || t2 == nil {
				if !hit {
					c.Violate("fault-restore", "RestoreTreeFromProofs(%d)=%v,%v with no fault; %s", last, t2, err, s.hist())
				}
				c.Count("faults_reported", 1)
				continue
			}
			if r.Intn(2) == 0 {
				if err := t2.Commit(); err != nil {
					c.Violate("fault-restore", "Commit of a restored tree: %v; %s", err, s.hist())
				}
			}
			hit = faulty(fmt.Sprintf("merge(%d)", k), func() { err = t2.MergeProof(k, kv, kch) })
			if err != nil && !hit {
				c.Violate("fault-merge", "MergeProof(%d): %v with no fault; %s", k, err, s.hist())
			} else if err != nil {
				c.Count("faults_reported", 1)
				if err := t2.MergeProof(k, kv, kch); err != nil {
					c.Violate("fault-merge", "MergeProof(%d) with the storage right again: %v; %s", k, err, s.hist())
				}
			}
			h, err := t2.HashValue()
			c.Check(err == nil && bytes.Equal(h, s.m.root()), "fault-merge-root", "the root of a tree merged over failing storage is %x,%v want %x; %s", h, err, s.m.root(), s.hist())
			for _, k := range []uint64{k, last} {
				g, ok := t2.Get(k)
				c.Check(ok && bytes.Equal(g, s.m.vals[k]), "fault-merge-get", "Get(%d)=%x,%v want %x from a tree merged over failing storage; %s", k, g, ok, s.m.vals[k], s.hist())
			}
		}
		if !same("the tree", s.t, s.m, false) {
			return
		}
		if r.Intn(3) == 0 {
			s.append(r)
			n++
			settle()
		}
	}
	same("the tree", s.t, s.m, true)
	c.Case(true, s.hist())
}

// restoredOverFull restores the last path of a committed tree over the storage of that tree.
func restoredOverFull(c *mon.Ctx, r *rand.Rand, n int) {
	d := db.NewMemDB()
	s := newHistSim(c, d)
	for k := 0; k < n; k++ {
		s.append(r)
	}
	s.commit(r)
	last := s.m.next - 1
	v, ch, ok := s.t.GetProof(last)
	if !ok {
		c.Violate("proof-missing", "GetProof(%d) refused; %s", last, s.hist())
		return
	}
	t, err := trie.RestoreTreeFromProofs(d, histPrefix, last, v, ch)
	if err != nil {
		c.Violate("restore", "RestoreTreeFromProofs(%d): %v; %s", last, err, s.hist())
		return
	}
	if err := t.Commit(); err != nil {
		c.Violate("restore", "Commit of a restored tree: %v; %s", err, s.hist())
	}
	full, err := trie.NewHistoryTree(d, histPrefix, s.m.root(), false)
	if err != nil {
		c.Violate("restored-over-full", "the committed tree of %d entries cannot be reopened after a tree restored from the proof of its last entry was committed to the same storage: %v", n, err)
		return
	}
	for k := uint64(0); k <= last; k++ {
		if g, ok := full.Get(k); !ok || !bytes.Equal(g, s.m.vals[k]) {
			c.Violate("restored-over-full", "the committed tree of %d entries, reopened after a tree restored from the proof of its last entry was committed to the same storage, has %d=%x,%v want %x", n, k, g, ok, s.m.vals[k])
			return
		}
	}
	c.Case(true, fmt.Sprint(n))
}

func runT10(c *mon.Ctx) {
	c.Section("faults", func(_ *rand.Rand) {
		c.Cases("f", c.N2(1000, 6000), func(i int, r *rand.Rand) { histFaults(c, r, false) })
	})
	c.Section("same-storage", func(_ *rand.Rand) {
		c.Cases("s", 20, func(i int, r *rand.Rand) { restoredOverFull(c, r, 20+i*17) })
	})
	c.Section("proofs", func(_ *rand.Rand) {
		c.Cases("p", c.N2(600, 6000), func(i int, r *rand.Rand) {
			d := db.NewMemDB()
			s := newHistSim(c, d)
			n := 1 + i%300
			if r.Intn(10) == 0 {
				n += r.Intn(5000)
			}
			for k := 0; k < n; k++ {
				s.append(r)
			}
			switch r.Intn(4) {
			case 0:
				s.commit(r)
			case 1:
				s.reopen(r)
			case 2:
				s.commit(r)
				_ = s.t.CollapseBefore(uint64(r.Intn(n)) >> 4 << 4)
			}
			s.rec("n=%d", n)
			root := s.m.root()
			type hp struct {
				k  uint64
				ch trie.ProofChain
			}
			var all []hp
			for q := 0; q < 30; q++ {
				k := uint64(r.Intn(n))
				switch q {
				case 0:
					k = uint64(n - 1)
				case 1:
					k = 0
				}
				v, ch, ok := s.t.GetProof(k)
				if !ok || !bytes.Equal(v, s.m.vals[k]) {
					c.Violate("proof-missing", "GetProof(%d)=%x,%v; %s", k, v, ok, s.hist())
					continue
				}
				c.Count("proofs", 1)
				c.Check(histProofOK(ch, v, root), "proof-root", "proof of height %d does not lead to the root; %s", k, s.hist())
				bk := ch.BigKey()
				c.Check(bk != nil && bk.Cmp(new(big.Int).SetUint64(k)) == 0, "proof-key", "proof of height %d spells key %s; %s", k, bk, s.hist())
				all = append(all, hp{k, ch})
				if q < 2 {
					encodings(c, ch, s.hist())
				}
				bad := mon.Clone(v)
				bad[r.Intn(32)] ^= byte(1 + r.Intn(255))
				c.Check(!histProofOK(ch, bad, root), "wrong-value", "proof of %d verifies for another hash; %s", k, s.hist())
			}
			for _, k := range []uint64{uint64(n), uint64(n) + 1, ^uint64(0), uint64(n) << 8} {
				if _, _, ok := s.t.GetProof(k); ok && k >= uint64(n) {
					c.Violate("proof-absent", "GetProof(%d) of an absent height succeeded; %s", k, s.hist())
				}
			}
			for q := 0; q < 25 && len(all) > 0; q++ {
				e := all[r.Intn(len(all))]
				m, what, _ := mutateChain(r, e.ch, all[r.Intn(len(all))].ch)
				if len(m) == 0 {
					continue
				}
				c.Count("mutants", 1)
				bk := m.BigKey()
				its, err := m.ToItems()
				if bk == nil || err != nil || len(its) != 64 {
					continue
				}
				// whatever verifies under the root binds a stored height to its stored hash
				for _, vk := range []uint64{e.k, all[r.Intn(len(all))].k} {
					if histProofOK(m, s.m.vals[vk], root) && (!bk.IsUint64() || bk.Uint64() != vk) {
						c.Violate("relabelled", "mutated proof (%s) of %d verifies for the hash of %d and claims height %s; %s", what, e.k, vk, bk, s.hist())
					}
				}
			}
			c.Case(n > 1, s.hist())
		})
	})
	c.Section("restore-merge", func(_ *rand.Rand) {
		c.Cases("r", c.N2(600, 6000), func(i int, r *rand.Rand) {
			full := newHistSim(c, db.NewMemDB())
			n := 1 + r.Intn(600)
			if i%2 == 0 {
				n = 1 + i/2%280
			}
			for k := 0; k < n; k++ {
				full.append(r)
			}
			full.rec("n=%d", n)
			last := uint64(n - 1)
			v, ch, ok := full.t.GetProof(last)
			if !ok {
				c.Violate("proof-missing", "GetProof(%d)", last)
				return
			}
			d2 := db.NewMemDB()
			t2, err := trie.RestoreTreeFromProofs(d2, histPrefix, last, v, ch)
			if err != nil {
				c.Violate("restore", "RestoreTreeFromProofs(%d): %v", last, err)
				return
			}
			c.Count("restores", 1)
			part := &histSim{c: c, d: d2, t: t2, m: full.m.clone()}
			part.rec("restored at %d", last)
			known := map[uint64]bool{last: true}
			verify := func(what string) {
				part.rec("%s", what)
				part.checkRoot()
				for k := range known {
					got, ok := part.t.Get(k)
					if !ok || !bytes.Equal(got, full.m.vals[k]) {
						c.Violate("restored-get", "after %s Get(%d)=%x,%v want %x; %s", what, k, got, ok, full.m.vals[k], part.hist())
						return
					}
				}
				for q := 0; q < 4; q++ { // unknown heights: absent or right, never wrong
					k := uint64(r.Int63n(int64(full.m.next + 20)))
					if got, ok := part.t.Get(k); ok && !bytes.Equal(got, full.m.vals[k]) {
						c.Violate("restored-get-wrong", "after %s Get(%d)=%x stored %x; %s", what, k, got, full.m.vals[k], part.hist())
					}
				}
			}
			verify("restore")
			v0 := c.Violations()
			for op := 0; op < 14 && c.Violations() == v0; op++ {
				switch r.Intn(6) {
				case 0, 1:
					cnt := 1 + r.Intn(20)
					for k := 0; k < cnt; k++ {
						h := randHash(r)
						if err := full.t.Append(full.m.next, h[:]); err != nil {
							c.Violate("append", "%v", err)
						}
						if err := part.t.Append(full.m.next, h[:]); err != nil {
							c.Violate("restored-append", "Append(%d) on the restored tree: %v; %s", full.m.next, err, part.hist())
							return
						}
						known[full.m.next] = true
						full.m.append(h[:])
					}
					part.m = full.m.clone()
					verify(fmt.Sprintf("append*%d", cnt))
				case 2, 3:
					k := uint64(r.Int63n(int64(full.m.next)))
					if r.Intn(2) == 0 && full.m.next > 20 {
						k = full.m.next - 1 - uint64(r.Intn(20))
					}
					v, ch, ok := full.t.GetProof(k)
					if !ok {
						c.Violate("proof-missing", "GetProof(%d); %s", k, full.hist())
						return
					}
					// refused: wrong height, wrong value
					if err := part.t.MergeProof(k^1, v, ch); err == nil {
						c.Violate("merge-wrong-height", "proof of %d merged as %d; %s", k, k^1, part.hist())
					}
					bad := randHash(r)
					if err := part.t.MergeProof(k, bad[:], ch); err == nil {
						c.Violate("merge-wrong-value", "wrong value merged at %d; %s", k, part.hist())
					}
					if err := part.t.MergeProof(k, v, ch); err != nil {
						c.Violate("merge", "MergeProof(%d): %v; %s", k, err, part.hist())
						return
					}
					known[k] = true
					c.Count("merges", 1)
					verify(fmt.Sprintf("merge(%d)", k))
				case 4:
					part.commit(r)
					verify("commit")
				case 5:
					part.reopen(r)
					verify("reopen")
				}
			}
			var ks []int
			for k := range known {
				ks = append(ks, int(k))
			}
			sort.Ints(ks)
			c.Case(n > 1, part.hist())
		})
	})
}

func runT11(c *mon.Ctx) {
	one := func(r *rand.Rand, n int, p int, state int) {
		d := db.NewMemDB()
		s := newHistSim(c, d)
		roots := make([][]byte, n)
		for k := 0; k < n; k++ {
			s.append(r)
			if k == p {
				roots[k] = s.m.root()
			}
			if state == 3 && r.Intn(20) == 0 {
				s.commit(r)
			}
		}
		switch state {
		case 1:
			s.commit(r)
		case 2:
			s.reopen(r)
		}
		s.rec("n=%d state=%d", n, state)
		full := s.m.clone()
		ch, err := s.t.Chop(uint64(p))
		if err != nil || ch == nil {
			c.Violate("chop", "Chop(%d) of %d: %v; %s", p, n, err, s.hist())
			return
		}
		c.Count("chops", 1)
		cm := newRefHistory()
		for k := 0; k <= p; k++ {
			cm.append(full.vals[uint64(k)])
		}
		cs := &histSim{c: c, d: d, t: ch, m: cm}
		cs.rec("chop(%d) of n=%d state=%d", p, n, state)
		v0 := c.Violations()
		cs.checkRoot()
		if !bytes.Equal(cm.root(), roots[p]) {
			c.Inconclusive("reference model inconsistent")
		}
		look := func() {
			for q := 0; q < 10; q++ {
				cs.get(uint64(r.Intn(n + 3)))
			}
			cs.get(uint64(p))
			cs.get(uint64(p + 1))
			k := uint64(r.Intn(p + 1))
			if v, pc, ok := cs.t.GetProof(k); !ok || !bytes.Equal(v, cm.vals[k]) || !histProofOK(pc, v, cm.root()) {
				c.Violate("chop-proof", "height %d not provable after chop; %s", k, cs.hist())
			}
		}
		if r.Intn(2) == 0 {
			look()
		}
		if r.Intn(2) == 0 {
			cs.reopen(r)
			c.Count("reopens", 1)
			cs.checkRoot()
			look()
		}
		if r.Intn(4) == 0 && p > 0 { // chop again
			p2 := r.Intn(p + 1)
			ch2, err := cs.t.Chop(uint64(p2))
			if err != nil {
				c.Violate("chop2", "second Chop(%d): %v; %s", p2, err, cs.hist())
				return
			}
			m2 := newRefHistory()
			for k := 0; k <= p2; k++ {
				m2.append(full.vals[uint64(k)])
			}
			cs2 := &histSim{c: c, d: d, t: ch2, m: m2, log: append(append([]string{}, cs.log...), fmt.Sprintf("chop(%d)", p2))}
			cs2.checkRoot()
			for q := 0; q < 5; q++ {
				cs2.append(r)
			}
			cs2.checkRoot()
			cs2.reopen(r)
			cs2.checkRoot()
			for k := uint64(0); k < cs2.m.next; k++ {
				cs2.get(k)
			}
		}
		for q := 0; q < r.Intn(40); q++ {
			cs.append(r)
			if r.Intn(4) == 0 {
				cs.checkRoot()
			}
		}
		cs.rec("appended to %d", cm.next)
		cs.checkRoot()
		cs.reopen(r)
		cs.checkRoot()
		for k := uint64(0); k < cm.next+2; k++ {
			cs.get(k)
		}
		// the original is untouched
		s.m = full
		s.checkRoot()
		for q := 0; q < 10; q++ {
			s.get(uint64(r.Intn(n + 2)))
		}
		s.append(r)
		s.checkRoot()
		if c.Violations() > v0+20 {
			return
		}
		c.Case(p < n-1, fmt.Sprintf("n=%d p=%d state=%d", n, p, state))
	}
	c.Section("faults", func(_ *rand.Rand) {
		c.Cases("f", c.N2(1000, 6000), func(i int, r *rand.Rand) { histFaults(c, r, true) })
	})
	c.Section("small", func(_ *rand.Rand) {
		max := c.N2(70, 180)
		c.Cases("c", max*(max+1)/2, func(i int, r *rand.Rand) {
			n := 1
			for i >= n {
				i -= n
				n++
			}
			one(r, n, i, r.Intn(4))
		})
	})
	c.Section("large", func(_ *rand.Rand) {
		c.Cases("c", c.N2(2500, 40000), func(i int, r *rand.Rand) {
			n := []int{256, 257, 272, 300, 511, 512, 513, 700}[r.Intn(8)] + r.Intn(3)
			if r.Intn(60) == 0 {
				n = 4090 + r.Intn(20)
			}
			p := r.Intn(n)
			if r.Intn(2) == 0 {
				p = []int{15, 16, 17, 31, 239, 240, 254, 255, 256, n - 1, n - 2}[r.Intn(11)]
			}
			if p >= n {
				p = n - 1
			}
			one(r, n, p, r.Intn(4))
		})
	})
}

package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "T02",
		Rule:  "random contents over colliding key pools, put into one of several residency states (in memory, committed, reloaded, reloaded and partly touched or dirtied, aged); non-trivial when the content has at least 3 keys with nesting or a shared prefix",
		Floor: map[string]int64{"entries_visited": 50000, "nested_tries": 200, "partly_resident": 500}, Run: runT02})
	mon.Register(&mon.Check{ID: "T03",
		Rule:  "pairs and groups of operation histories per content, with near-miss contents (one key or value changed); non-trivial when the histories differ in order, deletes or reloads, or the contents differ in one entry",
		Floor: map[string]int64{"equal_pairs": 3000, "different_pairs": 3000, "histories_with_deletes": 500}, Run: runT03})
	mon.Register(&mon.Check{ID: "T04",
		Rule:  "histories of batches and commits with every earlier root reopened, plus every single failing write position of a commit; non-trivial when a commit wrote at least two nodes (durability) or a fault hit (fault cases)",
		Floor: map[string]int64{"roots_reopened": 1000, "fault_positions": 2000, "faults_reported": 2000, "crash_points": 2000, "refused_values": 2000}, Run: runT04})
	mon.Register(&mon.Check{ID: "T05",
		Rule:  "families of up to 5 live copies (Clone, Inherit, Rebase, open iterators) mutated in random interleavings, each with its own map; non-trivial when two copies diverged",
		Floor: map[string]int64{"copies": 2000, "ops_on_copies": 20000, "iterators_across_writes": 500}, Run: runT05})
}

// residency puts t (holding m) into a random residency state and returns it with a name.
func residency(s *tsim, r *rand.Rand) string {
	switch r.Intn(7) {
	case 0:
		return "memory"
	case 1:
		s.commit()
		return "committed"
	case 2:
		s.reopen(false)
		return "reloaded"
	case 3:
		s.reopen(r.Intn(2) == 0)
		for i := 0; i < 1+r.Intn(6); i++ {
			s.get(s.ks.near(r))
		}
		return "partly-read"
	case 4:
		s.reopen(false)
		for i := 0; i < 1+r.Intn(4); i++ {
			if r.Intn(3) == 0 {
				s.del(s.ks.pick(r))
			} else {
				s.put(r, s.ks.pick(r))
			}
		}
		return "partly-dirty"
	case 5:
		s.commit()
		_ = s.t.Collapse()
		for i := 0; i < r.Intn(3); i++ {
			s.put(r, s.ks.pick(r))
		}
		return "collapsed"
	default:
		s.commit()
		for i := 0; i < 103; i++ {
			_ = s.t.Commit()
		}
		s.get(s.ks.pick(r))
		return "aged"
	}
}

func fill(s *tsim, r *rand.Rand, max int) {
	n := 1 + r.Intn(max)
	for i := 0; i < n; i++ {
		s.put(r, s.ks.pick(r))
		if r.Intn(9) == 0 {
			s.del(s.ks.pick(r))
		}
		if r.Intn(15) == 0 {
			s.commit()
		}
	}
}

func drain(f *flavor, it trie.ValueIterator) (ks []string, vs []string) {
	for it.Next() {
		k, v := it.Current()
		k2, v2 := it.Current()
		if !bytes.Equal(k, k2) || f.id(v) != f.id(v2) {
			ks = append(ks, "UNSTABLE")
		}
		ks = append(ks, string(k))
		vs = append(vs, f.id(v))
		if len(ks) > 100000 {
			break
		}
	}
	return
}

func seqDesc(ks []string) string {
	var b strings.Builder
	for i, k := range ks {
		if i > 30 {
			b.WriteString("…")
			break
		}
		fmt.Fprintf(&b, "%x ", k)
	}
	return b.String()
}

func checkSeq(c *mon.Ctx, what string, ks, vs []string, m map[string]string, rev bool, hist string) {
	want := sortedKeys(m)
	if rev {
		sort.Sort(sort.Reverse(sort.StringSlice(want)))
	}
	if len(ks) != len(want) {
		c.Violate(what+"-count", "%s yielded %d entries [%s], expected %d [%s]; %s", what, len(ks), seqDesc(ks), len(want), seqDesc(want), hist)
		return
	}
	for i := range want {
		if ks[i] != want[i] {
			c.Violate(what+"-order", "%s position %d is %x, expected %x; got [%s]; %s", what, i, ks[i], want[i], seqDesc(ks), hist)
			return
		}
		if vs[i] != m[want[i]] {
			c.Violate(what+"-value", "%s key %x carries %s, expected %s; %s", what, ks[i], short(vs[i]), short(m[want[i]]), hist)
			return
		}
	}
}

func runT02(c *mon.Ctx) {
	c.Section("iterate", func(_ *rand.Rand) {
		c.Cases("i", c.N2(6000, 80000), func(i int, r *rand.Rand) {
			s := newTsim(c, r, pickFlavor(r), db.NewMemDB())
			fill(s, r, 50)
			st := residency(s, r)
			if strings.HasPrefix(st, "partly") {
				c.Count("partly_resident", 1)
			}
			before := rootOf(s.t)
			idle := func(what string, it trie.ValueIterator) {
				if k, v := it.Current(); k != nil || v != nil {
					c.Violate("current-idle", "%s: Current = %x,%v; %s", what, k, v, s.hist())
				}
			}
			fit := s.t.ValueIterator()
			idle("forward, before Next", fit)
			ks, vs := drain(s.f, fit)
			c.Check(!fit.Next(), "next-after-end", "forward Next true after the end; %s", s.hist())
			idle("forward, after the end", fit)
			checkSeq(c, "forward", ks, vs, s.m, false, st+" "+s.hist())
			c.Count("entries_visited", int64(len(ks)))
			rit := s.t.ReversedValueIterator()
			idle("reverse, before Next", rit)
			ks, vs = drain(s.f, rit)
			checkSeq(c, "reverse", ks, vs, s.m, true, st+" "+s.hist())
			c.Count("entries_visited", int64(len(ks)))
			c.Check(!rit.Next(), "next-after-end", "reverse Next true after the end; %s", s.hist())
			if k, v := rit.Current(); k != nil || v != nil {
				c.Violate("current-after-end", "reverse Current after the end = %x,%v", k, v)
			}
			// early stop and full callback iteration
			stop := r.Intn(len(s.m) + 1)
			var seen []string
			var seenV []string
			s.t.IterateAll(false, func(k []byte, v interface{}) bool {
				seen = append(seen, string(k))
				seenV = append(seenV, s.f.id(v))
				return len(seen) < stop || stop == 0
			})
			want := sortedKeys(s.m)
			if stop > 0 {
				want = want[:stop]
			}
			if fmt.Sprint(want) != fmt.Sprint(seen) {
				c.Violate("iterate-all", "IterateAll stopping at %d saw [%s], expected [%s]; %s", stop, seqDesc(seen), seqDesc(want), s.hist())
			}
			// iteration leaves the trie as it was
			c.Check(bytes.Equal(before, rootOf(s.t)), "iter-changes-root", "iteration changed the root; %s", s.hist())
			for n := 0; n < 5; n++ {
				s.get(s.ks.pick(r))
			}
			// two interleaved iterators do not disturb each other
			if r.Intn(3) == 0 {
				a, b := s.t.ValueIterator(), s.t.ReversedValueIterator()
				var ka, va, kb, vb []string
				ea, eb := false, false
				for !ea || !eb {
					if !ea && (eb || r.Intn(2) == 0) {
						if a.Next() {
							k, v := a.Current()
							ka, va = append(ka, string(k)), append(va, s.f.id(v))
						} else {
							ea = true
						}
					} else {
						if b.Next() {
							k, v := b.Current()
							kb, vb = append(kb, string(k)), append(vb, s.f.id(v))
						} else {
							eb = true
						}
					}
				}
				checkSeq(c, "forward-interleaved", ka, va, s.m, false, s.hist())
				checkSeq(c, "reverse-interleaved", kb, vb, s.m, true, s.hist())
			}
			nested, _ := shapeOf(s.m)
			if nested {
				c.Count("nested_tries", 1)
			}
			c.Case(len(s.m) >= 3, st+" "+opsKey(s))
		})
	})
}

// reach drives a fresh trie to exactly content m by a random detour history; returns whether deletes happened.
func reach(c *mon.Ctx, r *rand.Rand, f *flavor, ks *keyspace, m map[string]string) (*tsim, bool) {
	s := newTsim(c, r, f, db.NewMemDB())
	s.ks = ks
	dels := false
	detour := r.Intn(30)
	keys := sortedKeys(m)
	putFinal := func(k string) {
		s.rec("Put(%x,%s)", k, short(m[k]))
		s.t.Put([]byte(k), f.mk([]byte(k), m[k]))
		s.m[k] = m[k]
	}
	housekeeping := func() {
		switch r.Intn(14) {
		case 0:
			s.commit()
		case 1:
			s.reopen(false)
		case 2:
			s.commit()
			s.rec("Collapse")
			_ = s.t.Collapse()
		case 3:
			s.rec("Hash")
			_, _ = s.t.HashValue()
		case 4:
			_, _, _ = trieContent(f, s.t)
		case 5:
			s.get(s.ks.near(r))
		}
	}
	for i := 0; i < detour; i++ {
		switch r.Intn(3) {
		case 0:
			if len(keys) > 0 {
				putFinal(keys[r.Intn(len(keys))])
			}
		case 1:
			s.put(r, ks.pick(r))
		case 2:
			k := ks.pick(r)
			if _, ok := s.m[string(k)]; ok {
				dels = true
			}
			s.del(k)
		}
		housekeeping()
	}
	// finish: fix every key in random order
	all := map[string]bool{}
	for k := range m {
		all[k] = true
	}
	for k := range s.m {
		all[k] = true
	}
	var order []string
	for k := range all {
		order = append(order, k)
	}
	sort.Strings(order)
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	for _, k := range order {
		want, ok := m[k]
		if !ok {
			if _, there := s.m[k]; there {
				dels = true
				s.del([]byte(k))
			}
		} else if s.m[k] != want {
			putFinal(k)
		}
		housekeeping()
	}
	return s, dels
}

func runT03(c *mon.Ctx) {
	c.Section("canonical", func(_ *rand.Rand) {
		c.Cases("c", c.N2(3000, 40000), func(i int, r *rand.Rand) {
			f := pickFlavor(r)
			ks := newKeyspace(r)
			m := randContent(r, f, ks, 30)
			ref := rootOf(f.build(nil, db.NewMemDB(), m))
			c.Check(len(ref) == common.HashLength, "root-length", "root %x", ref)
			for h := 0; h < 3; h++ {
				s, dels := reach(c, r, f, ks, m)
				got := rootOf(s.t)
				if !bytes.Equal(got, ref) {
					c.Violate("root-differs", "content of %d keys has root %x when built directly but %x after: %s", len(m), ref, got, s.hist())
				}
				if r.Intn(2) == 0 {
					s.reopen(false)
					c.Check(bytes.Equal(rootOf(s.t), ref), "root-reload", "root changes on reload after %s", s.hist())
				}
				if dels {
					c.Count("histories_with_deletes", 1)
				}
				c.Count("equal_pairs", 1)
				c.Case(true, opsKey(s))
				// emptied trie
				if r.Intn(4) == 0 {
					for _, k := range sortedKeys(s.m) {
						s.del([]byte(k))
						if r.Intn(5) == 0 {
							s.reopen(false)
						}
					}
					h := rootOf(s.t)
					c.Check(bytes.Equal(h, common.EmptyNodeHashSlice) && trie.IsEmptyTrieRoot(h), "empty-root", "emptied trie has root %x, expected %x; after %s", h, common.EmptyNodeHashSlice, s.hist())
					c.Count("emptied", 1)
				}
			}
			c.Check(!trie.IsEmptyTrieRoot(ref), "empty-root-nonempty", "IsEmptyTrieRoot true for %d keys", len(m))
			// near-miss contents
			for h := 0; h < 3; h++ {
				m2 := cloneMap(m)
				keys := sortedKeys(m)
				k := keys[r.Intn(len(keys))]
				var what string
				switch r.Intn(5) {
				case 0:
					delete(m2, k)
					what = "removed " + fmt.Sprintf("%x", k)
				case 1:
					m2[k] = m[k] + "x"
					what = "changed value of " + fmt.Sprintf("%x", k)
				case 2: // move a value to a nearby key
					k2 := string(ks.near(r))
					v := m2[k]
					delete(m2, k)
					m2[k2] = v
					what = fmt.Sprintf("moved %x to %x", k, k2)
				case 3: // swap two values
					kk := keys[r.Intn(len(keys))]
					m2[k], m2[kk] = m2[kk], m2[k]
					what = fmt.Sprintf("swapped %x and %x", k, kk)
				case 4:
					m2[string(ks.near(r))] = "added"
					what = "added a key"
				}
				if f == flavStruct && false {
					continue
				}
				if sameMap(m, m2) || len(m2) == 0 {
					continue
				}
				r2 := rootOf(f.build(r, db.NewMemDB(), m2))
				if bytes.Equal(r2, ref) {
					c.Violate("root-collision", "contents that differ (%s) have the same root %x: %v", what, ref, diffMaps(m2, m))
				}
				c.Count("different_pairs", 1)
				c.Case(true, what)
			}
		})
	})
	c.Section("all-small-contents", func(_ *rand.Rand) {
		// every subset of a nested key set with two possible values: all roots must be distinct
		keys := []string{"", "\x00", "\x00\x00", "\x00\x01", "\x10", "\x0f", "\x00\x01\x02"}
		n := 1
		for range keys {
			n *= 3
		}
		roots := map[string]string{}
		for x := 0; x < n; x++ {
			m := map[string]string{}
			y := x
			for _, k := range keys {
				if d := y % 3; d > 0 {
					m[k] = fmt.Sprintf("val%d", d)
				}
				y /= 3
			}
			h := string(rootOf(flavRaw.build(nil, db.NewMemDB(), m)))
			desc := fmt.Sprintf("%q", m)
			if o, dup := roots[h]; dup {
				c.Violate("root-collision-small", "%s and %s share root %x", o, desc, h)
			}
			roots[h] = desc
			c.Count("small_contents", 1)
		}
		c.Case(true, fmt.Sprintf("all %d contents over %d nested keys with 2 values have distinct roots", n, len(keys)))
	})
}

// fussy is a value that cannot be encoded (0) or hashed (1).
type fussy int

var flavFussy = &flavor{
	name: "fussy",
	open: func(root []byte, na, va db.DataAdapter) *trie.Trie {
		return trie.NewTrieWithValueFuncs(root, na, va,
			func(o interface{}, w io.Writer) error {
				if f, ok := o.(fussy); ok {
					if f == 0 {
						return errors.New("not to be encoded")
					}
					o = []byte("fussy")
				}
				_, err := w.Write(o.([]byte))
				return err
			},
			func(r io.Reader) (interface{}, error) { b, err := io.ReadAll(r); return b, err },
			func(v interface{}, vb []byte) ([]byte, error) {
				if _, ok := v.(fussy); ok {
					return nil, errors.New("not to be hashed")
				}
				h := common.Hash256(vb)
				return h[:], nil
			})
	},
	mk: flavRaw.mk, id: flavRaw.id, vh: flavRaw.vh,
}

// valueRefused: a value that cannot be written makes the hash and the commit fail, every time, and
// has no effect once it is gone.
func valueRefused(c *mon.Ctx, r *rand.Rand) {
	s := newTsim(c, r, flavFussy, db.NewMemDB())
	fill(s, r, 20)
	var root []byte
	kept := cloneMap(s.m)
	if r.Intn(2) == 0 {
		root = s.commit()
		if r.Intn(2) == 0 {
			s.reopen(r.Intn(2) == 0)
		}
	}
	k := s.ks.pick(r)
	c.Guard("value refused", func() {
		s.t.Put(mon.Clone(k), fussy(r.Intn(2)))
		s.m[string(k)] = "?"
		for n := 2 + r.Intn(3); n > 0; n-- {
			var err error
			var h []byte
			op := r.Intn(3)
			switch op {
			case 0:
				h, err = s.t.HashValue()
			case 1:
				err = s.t.Commit()
			default:
				h, err = s.t.CommitAndHash()
			}
			c.Count("refused_values", 1)
			c.Check(err != nil, "value-refused", "%s of a trie with a value that cannot be written at %x gives %x; %s", []string{"HashValue", "Commit", "CommitAndHash"}[op], k, h, s.hist())
			if r.Intn(2) == 0 {
				x := s.ks.pick(r)
				if string(x) != string(k) {
					s.put(r, x)
				}
			}
		}
		for x, id := range s.m {
			if v, ok := s.t.Get([]byte(x)); x != string(k) && (!ok || s.f.id(v) != id) {
				c.Violate("refused-get", "Get(%x) = %v, %v; %s", x, v, ok, s.hist())
			}
		}
		if r.Intn(2) == 0 {
			s.put(r, k)
		} else {
			s.t.Delete(mon.Clone(k))
			delete(s.m, string(k))
		}
		ref := s.f.open(nil, nil, nil)
		for _, x := range sortedKeys(s.m) {
			ref.Put([]byte(x), s.f.mk([]byte(x), s.m[x]))
		}
		got, err := s.t.CommitAndHash()
		if want := rootOf(ref); err != nil || !bytes.Equal(got, want) {
			c.Violate("refused-root", "after the value at %x has gone: %x, %v, want %x; %s", k, got, err, want, s.hist())
			return
		}
		m, _, err := trieContent(s.f, s.f.open(mon.Clone(got), s.na, s.va))
		c.Check(err == nil && sameMap(m, s.m), "refused-content", "%v %s; %s", err, diffMaps(m, s.m), s.hist())
		if root != nil {
			m, _, err := trieContent(s.f, s.f.open(mon.Clone(root), s.na, s.va))
			c.Check(err == nil && sameMap(m, kept), "refused-old-root", "%v %s; %s", err, diffMaps(m, kept), s.hist())
		}
	})
	c.Case(len(s.m) > 1, fmt.Sprint("refused", len(kept), root != nil, hexs(k)))
}

func runT04(c *mon.Ctx) {
	c.Section("durability", func(_ *rand.Rand) {
		c.Cases("d", c.N2(1500, 20000), func(i int, r *rand.Rand) {
			fd := newFaultDB()
			s := newTsim(c, r, pickFlavor(r), fd)
			type snap struct {
				root []byte
				m    map[string]string
			}
			var snaps []snap
			rounds := 2 + r.Intn(6)
			for k := 0; k < rounds; k++ {
				fill(s, r, 15)
				h := s.commit()
				snaps = append(snaps, snap{h, cloneMap(s.m)})
				if r.Intn(4) == 0 {
					s.reopen(r.Intn(2) == 0)
				}
			}
			for _, sn := range snaps {
				t2 := s.f.open(mon.Clone(sn.root), s.na, s.va)
				m, _, err := trieContent(s.f, t2)
				if err != nil || !sameMap(m, sn.m) {
					c.Violate("reopen-content", "trie reopened at %x differs: %v %s; history %s", sn.root, err, diffMaps(m, sn.m), s.hist())
				}
				t3 := s.f.open(mon.Clone(sn.root), s.na, s.va)
				for k := range sn.m {
					v, ok := t3.Get([]byte(k))
					if !ok || s.f.id(v) != sn.m[k] {
						c.Violate("reopen-get", "Get(%x) at reopened root %x = %v,%v want %s; history %s", k, sn.root, v, ok, short(sn.m[k]), s.hist())
					}
				}
				if got := rootOf(t3); !bytes.Equal(got, sn.root) {
					c.Violate("reopen-root", "root of reopened trie %x != %x", got, sn.root)
				}
				c.Count("roots_reopened", 1)
			}
			c.Case(true, opsKey(s))
		})
	})
	c.Section("values-refused", func(_ *rand.Rand) {
		c.Cases("v", c.N2(1500, 20000), func(i int, r *rand.Rand) { valueRefused(c, r) })
	})
	c.Section("read-faults", func(_ *rand.Rand) {
		c.Cases("r", c.N2(3000, 40000), func(i int, r *rand.Rand) { readFaults(c, r) })
	})
	c.Section("write-faults", func(_ *rand.Rand) {
		c.Cases("f", c.N2(500, 6000), func(i int, r *rand.Rand) {
			f := pickFlavor(r)
			// one recipe, replayed for every fault position
			seed := r.Int63()
			var oldRoot []byte
			var oldContent map[string]string
			recipe := func() (*tsim, *faultDB) {
				fd := newFaultDB()
				rr := rand.New(rand.NewSource(seed))
				s := newTsim(c, rr, f, fd)
				fill(s, rr, 20)
				oldRoot = s.commit()
				oldContent = cloneMap(s.m)
				if rr.Intn(2) == 0 {
					s.reopen(false)
				}
				fill2 := 1 + rr.Intn(15)
				for k := 0; k < fill2; k++ {
					if rr.Intn(4) == 0 {
						s.del(s.ks.pick(rr))
					} else {
						s.put(rr, s.ks.pick(rr))
					}
				}
				return s, fd
			}
			s, fd := recipe()
			fd.arm(0, 0)
			if err := s.t.Commit(); err != nil {
				c.Violate("commit-error", "Commit: %v", err)
				return
			}
			total := fd.putCount()
			refRoot := rootOf(s.t)
			for pos := int64(1); pos <= total; pos++ {
				s, fd := recipe()
				to := int64(0)
				if r.Intn(4) == 0 {
					to = 1 << 40 // every later write fails too
				}
				fd.arm(pos, to)
				var err error
				switch r.Intn(2) {
				case 0:
					err = s.t.Commit()
				default:
					_, err = s.t.CommitAndHash()
				}
				c.Count("fault_positions", 1)
				if err == nil {
					c.Violate("fault-swallowed", "write %d of %d failed but Commit reported success; history %s", pos, total, s.hist())
				} else {
					c.Count("faults_reported", 1)
				}
				fd.disarm()
				// had the process died here: what was committed is still there, and the new root is
				// in the storage with everything under it or not at all
				if len(oldContent) > 0 {
					if m, _, err := trieContent(f, f.open(mon.Clone(oldRoot), s.na, s.va)); err != nil || !sameMap(m, oldContent) {
						c.Violate("crash-old-root", "write %d of %d of a commit failed, the root committed before reads %v %s; history %s", pos, total, err, diffMaps(m, oldContent), s.hist())
					}
				}
				if has, _ := fd.Has(append([]byte("n"), refRoot...)); has && len(s.m) > 0 {
					m, _, err := trieContent(f, f.open(mon.Clone(refRoot), s.na, s.va))
					if err != nil || !sameMap(m, s.m) {
						c.Violate("crash-new-root", "after write %d of %d of a commit failed its root is in the storage but reads %v %s; history %s", pos, total, err, diffMaps(m, s.m), s.hist())
					}
				}
				c.Count("crash_points", 1)
				// memory still serves everything
				for _, k := range s.ks.pool {
					v, ok := s.t.Get(k)
					w, has := s.m[string(k)]
					if ok != has || (ok && s.f.id(v) != w) {
						c.Violate("fault-lost-memory", "after a failed commit (write %d of %d) Get(%x)=%v,%v want %v; history %s", pos, total, k, v, ok, has, s.hist())
						break
					}
				}
				if r.Intn(3) == 0 { // carry on writing before the retry
					s.put(r, s.ks.pick(r))
					if r.Intn(2) == 0 {
						s.del(s.ks.pick(r))
					}
					c.Count("writes_between_fault_and_retry", 1)
				} else if h := rootOf(s.t); !bytes.Equal(h, refRoot) {
					c.Violate("fault-root", "root after a failed commit is %x, expected %x", h, refRoot)
				}
				if err := s.t.Commit(); err != nil {
					c.Violate("retry-error", "Commit after the fault was gone: %v", err)
				}
				h := rootOf(s.t)
				t2 := s.f.open(h, s.na, s.va)
				m, _, err := trieContent(s.f, t2)
				if err != nil || !sameMap(m, s.m) {
					c.Violate("retry-not-durable", "after failing write %d of %d and a successful retry, the reopened trie differs: %v %s; history %s", pos, total, err, diffMaps(m, s.m), s.hist())
				}
			}
			c.Case(total >= 2, fmt.Sprintf("%d writes; %s", total, opsKey(s)))
		})
	})
}

// readFaults: storage that fails to deliver a record, or delivers a damaged one, for a while. What the
// trie says meanwhile may be that something is absent or refused; afterwards it serves what it held.
func readFaults(c *mon.Ctx, r *rand.Rand) {
	fd := newFaultDB()
	s := newTsim(c, r, pickFlavor(r), fd)
	fill(s, r, 30)
	root := s.commit()
	t := s.f.open(mon.Clone(root), s.na, s.va)
	m := cloneMap(s.m)
	var log []string
	hist := func() string { return fmt.Sprintf("%s/%s content of %d then %v", s.f.name, s.ks.name, len(s.m), log) }
	n := 1000
	faulty := func(what string, f func()) (panicked bool) {
		at := int64(1 + r.Intn(4))
		to := at
		if r.Intn(3) == 0 {
			to = 1 << 40
		}
		fd.cutGet = r.Intn(2) == 0
		fd.armGet(at, to)
		log = append(log, fmt.Sprintf("%s@%d-%d(cut %v)", what, at, to, fd.cutGet))
		panicked = doesPanic(f)
		hit := fd.gets >= at
		fd.disarm()
		if hit {
			c.Count("read_faults", 1)
		}
		return panicked && hit
	}
	for op := 0; op < 12; op++ {
		k := s.ks.pick(r)
		w, has := m[string(k)]
		switch r.Intn(6) {
		case 0, 1:
			var v interface{}
			var ok bool
			if faulty(fmt.Sprintf("get(%x)", k), func() { v, ok = t.Get(k) }) {
				c.Violate("read-fault-panic", "Get panicked over failing storage; %s", hist())
				return
			}
			if ok && (!has || s.f.id(v) != w) {
				c.Violate("read-fault-get", "Get(%x)=%v over failing storage, stored %s,%v; %s", k, v, short(w), has, hist())
			}
		case 2, 3:
			id := newID(r, &n)
			var ok bool
			if faulty(fmt.Sprintf("put(%x,%s)", k, short(id)), func() { ok = t.Put(k, s.f.mk(k, id)) }) {
				c.Violate("read-fault-panic", "Put panicked over failing storage; %s", hist())
				return
			}
			if ok {
				m[string(k)] = id
			}
		case 4:
			var ok bool
			var ch trie.ProofChain
			if faulty(fmt.Sprintf("proof(%x)", k), func() { _, ch, ok = t.GetProof(k) }) {
				c.Violate("read-fault-panic", "GetProof panicked over failing storage; %s", hist())
				return
			}
			if ok && has {
				if vh := s.f.vh(k, w); !trie.VerifyProofChain(vh, ch, rootOf(s.f.build(nil, db.NewMemDB(), m))) {
					c.Violate("read-fault-proof", "a proof of %x made over failing storage does not verify; %s", k, hist())
				}
			}
		case 5:
			var err error
			if faulty("commit", func() { err = t.Commit() }) {
				c.Violate("read-fault-panic", "Commit panicked over failing storage; %s", hist())
				return
			}
			_ = err
		}
		if r.Intn(3) == 0 { // and back to normal
			q := s.ks.pick(r)
			v, ok := t.Get(q)
			if w, has := m[string(q)]; ok != has || (ok && s.f.id(v) != w) {
				c.Violate("read-fault-lasting", "with the storage right again Get(%x)=%v,%v want %s,%v; %s", q, v, ok, short(w), has, hist())
				return
			}
		}
	}
	want := rootOf(s.f.build(nil, db.NewMemDB(), m))
	if h, err := t.CommitAndHash(); err != nil || !bytes.Equal(h, want) {
		c.Violate("read-fault-root", "with the storage right again the root is %x,%v want %x; %s", h, err, want, hist())
		return
	}
	if g, _, err := trieContent(s.f, t); err != nil || !sameMap(g, m) {
		c.Violate("read-fault-content", "with the storage right again: %v %s; %s", err, diffMaps(g, m), hist())
	}
	if g, _, err := trieContent(s.f, s.f.open(want, s.na, s.va)); err != nil || !sameMap(g, m) {
		c.Violate("read-fault-content", "committed with the storage right again, reopened: %v %s; %s", err, diffMaps(g, m), hist())
	}
	c.Case(len(m) > 2, hist())
}

func runT05(c *mon.Ctx) {
	c.Section("copies", func(_ *rand.Rand) {
		c.Cases("c", c.N2(3000, 40000), func(i int, r *rand.Rand) {
			f := pickFlavor(r)
			base := newTsim(c, r, f, db.NewMemDB())
			fill(base, r, 25)
			fam := []*tsim{base}
			diverged := false
			type openIt struct {
				it  trie.ValueIterator
				m   map[string]string
				rev bool
				ks  []string
				vs  []string
				h   string
			}
			var its []*openIt
			nops := 20 + r.Intn(60)
			for k := 0; k < nops; k++ {
				s := fam[r.Intn(len(fam))]
				switch x := r.Intn(20); {
				case x == 0 && len(fam) < 5: // clone
					cp := &tsim{c: c, f: f, ks: s.ks, d: s.d, na: s.na, va: s.va, m: cloneMap(s.m), counted: s.counted, saw: map[string]bool{}, n: s.n + 1000*len(fam), log: append([]string(nil), s.log...)}
					cp.rec("|Clone|")
					cp.t = s.t.Clone()
					fam = append(fam, cp)
					c.Count("copies", 1)
					cp.checkCount()
				case x == 1 && len(fam) < 5:
					h := s.commit()
					cp := &tsim{c: c, f: f, ks: s.ks, d: s.d, na: s.na, va: s.va, m: cloneMap(s.m), saw: map[string]bool{}, n: s.n + 1000*len(fam), log: append([]string(nil), s.log...)}
					cp.rec("|Inherit|")
					cp.t = s.t.Inherit(h)
					ruin(h) // Inherit copies the root it is given
					c.Count("inherited_roots_overwritten", 1)
					fam = append(fam, cp)
					c.Count("copies", 1)
				case x == 2 && len(fam) < 5:
					over := db.Temporary(s.d)
					nt, err := s.t.Rebase(over)
					if err != nil {
						c.Violate("rebase-error", "Rebase: %v", err)
						continue
					}
					cp := &tsim{c: c, f: f, ks: s.ks, d: over, m: cloneMap(s.m), counted: s.counted, saw: map[string]bool{}, n: s.n + 1000*len(fam), log: append([]string(nil), s.log...)}
					cp.na, cp.va = adapters(over)
					cp.rec("|Rebase|")
					cp.t = nt
					fam = append(fam, cp)
					c.Count("copies", 1)
					cp.checkCount()
				case x == 3:
					o := &openIt{m: cloneMap(s.m), rev: r.Intn(2) == 0, h: s.hist()}
					if o.rev {
						o.it = s.t.ReversedValueIterator()
					} else {
						o.it = s.t.ValueIterator()
					}
					its = append(its, o)
				default:
					tsimStep(s, r)
					c.Count("ops_on_copies", 1)
				}
				if len(its) > 0 && r.Intn(2) == 0 { // advance an open iterator a little
					o := its[r.Intn(len(its))]
					if o.it.Next() {
						kk, v := o.it.Current()
						o.ks, o.vs = append(o.ks, string(kk)), append(o.vs, f.id(v))
					}
				}
				if r.Intn(5) == 0 { // everyone still sees its own content
					o := fam[r.Intn(len(fam))]
					o.get(o.ks.pick(r))
				}
			}
			for _, o := range its {
				ks, vs := drain(f, o.it)
				ks, vs = append(o.ks, ks...), append(o.vs, vs...)
				checkSeq(c, "snapshot-iterator", ks, vs, o.m, o.rev, o.h)
				c.Count("iterators_across_writes", 1)
			}
			for x, a := range fam {
				a.checkAll()
				ref := rootOf(f.build(nil, db.NewMemDB(), a.m))
				c.Check(bytes.Equal(ref, rootOf(a.t)), "copy-root", "copy %d root differs from its content's root; %s", x, a.hist())
				for _, b := range fam[:x] {
					if !sameMap(a.m, b.m) {
						diverged = true
					}
				}
			}
			c.Case(diverged, opsKey(fam[len(fam)-1]))
		})
	})
}

package checks

import (
	"fmt"
	"math/rand"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "T01",
		Rule:  "seeded histories of trie operations over colliding key pools (nested, chained, dense, random keys; struct and raw values); non-trivial when the history contains a put, a delete of a present key and a commit or reload",
		Floor: map[string]int64{"ops": 20000, "deletes_hit": 500, "reopens": 100, "nested_contents": 100, "collapses": 100},
		Run:   runT01})
}

// tsimStep performs one random operation; returns its name.
func tsimStep(s *tsim, r *rand.Rand) string {
	switch x := r.Intn(100); {
	case x < 34:
		s.put(r, s.ks.pick(r))
		return "put"
	case x < 54:
		k := s.ks.pick(r)
		if r.Intn(4) == 0 {
			k = s.ks.near(r)
		}
		_, had := s.m[string(k)]
		s.del(k)
		if had {
			s.saw["delhit"] = true
			return "delete_hit"
		}
		return "delete_miss"
	case x < 74:
		if r.Intn(2) == 0 {
			s.get(s.ks.pick(r))
		} else {
			s.get(s.ks.near(r))
		}
		return "get"
	case x < 80:
		s.commit()
		s.saw["commit"] = true
		return "commit"
	case x < 84:
		s.reopen(r.Intn(2) == 0)
		s.saw["reopen"] = true
		return "reopen"
	case x < 88:
		s.commit()
		s.rec("Collapse")
		if err := s.t.Collapse(); err != nil {
			s.c.Violate("collapse-error", "Collapse: %v after %s", err, s.hist())
		}
		s.saw["collapse"] = true
		return "collapse"
	case x < 91:
		s.rec("HashValue")
		if _, err := s.t.HashValue(); err != nil {
			s.c.Violate("hash-error", "HashValue: %v after %s", err, s.hist())
		}
		return "hash"
	case x < 93:
		if _, err := s.t.CommitAndHash(); err != nil {
			s.c.Violate("commit-error", "CommitAndHash: %v after %s", err, s.hist())
		}
		s.rec("CommitAndHash")
		return "commit"
	case x < 95: // batch putter
		mod := 1 + r.Intn(4)
		bp := trie.NewBatchPutter(s.t, mod)
		n := 1 + r.Intn(8)
		s.rec("Batch%d/%d{", n, mod)
		for i := 0; i < n; i++ {
			k := s.ks.pick(r)
			id := newID(r, &s.n)
			s.rec("%x,%s", k, short(id))
			ok, err := bp.Put(k, s.f.mk(k, id))
			if !ok || err != nil {
				s.c.Violate("batch-put", "BatchPutter.Put(%x)=%v,%v after %s", k, ok, err, s.hist())
			}
			s.m[string(k)] = id
		}
		s.rec("}")
		s.c.Check(bp.Count() == n, "batch-count", "BatchPutter.Count=%d want %d", bp.Count(), n)
		return "batch"
	case x < 96: // many generations, so that age-based collapse happens
		s.rec("Commit*105")
		for i := 0; i < 105; i++ {
			if err := s.t.Commit(); err != nil {
				s.c.Violate("commit-error", "Commit: %v after %s", err, s.hist())
			}
		}
		s.saw["aged"] = true
		return "aged"
	case x < 97: // delete everything one by one
		s.rec("DeleteAll")
		for _, k := range sortedKeys(s.m) {
			s.del([]byte(k))
			if r.Intn(6) == 0 {
				s.commit()
			}
		}
		s.checkCount()
		return "delete_all"
	default:
		s.checkCount()
		if r.Intn(3) == 0 {
			s.checkAll()
			return "check_all"
		}
		return "count"
	}
}

func runT01(c *mon.Ctx) {
	c.Section("histories", func(_ *rand.Rand) {
		c.Cases("h", c.N2(15000, 150000), func(i int, r *rand.Rand) {
			s := newTsim(c, r, pickFlavor(r), db.NewMemDB())
			nops := 5 + r.Intn(60)
			if r.Intn(10) == 0 {
				nops = 200 + r.Intn(200)
			}
			for k := 0; k < nops; k++ {
				switch op := tsimStep(s, r); op {
				case "delete_hit":
					c.Count("deletes_hit", 1)
				case "reopen":
					c.Count("reopens", 1)
				case "collapse", "aged":
					c.Count("collapses", 1)
				}
				c.Count("ops", 1)
				if nested, empty := shapeOf(s.m); nested {
					c.Count("nested_contents", 1)
					if empty {
						c.Count("empty_key_contents", 1)
					}
				}
			}
			s.checkAll()
			s.reopen(false)
			s.checkAll()
			// old entries through a database-wide different instance
			c.Case(s.saw["delhit"] && (s.saw["commit"] || s.saw["reopen"]), opsKey(s))
		})
	})
	c.Section("exhaustive-small", func(_ *rand.Rand) {
		// every history of length <=L over a tiny nested key set: put/delete of each key, with the
		// trie reloaded after every step or never
		keys := [][]byte{{}, {0x00}, {0x00, 0x01}, {0x10}, {0x00, 0x01, 0xff}, {0x00, 0x02}}
		L := c.N2(4, 5)
		nops := len(keys) * 2
		total := 1
		for i := 0; i < L; i++ {
			total *= nops
		}
		mon.Workers(total*2, func(x int) {
			reload := x%2 == 1
			x /= 2
			c.Guard(fmt.Sprintf("exhaustive %d reload=%v", x, reload), func() {
				s := &tsim{c: c, f: flavRaw, ks: &keyspace{name: "tiny", pool: keys}, d: db.NewMemDB(), m: map[string]string{}, counted: true, saw: map[string]bool{}}
				s.na, s.va = adapters(s.d)
				s.t = s.f.open(nil, s.na, s.va)
				for i := 0; i < L; i++ {
					op := x % nops
					x /= nops
					k := keys[op/2]
					if op%2 == 0 {
						id := fmt.Sprintf("e%d", i)
						s.rec("Put(%x)", k)
						if !s.t.Put(k, s.f.mk(k, id)) {
							c.Violate("put-rejected", "Put(%x) false after %s", k, s.hist())
						}
						s.m[string(k)] = id
					} else {
						s.del(k)
					}
					if reload {
						s.reopen(false)
					} else {
						s.checkCount()
					}
				}
				for _, k := range keys {
					s.get(k)
				}
				c.Count("exhaustive_histories", 1)
			})
		})
		c.Case(true, fmt.Sprintf("all %d histories of length %d over %d nested keys, with and without reload", total, L, len(keys)))
	})
}

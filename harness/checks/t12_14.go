package checks

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"sort"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "T12",
		Rule:  "revertable tries and history trees driven by random puts, deletes, checkpoints, valid and invalid reverts, pre-commits, commits, rollbacks, replacements and copies against a snapshot-stack model; non-trivial when a revert or rollback happened after writes",
		Floor: map[string]int64{"reverts": 3000, "commits": 3000, "rollbacks": 2000, "ht_rollbacks": 300, "faults": 2000, "ht_merges": 1000, "ht_collapses": 500, "ht_rebases": 500, "undone_by_hand": 2000}, Run: runT12})
	mon.Register(&mon.Check{ID: "T13",
		Rule:  "combined tries over up to 9 named parts (empty ones included) with part updates, commits, reloads and proofs; non-trivial when at least two parts differ",
		Floor: map[string]int64{"reloads": 1000, "roots": 8000, "part_proofs": 3000, "commit_faults": 200, "reload_faults": 500, "missing_roots": 500}, Run: runT13})
	mon.Register(&mon.Check{ID: "T14",
		Rule:  "dumps of committed tries of every key style into empty stores, reopened and compared; marshalled and map forms; random and mutated node headers; non-trivial when the trie has at least two entries",
		Floor: map[string]int64{"dumps": 1500, "dump_callbacks": 15000, "headers": 4000}, Run: runT14})
}

func runT12(c *mon.Ctx) {
	c.Section("revertable-trie", func(_ *rand.Rand) {
		c.Cases("r", c.N2(2500, 30000), func(i int, r *rand.Rand) {
			f := pickFlavor(r)
			fd := newFaultDB()
			var d db.Database = fd
			na, va := adapters(d)
			ks := newKeyspace(r)
			n := 0
			var log []string
			rec := func(format string, a ...interface{}) { log = append(log, fmt.Sprintf(format, a...)) }
			hist := func() string {
				l := log
				if len(l) > 120 {
					l = l[len(l)-120:]
				}
				return f.name + "/" + ks.name + fmt.Sprint(l)
			}
			origin := map[string]string{}
			if r.Intn(2) == 0 {
				origin = randContent(r, f, ks, 12)
			}
			mk := func(m map[string]string) *trie.Trie {
				t := f.build(r, d, m)
				if r.Intn(2) == 0 {
					if err := t.Commit(); err != nil {
						c.Violate("commit", "%v", err)
					}
				}
				return t
			}
			rt := &trie.RevertableTrie{Origin: mk(origin)}
			var live map[string]string // nil: none
			type cp struct {
				root []byte
				m    map[string]string
			}
			var cps []cp
			cur := func() map[string]string {
				if live != nil {
					return live
				}
				return origin
			}
			wr := func() map[string]string {
				if live == nil {
					live = cloneMap(origin)
				}
				return live
			}
			contentOf := func(it trie.ValueIterator) map[string]string {
				m := map[string]string{}
				for it.Next() {
					k, v := it.Current()
					m[string(k)] = f.id(v)
				}
				return m
			}
			rootFor := func(m map[string]string) []byte { return rootOf(f.build(nil, db.NewMemDB(), m)) }
			check := func() {
				if g := contentOf(rt.ValueIterator()); !sameMap(g, origin) {
					c.Violate("origin-content", "committed content differs: %s; %s", diffMaps(g, origin), hist())
				}
				if g := contentOf(rt.LiveValueIterator()); !sameMap(g, cur()) {
					c.Violate("live-content", "live content differs: %s; %s", diffMaps(g, cur()), hist())
				}
				for q := 0; q < 6; q++ {
					k := ks.pick(r)
					v, ok := rt.Get(k)
					if w, has := origin[string(k)]; ok != has || (ok && f.id(v) != w) {
						c.Violate("get", "Get(%x)=%v,%v want %s,%v; %s", k, v, ok, w, has, hist())
					}
					v, ok = rt.GetLive(k)
					if w, has := cur()[string(k)]; ok != has || (ok && f.id(v) != w) {
						c.Violate("getlive", "GetLive(%x)=%v,%v want %s,%v; %s", k, v, ok, w, has, hist())
					}
				}
			}
			roots := func() {
				h, err := rt.HashValue()
				if err != nil || !bytes.Equal(h, rootFor(origin)) {
					c.Violate("root", "HashValue=%x,%v want %x; %s", h, err, rootFor(origin), hist())
				}
				h, err = rt.PreHashValue()
				if err != nil || !bytes.Equal(h, rootFor(cur())) {
					c.Violate("preroot", "PreHashValue=%x,%v want %x; %s", h, err, rootFor(cur()), hist())
				}
			}
			undone := 0
			for op := 0; op < 45; op++ {
				switch x := r.Intn(33); {
				case x >= 31: // the changes are taken back one by one, and the result may be checkpointed
					rec("undo")
					w := wr()
					for k := range w {
						if _, has := origin[k]; !has {
							ch, _ := rt.Delete([]byte(k))
							c.Check(ch, "delete", "Delete(%x)=false of a present key; %s", k, hist())
							delete(w, k)
						}
					}
					for k, id := range origin {
						if w[k] != id {
							c.Check(rt.Put([]byte(k), f.mk([]byte(k), id)), "put", "Put(%x) refused; %s", k, hist())
							w[k] = id
						}
					}
					roots()
					if len(cps) > 0 || r.Intn(2) == 0 {
						id, root, err := rt.CheckPoint()
						rec("checkpoint=%d", id)
						if err != nil || id != len(cps) || !bytes.Equal(root, rootFor(origin)) {
							c.Violate("checkpoint", "CheckPoint()=%d,%x,%v want %d,%x; %s", id, root, err, len(cps), rootFor(origin), hist())
						}
						cps = append(cps, cp{mon.Clone(root), cloneMap(origin)})
					}
					c.Count("undone_by_hand", 1)
				case x == 26:
					t, err := rt.LiveTrie()
					rec("live-trie")
					if err != nil {
						c.Violate("live-trie", "LiveTrie: %v; %s", err, hist())
						return
					}
					m, _, err := trieContent(f, t)
					c.Check(err == nil && sameMap(m, cur()), "live-trie", "LiveTrie holds something else: %v %s; %s", err, diffMaps(m, cur()), hist())
					wr()
				case x == 27:
					k := ks.pick(r)
					ex, ch, err := rt.GetExistenceProof(k)
					_, has := origin[string(k)]
					if len(origin) == 0 || len(k) == 0 {
						continue
					}
					c.Check(err == nil && ex == has, "existence", "GetExistenceProof(%x)=%v,%v want %v; %s", k, ex, err, has, hist())
					if err == nil {
						pex, err := ch.IsExist(k)
						root, rerr := ch.ExistenceHash()
						if err != nil || rerr != nil || pex != has || !bytes.Equal(root, rootFor(origin)) {
							c.Violate("existence-proof", "existence proof of %x says %v,%v under %x,%v want %v under %x; %s", k, pex, err, root, rerr, has, rootFor(origin), hist())
						}
					}
				case x == 28: // what is dumped is what was committed
					to := db.NewMemDB()
					rec("dump")
					if err := rt.Dump(to, func(k, v []byte) {}); err != nil {
						continue // refused when not all of it was committed
					}
					h, _ := rt.HashValue()
					na, va := adapters(to)
					if m, _, err := trieContent(f, f.open(h, na, va)); err != nil || !sameMap(m, origin) {
						c.Violate("dump", "the dump reopened at the root differs: %v %s; %s", err, diffMaps(m, origin), hist())
					}
				case x >= 29: // storage that fails during a checkpoint or commit
					if len(cur()) == 0 {
						continue
					}
					what := "checkpoint"
					call := func() error { id, root, err := rt.CheckPoint(); _, _ = id, root; return err }
					switch r.Intn(3) {
					case 0:
						what, call = "commit", rt.Commit
					case 1:
						what, call = "precommit", func() error { _, err := rt.PreCommit(); return err }
					}
					at := int64(1 + r.Intn(4))
					fd.arm(at, at+1000000)
					err := call()
					failed := fd.puts >= at
					rec("failing-%s@%d=%v", what, at, err)
					if failed && err == nil {
						c.Violate("fault-lost", "%s with a failed write reports success; %s", what, hist())
						return
					}
					if failed && what == "commit" && r.Intn(2) == 0 { // work goes on before the storage is right again
						origin, live, cps = cloneMap(cur()), nil, nil
						for q := 1 + r.Intn(3); q > 0; q-- {
							k := ks.pick(r)
							if r.Intn(3) == 0 {
								_, has := cur()[string(k)]
								ch, _ := rt.Delete(k)
								rec("failing-del(%x)=%v", k, ch)
								c.Check(!ch || has, "fault-delete", "Delete(%x)=true of an absent key over failing storage; %s", k, hist())
								if ch {
									delete(wr(), string(k))
								}
							} else {
								id := newID(r, &n)
								ok := rt.Put(k, f.mk(k, id))
								rec("failing-put(%x,%s)=%v", k, short(id), ok)
								if ok {
									wr()[string(k)] = id
								}
							}
						}
						fd.disarm()
						c.Count("work_over_failing_storage", 1)
						if r.Intn(2) == 0 {
							rec("rollback")
							rt.Rollback()
							live, cps = nil, nil
						}
						check()
						roots()
						if err := rt.Commit(); err != nil {
							c.Violate("commit-again", "Commit after the fault is gone: %v; %s", err, hist())
							return
						}
						origin, live, cps = cloneMap(cur()), nil, nil
						h, _ := rt.HashValue()
						if m, _, err := trieContent(f, f.open(h, na, va)); err != nil || !sameMap(m, origin) {
							c.Violate("durable", "reopened after work over failing storage and a commit: %v %s; %s", err, diffMaps(m, origin), hist())
							return
						}
						check()
						continue
					}
					fd.disarm()
					c.Count("faults", 1)
					if err == nil {
						if what == "checkpoint" {
							cps = append(cps, cp{mon.Clone(rootFor(cur())), cloneMap(cur())})
						}
					}
					if what == "commit" { // the writes stay to be committed again
						if err != nil {
							if err := rt.Commit(); err != nil {
								c.Violate("commit-again", "Commit after the fault is gone: %v; %s", err, hist())
								return
							}
						}
						origin, live, cps = cloneMap(cur()), nil, nil
						h, _ := rt.HashValue()
						if m, _, err := trieContent(f, f.open(h, na, va)); err != nil || !sameMap(m, origin) {
							c.Violate("durable", "reopened after failed and repeated commit: %v %s; %s", err, diffMaps(m, origin), hist())
						}
					} else if err != nil && len(cps) < 3 { // no checkpoint came of it
						id, root, err := rt.CheckPoint()
						if err != nil || id != len(cps) || !bytes.Equal(root, rootFor(cur())) {
							c.Violate("checkpoint-again", "CheckPoint()=%d,%x,%v want %d,%x; %s", id, root, err, len(cps), rootFor(cur()), hist())
							return
						}
						cps = append(cps, cp{mon.Clone(root), cloneMap(cur())})
					}
					check()
					roots()
				case x < 7:
					k := ks.pick(r)
					id := newID(r, &n)
					rec("put(%x,%s)", k, short(id))
					v := f.mk(k, id)
					var ok bool
					if tv, is := v.(*TV); is && r.Intn(2) == 0 {
						ok = rt.PutValue(tv)
					} else {
						ok = rt.Put(k, v)
					}
					c.Check(ok, "put", "Put(%x) refused; %s", k, hist())
					wr()[string(k)] = id
				case x < 10:
					k := ks.pick(r)
					rec("del(%x)", k)
					ch, _ := rt.Delete(k)
					w := wr()
					_, has := w[string(k)]
					c.Check(ch == has, "delete", "Delete(%x)=%v want %v; %s", k, ch, has, hist())
					delete(w, string(k))
				case x < 14:
					id, root, err := rt.CheckPoint()
					rec("checkpoint=%d", id)
					if err != nil || id != len(cps) || !bytes.Equal(root, rootFor(cur())) {
						c.Violate("checkpoint", "CheckPoint()=%d,%x,%v want %d,%x; %s", id, root, err, len(cps), rootFor(cur()), hist())
					}
					cps = append(cps, cp{mon.Clone(root), cloneMap(cur())})
				case x < 18:
					if len(cps) == 0 {
						bad := randHash(r)
						c.Check(rt.RevertTo(0, bad[:]) != nil, "revert-none", "RevertTo without checkpoints succeeded; %s", hist())
						continue
					}
					k := r.Intn(len(cps))
					if r.Intn(6) == 0 { // refused reverts change nothing
						bad := randHash(r)
						c.Check(rt.RevertTo(k, bad[:]) != nil, "revert-wrong-root", "RevertTo(%d, wrong root) succeeded; %s", k, hist())
						c.Check(rt.RevertTo(len(cps), cps[k].root) != nil, "revert-out", "RevertTo(%d) of %d succeeded; %s", len(cps), len(cps), hist())
						c.Check(rt.RevertTo(-1, cps[k].root) != nil, "revert-neg", "RevertTo(-1) succeeded; %s", hist())
						check()
						continue
					}
					rec("revert(%d)", k)
					if err := rt.RevertTo(k, cps[k].root); err != nil {
						c.Violate("revert", "RevertTo(%d): %v; %s", k, err, hist())
						return
					}
					live = cloneMap(cps[k].m)
					cps = cps[:k]
					undone++
					c.Count("reverts", 1)
					check()
					roots()
				case x < 19:
					rec("precommit")
					h, err := rt.PreCommit()
					c.Check(err == nil && bytes.Equal(h, rootFor(cur())), "precommit", "PreCommit=%x,%v want %x; %s", h, err, rootFor(cur()), hist())
				case x < 21:
					rec("commit")
					if r.Intn(2) == 0 {
						if err := rt.Commit(); err != nil {
							c.Violate("commit", "Commit: %v; %s", err, hist())
						}
					} else if h, err := rt.CommitAndHash(); err != nil || !bytes.Equal(h, rootFor(cur())) {
						c.Violate("commithash", "CommitAndHash=%x,%v want %x; %s", h, err, rootFor(cur()), hist())
					}
					origin, live, cps = cloneMap(cur()), nil, nil
					c.Check(!rt.IsDirty(), "dirty", "dirty after commit; %s", hist())
					// durable
					h, _ := rt.HashValue()
					if m, _, err := trieContent(f, f.open(h, na, va)); err != nil || !sameMap(m, origin) {
						c.Violate("durable", "reopened after commit: %s; %s", diffMaps(m, origin), hist())
					}
					c.Count("commits", 1)
				case x < 22:
					rec("rollback")
					rt.Rollback()
					live, cps = nil, nil
					undone++
					c.Check(!rt.IsDirty(), "dirty", "dirty after rollback; %s", hist())
					c.Count("rollbacks", 1)
					check()
					roots()
				case x < 23:
					m := randContent(r, f, ks, 8)
					rec("setto(%d)", len(m))
					oldCps := cps
					if err := rt.SetTo(mk(m)); err != nil {
						c.Violate("setto", "%v", err)
					}
					origin, live, cps = m, nil, nil
					if len(oldCps) > 0 { // checkpoints of the replaced trie are void
						k := r.Intn(len(oldCps))
						if !sameMap(oldCps[k].m, m) {
							if err := rt.RevertTo(k, oldCps[k].root); err == nil {
								c.Violate("revert-after-setto", "RevertTo a checkpoint of the replaced trie succeeded; %s", hist())
								return
							}
						}
					}
				case x < 24:
					rec("copy")
					cpy := rt.Copy()
					g := contentOf(cpy.ValueIterator())
					c.Check(sameMap(g, origin), "copy", "Copy content differs: %s; %s", diffMaps(g, origin), hist())
					k := ks.pick(r)
					cpy.Put(k, f.mk(k, "copied"))
					_ = cpy.Commit()
				case x < 25:
					k := ks.pick(r)
					_, ch, ok := rt.GetProof(k)
					w, has := origin[string(k)]
					c.Check(ok == has, "proof", "GetProof(%x)=%v want %v; %s", k, ok, has, hist())
					if ok {
						vh := f.vh(k, w)
						c.Check(trie.VerifyProofChain(vh, ch, rootFor(origin)), "proof-root", "proof of %x does not verify under the committed root; %s", k, hist())
					}
				default:
					roots()
				}
				if r.Intn(4) == 0 {
					check()
				}
			}
			check()
			roots()
			c.Case(undone > 0, hist())
		})
	})
	c.Section("revertable-history", func(_ *rand.Rand) {
		c.Cases("h", c.N2(600, 8000), func(i int, r *rand.Rand) {
			d := newFaultDB()
			s := newHistSim(c, d)
			if s.t == nil {
				return
			}
			for k := 0; k < r.Intn(40); k++ {
				s.append(r)
			}
			rt := &trie.RevertableHistoryTree{Origin: s.t}
			origin := s.m
			var live *refHistory
			var log []string
			cur := func() *refHistory {
				if live != nil {
					return live
				}
				return origin
			}
			hist := func() string { return fmt.Sprintf("origin=%d live=%v %v", origin.next, live != nil, log) }
			undone := 0
			for op := 0; op < 30; op++ {
				switch x := r.Intn(15); {
				case x == 14: // storage that fails for a while
					reads := r.Intn(2) == 0
					at := int64(1 + r.Intn(4))
					if reads {
						d.armGet(at, 1<<40)
					} else {
						d.arm(at, 1<<40)
					}
					if r.Intn(2) == 0 {
						err := rt.Commit()
						log = append(log, fmt.Sprintf("failing-commit(reads %v)@%d=%v", reads, at, err))
						if !reads && d.putCount() >= at && err == nil {
							c.Violate("ht-fault-lost", "Commit with a failed write reports success; %s", hist())
							return
						}
						origin, live = cur(), nil
					}
					for q := 1 + r.Intn(3); q > 0; q-- {
						l := live
						if l == nil {
							l = origin.clone()
						}
						v := randHash(r)
						err := rt.Append(l.next, v[:])
						log = append(log, fmt.Sprintf("failing-append(reads %v)@%d=%v", reads, at, err))
						if err == nil {
							l.append(v[:])
							live = l
						}
					}
					d.disarm()
					c.Count("ht_faults", 1)
					if r.Intn(2) == 0 {
						log = append(log, "rollback")
						rt.Rollback()
						live = nil
					}
				case x == 12: // giving up what is loaded changes nothing
					k := uint64(r.Int63n(int64(cur().next)+20)) &^ 15
					log = append(log, fmt.Sprintf("collapse(%d)", k))
					_ = rt.PreCollapseBefore(k)
					if r.Intn(2) == 0 {
						_ = rt.CollapseBefore(k)
					}
					c.Count("ht_collapses", 1)
					for h := uint64(0); h < origin.next; h++ {
						if r.Intn(3) == 0 {
							v, ok := rt.Get(h)
							w, has := origin.vals[h]
							c.Check(ok == has && bytes.Equal(v, w), "ht-collapse", "Get(%d)=%x,%v want %x,%v after a collapse; %s", h, v, ok, w, has, hist())
						}
					}
				case x == 13: // a tree over another storage, with the committed state only
					log = append(log, "rebase")
					var over db.Database = d
					if r.Intn(2) == 0 {
						over = db.Temporary(d)
					}
					rb, err := rt.Rebase(over)
					if err != nil || rb == nil {
						c.Violate("ht-rebase", "Rebase: %v, %v; %s", rb, err, hist())
						return
					}
					c.Count("ht_rebases", 1)
					o := origin.clone()
					for n := r.Intn(20); n > 0; n-- {
						v := randHash(r)
						if err := rb.Append(o.next, v[:]); err != nil {
							c.Violate("ht-rebase-append", "Append(%d) to the rebased tree: %v; %s", o.next, err, hist())
							return
						}
						o.append(v[:])
					}
					if r.Intn(2) == 0 {
						if err := rb.Commit(); err != nil {
							c.Violate("ht-rebase-commit", "Commit of the rebased tree: %v; %s", err, hist())
						}
						h, err := rb.HashValue()
						c.Check(err == nil && bytes.Equal(h, o.root()) && rb.Expecting() == o.next, "ht-rebase-root", "committed rebased tree: root %x,%v want %x, expecting %d want %d; %s", h, err, o.root(), rb.Expecting(), o.next, hist())
					}
					h, err := rb.PreHashValue()
					c.Check(err == nil && bytes.Equal(h, o.root()), "ht-rebase-root", "rebased tree: root %x,%v want %x; %s", h, err, o.root(), hist())
				case x == 10:
					k := uint64(r.Int63n(int64(origin.next) + 2))
					v, ch, ok := rt.GetProof(k)
					w, has := origin.vals[k]
					c.Check(ok == has && bytes.Equal(v, w) && rt.Has(k) == has, "ht-proof", "GetProof(%d)=%x,%v want %x,%v; %s", k, v, ok, w, has, hist())
					if ok {
						c.Check(trie.VerifyProofChain(common.BytesToHash(v), ch, origin.root()), "ht-proof-root", "the proof of %d does not verify under the committed root; %s", k, hist())
						// it is of the tree being extended only as long as nothing was appended
						if err := rt.MergeProof(k, v, ch); (err == nil) != (cur().next == origin.next) {
							c.Violate("ht-merge", "merging the proof of a known height %d: %v; %s", k, err, hist())
						}
						if live == nil { // a merge begins a live tree of equal content
							live = origin.clone()
						}
					}
				case x == 11: // a tree of which only the last path is known, filled by proofs
					if origin.next == 0 || len(origin.vals) == 0 {
						continue
					}
					last := origin.next - 1
					v, ch, ok := rt.GetProof(last)
					if !ok {
						c.Violate("ht-proof", "no proof of %d; %s", last, hist())
						return
					}
					t2, err := trie.RestoreTreeFromProofs(db.NewMemDB(), histPrefix, last, v, ch)
					if err != nil {
						c.Violate("ht-restore", "RestoreTreeFromProofs(%d): %v; %s", last, err, hist())
						return
					}
					part := &trie.RevertableHistoryTree{Origin: t2}
					var merged []uint64
					for q := 0; q < 4; q++ {
						k := uint64(r.Int63n(int64(origin.next)))
						v, ch, ok := rt.GetProof(k)
						if !ok {
							continue
						}
						if err := part.MergeProof(k^1, v, ch); err == nil {
							c.Violate("ht-merge-wrong", "the proof of %d is merged for %d; %s", k, k^1, hist())
						}
						if err := part.MergeProof(k, v, ch); err != nil {
							c.Violate("ht-merge", "MergeProof(%d): %v; %s", k, err, hist())
							return
						}
						merged = append(merged, k)
					}
					c.Count("ht_merges", int64(len(merged)))
					h, err := part.PreHashValue()
					c.Check(err == nil && bytes.Equal(h, origin.root()), "ht-merge-root", "root %x,%v after merging %v, want %x; %s", h, err, merged, origin.root(), hist())
					if r.Intn(2) == 0 {
						part.Rollback()
						for _, k := range merged {
							if g, ok := part.Get(k); ok && !bytes.Equal(g, origin.vals[k]) {
								c.Violate("ht-merge-rollback", "Get(%d)=%x; %s", k, g, hist())
							}
						}
						continue
					}
					if g, err := part.CommitAndHash(); err != nil || !bytes.Equal(g, origin.root()) {
						c.Violate("ht-merge-commit", "CommitAndHash=%x,%v want %x; %s", g, err, origin.root(), hist())
					}
					for _, k := range append(merged, last) {
						if g, ok := part.Get(k); !ok || !bytes.Equal(g, origin.vals[k]) {
							c.Violate("ht-merge-get", "Get(%d)=%x,%v want %x after merging %v; %s", k, g, ok, origin.vals[k], merged, hist())
						}
					}
				case x < 4:
					cnt := 1 + r.Intn(30)
					log = append(log, fmt.Sprintf("append*%d", cnt))
					for k := 0; k < cnt; k++ {
						if live == nil {
							live = origin.clone()
						}
						v := randHash(r)
						if err := rt.Append(live.next, v[:]); err != nil {
							c.Violate("ht-append", "Append(%d): %v; %s", live.next, err, hist())
							return
						}
						live.append(v[:])
						if err := rt.Append(live.next+1+uint64(r.Intn(3)), v[:]); err == nil {
							c.Violate("ht-append-order", "out-of-order append accepted; %s", hist())
						}
					}
				case x < 5:
					log = append(log, "rollback")
					rt.Rollback()
					live = nil
					undone++
					c.Count("ht_rollbacks", 1)
				case x < 6:
					log = append(log, "commit")
					if h, err := rt.CommitAndHash(); err != nil || !bytes.Equal(h, cur().root()) {
						c.Violate("ht-commit", "CommitAndHash=%x,%v want %x; %s", h, err, cur().root(), hist())
					}
					origin, live = cur(), nil
					t, err := trie.NewHistoryTree(d, histPrefix, origin.root(), false)
					if err != nil || t.Expecting() != origin.next {
						c.Violate("ht-durable", "reopen after commit: %v; %s", err, hist())
					}
				case x < 7:
					log = append(log, "precommit")
					h, err := rt.PreCommit()
					c.Check(err == nil && bytes.Equal(h, cur().root()), "ht-precommit", "PreCommit=%x,%v want %x; %s", h, err, cur().root(), hist())
				}
				h, err := rt.HashValue()
				c.Check(err == nil && bytes.Equal(h, origin.root()), "ht-root", "HashValue=%x,%v want %x; %s", h, err, origin.root(), hist())
				h, err = rt.PreHashValue()
				c.Check(err == nil && bytes.Equal(h, cur().root()), "ht-preroot", "PreHashValue=%x,%v want %x; %s", h, err, cur().root(), hist())
				c.Check(rt.Expecting() == origin.next, "ht-expecting", "Expecting=%d want %d; %s", rt.Expecting(), origin.next, hist())
				for q := 0; q < 3; q++ {
					k := uint64(r.Int63n(int64(cur().next) + 2))
					v, ok := rt.Get(k)
					w, has := origin.vals[k]
					c.Check(ok == has && bytes.Equal(v, w), "ht-get", "Get(%d)=%x,%v want %x,%v; %s", k, v, ok, w, has, hist())
				}
			}
			c.Case(undone > 0, hist())
		})
	})
}

func runT13(c *mon.Ctx) {
	c.Section("combined", func(_ *rand.Rand) {
		c.Cases("c", c.N2(1500, 15000), func(i int, r *rand.Rand) {
			f := pickFlavor(r)
			enc, dec, hsh := flavFuncs(f)
			d := newFaultDB()
			na, va := adapters(d)
			if f == flavHash {
				va = db.NewTransparentDataAdapter()
			}
			ca := db.NewKeyPrefixedDataAdapter(d, []byte("c"))
			ks := newKeyspace(r)
			names := []string{"account", "b", "chain", "", "a", "aa", "z\x00", "\xff", "mid"}
			if r.Intn(6) == 0 {
				names = append(names, string(bytes.Repeat([]byte("n"), 30+r.Intn(60))), string(bytes.Repeat([]byte("m"), []int{127, 128, 255, 256, 300, 65535, 65536}[r.Intn(7)])))
			}
			r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			names = names[:1+r.Intn(len(names))]
			ct := trie.NewCombinedTrie(ca)
			model := map[string]map[string]string{}
			var log []string
			rec := func(format string, a ...interface{}) { log = append(log, fmt.Sprintf(format, a...)) }
			hist := func() string { return fmt.Sprint(log) }
			n := 0
			sorted := func() []string {
				var o []string
				for k := range model {
					o = append(o, k)
				}
				sort.Strings(o)
				return o
			}
			for _, nm := range names {
				m := map[string]string{}
				if r.Intn(3) > 0 {
					m = randContent(r, f, ks, 8)
				}
				if !ct.Put([]byte(nm), f.build(r, d, m)) {
					c.Violate("put", "Put(%q) refused", nm)
				}
				model[nm] = m
				rec("put(%q,%d)", nm, len(m))
			}
			wantRoot := func() []byte {
				if len(model) == 0 {
					return common.NilHashSlice
				}
				var hs [][]byte
				for _, k := range sorted() {
					hs = append(hs, rootOf(f.build(nil, db.NewMemDB(), model[k])))
				}
				return last3(refComplete(hs))
			}
			seen := map[string]string{}
			check := func(ct *trie.SmallCombinedTrie, what string) []byte {
				h, err := ct.HashValue()
				w := wantRoot()
				c.Count("roots", 1)
				if err != nil || !bytes.Equal(h, w) {
					c.Violate("root", "%s: root %x,%v want %x; %s", what, h, err, w, hist())
				}
				// equal roots only for equal parts (by name, here: names fixed per combination)
				st := fmt.Sprintf("%q", sorted()) + fmt.Sprintf("%v", model)
				nm := fmt.Sprintf("%q", sorted())
				if o, ok := seen[nm+string(h)]; ok && o != st {
					c.Violate("root-collision", "%s: different parts with the same root %x; %s", what, h, hist())
				}
				seen[nm+string(h)] = st
				if g := ct.Keys(); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", sorted()) {
					c.Violate("keys", "%s: Keys %q want %q; %s", what, g, sorted(), hist())
				}
				it := ct.ValueIterator()
				var its []string
				if k, v := it.Current(); k != nil || v != nil {
					c.Violate("iter-idle", "Current before Next = %q,%v; %s", k, v, hist())
				}
				for it.Next() {
					k, v := it.Current()
					its = append(its, string(k))
					t, ok := v.(*trie.Trie)
					if !ok {
						c.Violate("iter", "iterator value %T", v)
						continue
					}
					if m, _, err := trieContent(f, t); err != nil || !sameMap(m, model[string(k)]) {
						c.Violate("part", "%s: part %q: %s; %s", what, k, diffMaps(m, model[string(k)]), hist())
					}
				}
				if fmt.Sprintf("%q", its) != fmt.Sprintf("%q", sorted()) {
					c.Violate("iter-keys", "%s: iterated %q want %q; %s", what, its, sorted(), hist())
				}
				for k, m := range model {
					v, pc, ok := ct.GetProof([]byte(k))
					if !ok {
						c.Violate("proof", "%s: no proof of part %q; %s", what, k, hist())
						continue
					}
					c.Count("part_proofs", 1)
					_ = v
					pr := common.BytesToHash(rootOf(f.build(nil, db.NewMemDB(), m)))
					if !trie.VerifyProofChain(pr, pc, w) {
						c.Violate("proof-root", "%s: proof of part %q does not lead to the root; %s", what, k, hist())
					}
					pr[r.Intn(32)] ^= byte(1 + r.Intn(255))
					if trie.VerifyProofChain(pr, pc, w) {
						c.Violate("proof-wrong", "%s: proof of part %q verifies for another part root", what, k)
					}
				}
				if _, _, ok := ct.GetProof([]byte("nosuchpart")); ok {
					c.Violate("proof-absent", "proof of an absent part")
				}
				if v, ok := ct.Get([]byte("nosuchpart")); ok || v != nil {
					c.Violate("get-absent", "absent part found: %v", v)
				}
				return w
			}
			check(ct, "new")
			for op := 0; op < 12; op++ {
				ns := sorted()
				switch r.Intn(9) {
				case 7: // storage that fails during a commit
					at := int64(1 + r.Intn(6))
					d.arm(at, at+int64(r.Intn(2))*1000000)
					err := ct.Commit()
					failed := d.putCount() >= at
					d.disarm()
					rec("failing-commit@%d=%v", at, err)
					if failed && err == nil {
						c.Violate("fault-lost", "Commit with a failed write reports success; %s", hist())
						return
					}
					if !failed {
						continue
					}
					c.Count("commit_faults", 1)
					// nothing that iterates a part may come before this: iterating commits it
					w := wantRoot()
					// had the process died here: the root is there with everything under it or not at all
					if has, _ := d.Has(append([]byte("c"), w...)); has {
						nt := trie.NewCombinedTrie(ca)
						if err := nt.InitTrie(w, na, va, enc, dec, hsh); err != nil {
							c.Violate("crash-root", "after a failed commit the root is stored but InitTrie says %v; %s", err, hist())
						} else {
							check(nt, "reloaded after a failed commit")
						}
					}
					check(ct, "after a failed commit")
				case 8: // storage that fails during a reload
					if err := ct.Commit(); err != nil {
						c.Violate("commit", "Commit: %v; %s", err, hist())
						return
					}
					h := wantRoot()
					if len(model) == 0 {
						continue
					}
					gone := randHash(r)
					if r.Intn(2) == 0 {
						gone = common.BytesToHash(h)
						gone[r.Intn(32)] ^= byte(1 + r.Intn(255))
					}
					if st, err := ca.Load(gone[:]); len(st) == 0 && gone != common.NilHash {
						lt := trie.NewCombinedTrie(ca)
						if err2 := lt.InitTrie(gone[:], na, va, enc, dec, hsh); err2 == nil || len(lt.Keys()) != 0 {
							c.Violate("reload-missing", "InitTrie(%x), a root not in the storage (%v), gives %v and parts %q; %s", gone[:], err, err2, lt.Keys(), hist())
						}
						c.Count("missing_roots", 1)
					}
					at := int64(1 + r.Intn(3))
					d.armGet(at, at+1000000)
					nt := trie.NewCombinedTrie(ca)
					err := nt.InitTrie(h, na, va, enc, dec, hsh)
					d.disarm()
					rec("failing-reload@%d=%v", at, err)
					c.Count("reload_faults", 1)
					if err == nil {
						check(nt, "reloaded over a failing store")
					}
				case 0, 1, 2:
					if len(ns) == 0 {
						continue
					}
					nm := ns[r.Intn(len(ns))]
					v, ok := ct.Get([]byte(nm))
					t, is := v.(*trie.Trie)
					if !ok || !is {
						c.Violate("get", "part %q: %T,%v; %s", nm, v, ok, hist())
						return
					}
					for k := 0; k < 1+r.Intn(4); k++ {
						key := ks.pick(r)
						if r.Intn(3) == 0 {
							t.Delete(key)
							delete(model[nm], string(key))
						} else {
							id := newID(r, &n)
							t.Put(key, f.mk(key, id))
							model[nm][string(key)] = id
						}
					}
					rec("update(%q)", nm)
				case 3:
					nm := names[r.Intn(len(names))]
					_, has := model[nm]
					ch, old := ct.Delete([]byte(nm))
					if ch != has || (has && old == nil) {
						c.Violate("delete", "Delete(%q)=%v,%v want %v; %s", nm, ch, old, has, hist())
					}
					delete(model, nm)
					rec("delete(%q)", nm)
				case 4:
					nm := names[r.Intn(len(names))]
					m := randContent(r, f, ks, 5)
					ct.Put([]byte(nm), f.build(r, d, m))
					model[nm] = m
					rec("put(%q,%d)", nm, len(m))
				default:
					rec("commit+reload")
					if err := ct.Commit(); err != nil {
						c.Violate("commit", "Commit: %v; %s", err, hist())
						return
					}
					if ct.IsDirty() {
						c.Violate("dirty", "dirty after commit; %s", hist())
					}
					h := check(ct, "committed")
					nt := trie.NewCombinedTrie(ca)
					if err := nt.InitTrie(h, na, va, enc, dec, hsh); err != nil {
						c.Violate("reload", "InitTrie(%x) with %d parts: %v; %s", h, len(model), err, hist())
						return
					}
					check(nt, "reloaded")
					c.Count("reloads", 1)
					if r.Intn(2) == 0 {
						ct = nt
					}
				}
				switch r.Intn(3) {
				case 0:
					check(ct, "after op")
				case 1: // without touching the parts
					if h, err := ct.HashValue(); err != nil || !bytes.Equal(h, wantRoot()) {
						c.Violate("root", "after op: root %x,%v want %x; %s", h, err, wantRoot(), hist())
					}
				}
			}
			check(ct, "end")
			c.Case(len(names) > 1, hist())
		})
	})
}

func runT14(c *mon.Ctx) {
	c.Section("dump", func(_ *rand.Rand) {
		c.Cases("d", c.N2(2500, 25000), func(i int, r *rand.Rand) {
			f := pickFlavor(r)
			s := newTsim(c, r, f, db.NewMemDB())
			fill(s, r, 40)
			st := residency(s, r)
			if err := s.t.Commit(); err != nil {
				c.Violate("commit", "%v", err)
				return
			}
			root := rootOf(s.t)
			to := db.NewMemDB()
			got := map[string]int{}
			raw := map[string][]byte{}
			err := s.t.Dump(to, func(k, v []byte) {
				got[string(k)]++
				raw[string(k)] = mon.Clone(v)
				c.Count("dump_callbacks", 1)
			})
			if err != nil {
				c.Violate("dump", "Dump: %v (%s); %s", err, st, s.hist())
				return
			}
			c.Count("dumps", 1)
			for k := range s.m {
				if got[k] != 1 {
					c.Violate("dump-callback", "Dump reported key %x %d times (%s); %s", k, got[k], st, s.hist())
				}
			}
			for k := range got {
				if _, ok := s.m[k]; !ok {
					c.Violate("dump-extra", "Dump reported unknown key %x; %s", k, s.hist())
				}
			}
			na2, va2 := adapters(to)
			t2 := f.open(root, na2, va2)
			m, _, err := trieContent(f, t2)
			if err != nil || !sameMap(m, s.m) {
				c.Violate("dump-content", "dumped store serves %s (%v, %s); %s", diffMaps(m, s.m), err, st, s.hist())
			}
			// a rebuild from the dumped entries has the same root
			nt := f.open(nil, na2, va2)
			for k, v := range m {
				nt.Put([]byte(k), f.mk([]byte(k), v))
			}
			c.Check(bytes.Equal(rootOf(nt), root), "sync-root", "trie rebuilt from the dumped entries has another root; %s", s.hist())
			// raw value bytes are what the value hash commits to
			for k, b := range raw {
				if len(b) == 0 {
					continue
				}
				vh := f.vh([]byte(k), s.m[k])
				if len(s.m[k]) > 0 && f == flavRaw && !bytes.Equal(b, []byte(s.m[k])) {
					c.Violate("dump-bytes", "value bytes of %x are %s want %s", k, mon.Hex(b), mon.Hex([]byte(s.m[k])))
				}
				_ = vh
			}
			// the source is unchanged
			if m, _, err := trieContent(f, s.t); err != nil || !sameMap(m, s.m) || !bytes.Equal(rootOf(s.t), root) {
				c.Violate("dump-source", "Dump changed the source: %s; %s", diffMaps(m, s.m), s.hist())
			}
			// a dirty trie is refused
			if len(s.m) > 0 {
				s.put(r, s.ks.pick(r))
				if s.t.IsDirty() {
					if err := s.t.Dump(db.NewMemDB(), nil); err == nil {
						c.Violate("dump-dirty", "Dump of a dirty trie succeeded; %s", s.hist())
					}
				}
			}
			c.Case(len(s.m) > 1, st+" "+s.hist())
		})
	})
	c.Section("dump-faults", func(_ *rand.Rand) {
		c.Cases("f", c.N2(500, 5000), func(i int, r *rand.Rand) {
			f := pickFlavor(r)
			s := newTsim(c, r, f, db.NewMemDB())
			fill(s, r, 30)
			_ = s.t.Commit()
			if len(s.m) == 0 {
				return
			}
			to := newFaultDB()
			at := int64(1 + r.Intn(12))
			to.arm(at, at)
			err := s.t.Dump(to, nil)
			if to.putCount() >= at && err == nil {
				c.Violate("dump-fault-hidden", "write %d of Dump failed, Dump returned nil; %s", at, s.hist())
			}
			c.Case(err != nil, s.hist())
			c.Count("dump_faults", 1)
		})
	})
	c.Section("headers", func(_ *rand.Rand) {
		c.Cases("h", c.N2(200, 2000), func(i int, r *rand.Rand) {
			// genuine headers come out of proofs
			f := pickFlavor(r)
			s := newTsim(c, r, f, db.NewMemDB())
			fill(s, r, 30)
			var hs []trie.NodeHeader
			for _, k := range sortedKeys(s.m) {
				_, ch, ok := s.t.GetProof([]byte(k))
				if !ok {
					continue
				}
				for _, n := range ch {
					hs = append(hs, n.Header)
				}
				if p := chainPath(ch); !bytes.Equal(p, nibbles([]byte(k))) {
					c.Violate("header-path", "headers on the path of %x spell %x; %s", k, p, s.hist())
				}
			}
			seen := map[string]trie.NodeHeader{}
			for _, h := range hs {
				c.Count("headers", 1)
				b, err := rtl.Marshal(&h)
				var back trie.NodeHeader
				if err == nil {
					err = rtl.Unmarshal(b, &back)
				}
				if err != nil || !h.Equal(back) || !bytes.Equal(h.KeyToPrefix(), back.KeyToPrefix()) {
					c.Violate("header-roundtrip", "header %s -> %x -> %s (%v)", h, b, back, err)
				}
				var buf bytes.Buffer
				_ = h.Serialization(&buf)
				brokenWriter(c, r, "header-writer", mon.Clone(buf.Bytes()), h.Serialization)
				brokenReader(c, r, "header-reader", buf.Bytes(), func(rd io.Reader) error {
					_, err := new(trie.NodeHeader).Deserialization(rd)
					return err
				})
				var b2 trie.NodeHeader
				if _, err := b2.Deserialization(&chunkReader{b: mon.Clone(buf.Bytes()), r: r, m: 1 + r.Intn(5)}); err != nil || !h.Equal(b2) {
					c.Violate("header-chunked", "header %s read in pieces -> %s (%v)", h, b2, err)
				}
				// injective: the encoding determines the header
				if o, ok := seen[string(b)]; ok && !o.Equal(h) {
					c.Violate("header-collision", "headers %s and %s encode the same", o, h)
				}
				seen[string(b)] = h
				cl := h.Clone()
				if !cl.Equal(h) {
					c.Violate("header-clone", "clone differs")
				}
				for x := 0; x < 16; x++ {
					w := h.NT.HasChildren() && h.ChildrenFlag[x/8]>>uint(x%8)&1 == 1
					if h.HasChild(x) != w {
						c.Violate("header-child", "HasChild(%d)", x)
					}
				}
			}
			c.Case(len(hs) > 2, s.hist())
		})
	})
}

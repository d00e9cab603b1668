package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/anishathalye/porcupine"
	"github.com/stephenfire/go-rtl"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "T15", Race: true,
		Rule:  "5-6 goroutines on one trie (in memory, over a slow store, reopened, or behind SyncTrie; sometimes with clones of it over the same store), every call recorded and the history checked for a linearization against a map whose root hashes are computed independently; non-trivial when calls overlapped",
		Floor: map[string]int64{"linearizable_histories": 150, "linearizable_ops": 6000, "overlaps": 2000, "snapshots": 500, "roots_seen": 500, "proofs_seen": 300, "any_trie_calls": 3000}, Run: runT15})
	mon.Register(&mon.Check{ID: "T16", Race: true,
		Rule:  "4-6 goroutines on one history tree, revertable history tree, revertable trie or combined trie, every call recorded and the history checked for a linearization against a reference model with independently computed roots; non-trivial when calls overlapped",
		Floor: map[string]int64{"linearizable_histories": 200, "linearizable_ops": 8000, "overlaps": 2000, "ht_roots": 400, "rv_reverts": 50}, Run: runT16})
}

// drive runs g goroutines of n recorded calls each; ok is false when the calls did not end.
func drive(c *mon.Ctx, r *rand.Rand, what string, g, n int, step func(g int, r *rand.Rand, k int) (interface{}, func() interface{})) (all []porcupine.Operation, ok bool) {
	seeds := make([]int64, g)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	hist := make([][]porcupine.Operation, g)
	if !c.Within(what, 120*time.Second, func() {
		mon.Parallel(g, func(id int) {
			rr := rand.New(rand.NewSource(seeds[id]))
			for k := 0; k < n; k++ {
				in, f := step(id, rr, k)
				t0 := mon.Now()
				out := f()
				t1 := mon.Now()
				if out != nil {
					hist[id] = append(hist[id], porcupine.Operation{ClientId: id, Input: in, Output: out, Call: t0, Return: t1})
				}
				if rr.Intn(5) == 0 {
					runtime.Gosched()
				}
			}
		})
	}) {
		return nil, false
	}
	for _, h := range hist {
		all = append(all, h...)
	}
	return all, true
}

func judge(c *mon.Ctx, name string, m porcupine.Model, all []porcupine.Operation) {
	ov := overlaps(all)
	c.Count("overlaps", ov)
	c.Linearizable(m, all, "not-linearizable:"+name, showOps(all, m))
	c.Case(ov > 0, fmt.Sprintf("%s %d ops %d overlaps", name, len(all), ov))
}

// ---------- T15 ----------

// bareTrie is an ITrie that is not safe for concurrent use and tells when it was used so.
type bareTrie struct {
	in, overlapped int32
	calls          int // plain: only correct when calls are mutually exclusive
}

type bareValue []byte

func (b bareValue) Key() []byte { return b }

var errBare = errors.New("the bare trie's error")

func (b *bareTrie) enter() func() {
	if atomic.AddInt32(&b.in, 1) != 1 {
		atomic.AddInt32(&b.overlapped, 1)
	}
	b.calls++
	runtime.Gosched()
	return func() { atomic.AddInt32(&b.in, -1) }
}
func (b *bareTrie) HashValue() ([]byte, error) { defer b.enter()(); return []byte("hash"), errBare }
func (b *bareTrie) Get(key []byte) (interface{}, bool) {
	defer b.enter()()
	return string(key), true
}
func (b *bareTrie) Put(_ []byte, v interface{}) bool { defer b.enter()(); return v.(int)%2 == 0 }
func (b *bareTrie) PutValue(v trie.TrieValue) bool   { defer b.enter()(); return v.Key()[1]%2 == 0 }
func (b *bareTrie) Delete(key []byte) (bool, interface{}) {
	defer b.enter()()
	return key[1]%2 == 0, string(key)
}
func (b *bareTrie) IsDirty() bool { defer b.enter()(); return true }
func (b *bareTrie) Commit() error { defer b.enter()(); return errBare }
func (b *bareTrie) GetProof(key []byte) (interface{}, trie.ProofChain, bool) {
	defer b.enter()()
	return string(key), make(trie.ProofChain, 1), key[1]%2 == 0
}
func (b *bareTrie) GetExistenceProof(key []byte) (bool, trie.ProofChain, error) {
	defer b.enter()()
	return key[1]%2 == 0, make(trie.ProofChain, 2), errBare
}
func (b *bareTrie) ValueIterator() trie.ValueIterator { defer b.enter()(); return bareIter{b: b} }

type bareIter struct {
	trie.ValueIterator
	b *bareTrie
}

const tKeys = 6

// tState is the content of a trie over tKeys keys: 0 = absent, otherwise a value number.
type tState [tKeys]uint16

func (s tState) count() (n int) {
	for _, v := range s {
		if v != 0 {
			n++
		}
	}
	return
}

type tIn struct {
	op string
	k  int
	v  uint16
}

type tOut struct {
	ok   bool
	v    uint16 // value read or removed, 0xffff = not a value ever written
	n    int
	root string
	all  tState
	err  string
}

// tWorld knows the keys, the values and the canonical root of every content.
type tWorld struct {
	f    *flavor
	keys [][]byte
	pad  int
	mu   sync.Mutex
	memo map[tState]string
}

func (w *tWorld) id(v uint16) string { return fmt.Sprintf("#%d#%s", v, idPad[:w.pad]) }

func (w *tWorld) num(v interface{}) uint16 {
	s := w.f.id(v)
	var n uint16
	if _, err := fmt.Sscanf(s, "#%d#", &n); err != nil || s != w.id(n) {
		return 0xffff
	}
	return n
}

func (w *tWorld) mk(k int, v uint16) interface{} { return w.f.mk(w.keys[k], w.id(v)) }

func (w *tWorld) content(s tState) map[string]string {
	m := map[string]string{}
	for i, v := range s {
		if v != 0 {
			m[string(w.keys[i])] = w.id(v)
		}
	}
	return m
}

func (w *tWorld) root(s tState) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if h, ok := w.memo[s]; ok {
		return h
	}
	h := string(rootOf(w.f.build(nil, db.NewMemDB(), w.content(s))))
	w.memo[s] = h
	return h
}

// read turns what an iterator (or a dump) delivered into a content; false: something impossible was delivered.
func (w *tWorld) read(next func() ([]byte, uint16, bool), order int) (tState, string) {
	var s tState
	var prev []byte
	for n := 0; ; n++ {
		k, v, more := next()
		if !more {
			return s, ""
		}
		i := w.index(k)
		if i < 0 {
			return s, fmt.Sprintf("unknown key %x", k)
		}
		if s[i] != 0 {
			return s, fmt.Sprintf("key %x twice", k)
		}
		if v == 0 || v == 0xffff {
			return s, fmt.Sprintf("strange value under %x", k)
		}
		if order != 0 && n > 0 && bytes.Compare(prev, k)*order >= 0 {
			return s, fmt.Sprintf("%x after %x", k, prev)
		}
		s[i], prev = v, k
	}
}

func (w *tWorld) index(k []byte) int {
	for i, x := range w.keys {
		if bytes.Equal(x, k) {
			return i
		}
	}
	return -1
}

func (w *tWorld) iter(it trie.ValueIterator, order int) (tState, string) {
	return w.read(func() ([]byte, uint16, bool) {
		if !it.Next() {
			return nil, 0, false
		}
		k, v := it.Current()
		return k, w.num(v), true
	}, order)
}

func (w *tWorld) model(init tState, counted bool) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s, i, o := st.(tState), in.(tIn), out.(tOut)
			if o.err != "" {
				return false, s
			}
			switch i.op {
			case "put":
				s[i.k] = i.v
				return o.ok, s
			case "delete":
				was := s[i.k]
				s[i.k] = 0
				return o.ok == (was != 0) && o.v == was, s
			case "get":
				return o.v == s[i.k], s
			case "count":
				return o.n == s.count(), s
			case "empty":
				return o.ok == (s.count() == 0), s
			case "root":
				return o.root == w.root(s), s
			case "proof":
				return o.v == s[i.k] && (o.v == 0 || o.root == w.root(s)), s
			case "existence":
				return o.ok == (s[i.k] != 0) && o.root == w.root(s), s
			case "snapshot":
				return o.all == s && (o.n < 0 || !counted || o.n == s.count()), s
			}
			panic("op " + i.op)
		},
		DescribeOperation: func(in, out interface{}) string {
			i, o := in.(tIn), out.(tOut)
			if len(o.root) > 4 {
				o.root = fmt.Sprintf("%x", o.root[:4])
			}
			return fmt.Sprintf("%s(k%d,%d)->ok=%v v=%d n=%d root=%s all=%v %s", i.op, i.k, i.v, o.ok, o.v, o.n, o.root, o.all, o.err)
		},
	}
}

// slowStore delays store calls a little, so that calls overlap inside the trie.
type slowStore struct {
	db.Database
	every int64
}

// pause uses no shared state: a lock here would order the callers and hide their races.
func (s *slowStore) pause() {
	if s.every > 0 && mon.Now()>>4%(4*s.every) == 0 {
		time.Sleep(20 * time.Microsecond)
	} else {
		runtime.Gosched()
	}
}

func (s *slowStore) Get(k []byte) ([]byte, error) { s.pause(); return s.Database.Get(k) }
func (s *slowStore) Put(k, v []byte) error        { s.pause(); return s.Database.Put(k, v) }

func tKeysFor(r *rand.Rand) [][]byte {
	switch r.Intn(5) {
	case 3: // long keys: one extends another, others fork at the first, middle and last byte
		base := make([]byte, []int{55, 64, 128, 256, 400}[r.Intn(5)])
		r.Read(base)
		out := [][]byte{base, append(mon.Clone(base), base[:20]...)}
		for i := 2; i < tKeys; i++ {
			b := mon.Clone(base)
			b[[]int{0, len(b) - 1, len(b) / 2, len(b) - 2}[i-2]] ^= byte(i)
			out = append(out, b)
		}
		return out
	case 0:
		return [][]byte{{}, {0x61}, {0x61, 0x62}, {0x61, 0x62, 0x63}, {0x62}, {0x60}}
	case 1:
		return [][]byte{{0x10}, {0x11}, {0x12}, {0x20}, {0x21}, {0x31}}
	case 2:
		base := make([]byte, 32)
		r.Read(base)
		out := [][]byte{base}
		for i := 1; i < tKeys; i++ {
			b := mon.Clone(base)
			b[[]int{31, 31, 16, 1, 0}[i-1]] ^= byte(i)
			out = append(out, b)
		}
		return out
	}
	return [][]byte{{0x00, 0x00}, {0x00, 0x01}, {0x00, 0x10}, {0x01, 0x00}, {0x10, 0x00}, {0x00}}
}

func proofRoot(ch trie.ProofChain, vh common.Hash) (string, string) {
	h, err := ch.Proof(vh)
	if err != nil {
		return "", "proof: " + err.Error()
	}
	return string(h), ""
}

func runT15(c *mon.Ctx) {
	c.Section("linearizability", func(_ *rand.Rand) {
		for i := 0; i < c.N2(240, 2400); i++ {
			r := c.Rand(fmt.Sprintf("lin/%d", i))
			w := &tWorld{f: flavors[i%2], keys: tKeysFor(r), pad: []int{0, 40, 40, 4500}[r.Intn(4)], memo: map[tState]string{}}
			var store db.Database = db.NewMemDB()
			if r.Intn(2) == 0 {
				store = &slowStore{Database: store, every: int64(r.Intn(3))}
			}
			na, va := adapters(store)
			var init tState
			var next uint16 = 1
			t := w.f.open(nil, na, va)
			for k := range init {
				if r.Intn(2) == 0 {
					init[k] = next
					next++
					t.Put(w.keys[k], w.mk(k, init[k]))
				}
			}
			kind := []string{"memory", "committed", "reopened", "sync", "collapsed"}[i%5]
			counted := true
			switch kind {
			case "committed":
				_ = t.Commit()
			case "collapsed":
				_ = t.Commit()
				_ = t.Collapse()
			case "reopened":
				_ = t.Commit()
				t = w.f.open(rootOf(t), na, va)
				counted = init.count() == 0
			}
			var it trie.ITrie = t
			if kind == "sync" {
				it = trie.NewSyncTrie(t)
				counted = false
			}
			var direct *trie.Trie
			if kind != "sync" {
				direct = t
			}
			G, per := 5, 12
			var snaps, roots, proofs int64
			var cmu sync.Mutex
			tick := func(p *int64) { cmu.Lock(); *p++; cmu.Unlock() }
			all, ok := drive(c, r, "concurrent use of a "+kind+" trie", G, per, func(g int, r *rand.Rand, k int) (interface{}, func() interface{}) {
				key := r.Intn(tKeys)
				kb := append(make([]byte, 0, 40), w.keys[key]...)
				num := 100 + uint16(g*per+k)
				x := r.Intn(30)
				if direct == nil && x >= 22 {
					x = r.Intn(22)
				}
				switch {
				case x < 6:
					val := w.mk(key, num)
					return tIn{"put", key, num}, func() interface{} {
						if tv, is := val.(*TV); is && num%3 == 0 {
							return tOut{ok: it.PutValue(tv)}
						}
						ok := it.Put(kb, val)
						scribble(kb)
						return tOut{ok: ok}
					}
				case x < 9:
					return tIn{"delete", key, 0}, func() interface{} {
						ch, old := it.Delete(kb)
						o := tOut{ok: ch}
						if old != nil {
							o.v = w.num(old)
						}
						return o
					}
				case x < 13:
					return tIn{"get", key, 0}, func() interface{} {
						v, ok := it.Get(kb)
						if !ok {
							if v != nil {
								return tOut{err: "value without presence"}
							}
							return tOut{}
						}
						return tOut{v: w.num(v)}
					}
				case x < 15:
					return tIn{op: "root"}, func() interface{} {
						tick(&roots)
						h, err := it.HashValue()
						if err != nil {
							return tOut{err: err.Error()}
						}
						return tOut{root: string(h)}
					}
				case x < 17:
					return tIn{op: "commit"}, func() interface{} {
						if err := it.Commit(); err != nil {
							return tOut{err: err.Error()}
						}
						it.IsDirty()
						return nil
					}
				case x < 19:
					return tIn{"proof", key, 0}, func() interface{} {
						v, ch, ok := it.GetProof(kb)
						if !ok {
							return tOut{}
						}
						tick(&proofs)
						o := tOut{v: w.num(v)}
						o.root, o.err = proofRoot(ch, w.f.vh(w.keys[key], w.id(o.v)))
						return o
					}
				case x < 20 && len(w.keys[key]) > 0:
					return tIn{"existence", key, 0}, func() interface{} {
						ex, ch, err := it.GetExistenceProof(kb)
						if err != nil {
							return tOut{err: err.Error()}
						}
						tick(&proofs)
						eh, err := ch.ExistenceHash()
						if err != nil {
							return tOut{err: err.Error()}
						}
						if said, err := ch.IsExist(w.keys[key]); err != nil || said != ex {
							return tOut{err: fmt.Sprintf("proof says %v,%v, call said %v", said, err, ex)}
						}
						return tOut{ok: ex, root: string(eh)}
					}
				case x < 22:
					return tIn{op: "snapshot"}, func() interface{} {
						tick(&snaps)
						o := tOut{n: -1}
						o.all, o.err = w.iter(it.ValueIterator(), 1)
						return o
					}
				case x < 23:
					return tIn{op: "snapshot"}, func() interface{} {
						tick(&snaps)
						o := tOut{n: -1}
						o.all, o.err = w.iter(direct.ReversedValueIterator(), -1)
						return o
					}
				case x < 24:
					return tIn{op: "count"}, func() interface{} {
						if !counted {
							direct.Count()
							return nil
						}
						return tOut{n: direct.Count()}
					}
				case x < 25:
					return tIn{op: "empty"}, func() interface{} { return tOut{ok: direct.IsEmpty()} }
				case x < 26:
					return tIn{op: "root"}, func() interface{} {
						tick(&roots)
						h, err := direct.CommitAndHash()
						if err != nil {
							return tOut{err: err.Error()}
						}
						return tOut{root: string(h)}
					}
				case x < 27:
					return tIn{op: "snapshot"}, func() interface{} {
						tick(&snaps)
						cl := direct.Clone()
						if r.Intn(2) == 0 {
							var err error
							if cl, err = direct.Rebase(store); err != nil {
								return tOut{err: err.Error()}
							}
						}
						o := tOut{n: cl.Count()}
						o.all, o.err = w.iter(cl.ValueIterator(), 1)
						if o.err == "" { // the copy is private
							var left tState = o.all
							for k := range w.keys {
								if r.Intn(2) == 0 {
									cl.Delete(w.keys[k])
									left[k] = 0
								}
							}
							cl.Put(w.keys[0], w.mk(0, num))
							left[0] = num
							if err := cl.Commit(); err != nil {
								o.err = err.Error()
							}
							if m, e := w.iter(cl.ValueIterator(), 1); e != "" || m != left {
								o.err = fmt.Sprintf("clone holds %v %s, want %v", m, e, left)
							}
						}
						return o
					}
				case x < 28:
					return tIn{op: "collapse"}, func() interface{} {
						_ = direct.Collapse()
						if r.Intn(2) == 0 {
							_ = direct.String()
						} else {
							_ = direct.PrintValues()
						}
						return nil
					}
				default:
					return tIn{op: "snapshot"}, func() interface{} {
						type kv struct {
							k []byte
							v uint16
						}
						var got []kv
						to := db.NewMemDB()
						err := direct.Dump(to, func(k, vb []byte) {
							o, err := w.decode(vb)
							if err != nil {
								o = 0xffff
							}
							got = append(got, kv{mon.Clone(k), o})
						})
						if err != nil || w.pad == 0 {
							// a dirty trie is refused; small values are not called back
							if err != nil && !strings.Contains(err.Error(), "dirty") {
								return tOut{err: err.Error()}
							}
							return nil
						}
						tick(&snaps)
						n := 0
						o := tOut{n: -1}
						o.all, o.err = w.read(func() ([]byte, uint16, bool) {
							if n >= len(got) {
								return nil, 0, false
							}
							n++
							return got[n-1].k, got[n-1].v, true
						}, 0)
						c.Count("dumps", 1)
						return o
					}
				}
			})
			if !ok {
				return
			}
			c.Count("snapshots", snaps)
			c.Count("roots_seen", roots)
			c.Count("proofs_seen", proofs)
			c.Count("ops_"+kind, int64(len(all)))
			judge(c, "trie-"+kind, w.model(init, counted), all)
			if c.Violations() > 20 {
				return
			}
		}
	})
	c.Section("shared-store", func(_ *rand.Rand) {
		// an original and clones of it, each with one owner, over the same store: each is a private map.
		for i := 0; i < c.N2(40, 400); i++ {
			r := c.Rand(fmt.Sprintf("shared/%d", i))
			f := flavors[i%2]
			d := &slowStore{Database: db.NewMemDB()}
			ks := newKeyspace(r)
			base := randContent(r, f, ks, 20)
			t := f.build(r, d, base)
			ts := []*trie.Trie{t}
			for len(ts) < 5 {
				ts = append(ts, ts[r.Intn(len(ts))].Clone())
			}
			seeds := make([]int64, len(ts))
			for g := range seeds {
				seeds[g] = r.Int63()
			}
			fails := make([]string, len(ts))
			na, va := adapters(d)
			c.Within("clones over one store", 120*time.Second, func() {
				mon.Parallel(len(ts), func(g int) {
					r := rand.New(rand.NewSource(seeds[g]))
					m := cloneMap(base)
					t := ts[g]
					for k := 0; k < 40; k++ {
						key := ks.pick(r)
						switch r.Intn(8) {
						case 0, 1, 2:
							id := fmt.Sprintf("g%d-%d", g, k)
							t.Put(key, f.mk(key, id))
							m[string(key)] = id
						case 3, 4:
							t.Delete(key)
							delete(m, string(key))
						case 5:
							v, ok := t.Get(key)
							if w, has := m[string(key)]; ok != has || (ok && f.id(v) != w) {
								fails[g] = fmt.Sprintf("Get(%x)=%v,%v want %s,%v", key, v, ok, w, has)
								return
							}
						case 6:
							h, err := t.CommitAndHash()
							if err != nil {
								fails[g] = err.Error()
								return
							}
							if r.Intn(2) == 0 {
								t = f.open(h, na, va)
							}
						default:
							if got, _, err := trieContent(f, t); err != nil || !sameMap(got, m) {
								fails[g] = fmt.Sprintf("content %s, %v", diffMaps(got, m), err)
								return
							}
						}
					}
					if got, _, err := trieContent(f, t); err != nil || !sameMap(got, m) {
						fails[g] = fmt.Sprintf("final content %s, %v", diffMaps(got, m), err)
					}
				})
			})
			for g, s := range fails {
				c.Check(s == "", "clone-interference", "trie %d of %d over one store: %s", g, len(ts), s)
			}
			c.Count("shared_store_runs", 1)
			c.Case(true, fmt.Sprint("shared", i))
		}
	})
	c.Section("any-trie", func(_ *rand.Rand) {
		// NewSyncTrie makes any ITrie usable from several goroutines: here one with no lock of its own.
		for i := 0; i < c.N2(12, 120); i++ {
			r := c.Rand(fmt.Sprintf("any/%d", i))
			b := &bareTrie{}
			it := trie.NewSyncTrie(b)
			const G, N = 5, 60
			var done [G]int
			var fails [G]string
			seeds := make([]int64, G)
			for g := range seeds {
				seeds[g] = r.Int63()
			}
			if !c.Within("calls of a synchronised trie", 60*time.Second, func() {
				mon.Parallel(G, func(g int) {
					r := rand.New(rand.NewSource(seeds[g]))
					for k := 0; k < N && fails[g] == ""; k++ {
						key := []byte{byte(g), byte(k), byte(r.Intn(256))}
						num := g*1000 + k
						bad := func(what string, got ...interface{}) {
							fails[g] = fmt.Sprintf("%s(%x, %d) passed on as %v", what, key, num, got)
						}
						done[g]++
						switch r.Intn(10) {
						case 0:
							if h, err := it.HashValue(); string(h) != "hash" || err != errBare {
								bad("HashValue", h, err)
							}
						case 1:
							if v, ok := it.Get(key); !ok || v != string(key) {
								bad("Get", v, ok)
							}
						case 2:
							if ok := it.Put(key, num); ok != (num%2 == 0) {
								bad("Put", ok)
							}
						case 3:
							if ok := it.PutValue(bareValue(key)); ok != (key[1]%2 == 0) {
								bad("PutValue", ok)
							}
						case 4:
							if ch, old := it.Delete(key); ch != (key[1]%2 == 0) || old != string(key) {
								bad("Delete", ch, old)
							}
						case 5:
							if !it.IsDirty() {
								bad("IsDirty", false)
							}
						case 6:
							if err := it.Commit(); err != errBare {
								bad("Commit", err)
							}
						case 7:
							if v, p, ok := it.GetProof(key); v != string(key) || len(p) != 1 || ok != (key[1]%2 == 0) {
								bad("GetProof", v, p, ok)
							}
						case 8:
							if ok, p, err := it.GetExistenceProof(key); len(p) != 2 || ok != (key[1]%2 == 0) || err != errBare {
								bad("GetExistenceProof", ok, p, err)
							}
						default:
							if vi, is := it.ValueIterator().(bareIter); !is || vi.b != b {
								bad("ValueIterator", is)
							}
						}
					}
				})
			}) {
				return
			}
			total := 0
			for g := range done {
				total += done[g]
				c.Check(fails[g] == "", "sync-trie-call", "%s", fails[g])
			}
			c.Check(b.overlapped == 0, "sync-trie-overlap", "%d calls reached the trie behind NewSyncTrie while another was in it", b.overlapped)
			c.Check(b.overlapped > 0 || b.calls == total, "sync-trie-count", "%d calls made, %d reached the trie", total, b.calls)
			c.Count("any_trie_calls", int64(total))
			c.Case(true, fmt.Sprint("any", i))
			if c.Violations() > 20 {
				return
			}
		}
	})
	c.Section("throughput", func(_ *rand.Rand) {
		// many more calls than a linearizability search can take: one writer per key, so a reader may
		// only ever see that key's values in the order they were written.
		for i := 0; i < c.N2(8, 60); i++ {
			r := c.Rand(fmt.Sprintf("mono/%d", i))
			f := flavors[i%2]
			var d db.Database = db.NewMemDB()
			na, va := adapters(d)
			t := f.open(nil, na, va)
			var it trie.ITrie = t
			if i%4 == 3 {
				it = trie.NewSyncTrie(t)
			}
			const W, R, N = 4, 4, 150
			keys := tKeysFor(r)[:W]
			seeds := make([]int64, W+R)
			for g := range seeds {
				seeds[g] = r.Int63()
			}
			fails := make([]string, W+R)
			c.Within("writers and readers", 120*time.Second, func() {
				mon.Parallel(W+R, func(g int) {
					r := rand.New(rand.NewSource(seeds[g]))
					seen := make([]int, W)
					parse := func(v interface{}) int {
						n := -1
						fmt.Sscanf(f.id(v), "%d", &n)
						return n
					}
					look := func(k, n int) {
						if n < seen[k] {
							fails[g] = fmt.Sprintf("key %d: saw write %d after write %d", k, n, seen[k])
						}
						seen[k] = n
					}
					for k := 0; k < N && fails[g] == ""; k++ {
						if g < W {
							it.Put(keys[g], f.mk(keys[g], fmt.Sprint(k)))
							if v, ok := it.Get(keys[g]); !ok || parse(v) != k {
								fails[g] = fmt.Sprintf("own write %d not read back", k)
							}
							if r.Intn(10) == 0 {
								_ = it.Commit()
							}
							continue
						}
						if r.Intn(8) == 0 {
							vi := it.ValueIterator()
							for vi.Next() {
								kb, v := vi.Current()
								for j := range keys {
									if bytes.Equal(keys[j], kb) {
										look(j, parse(v))
									}
								}
							}
							continue
						}
						j := r.Intn(W)
						if v, ok := it.Get(keys[j]); ok {
							look(j, parse(v))
						}
					}
				})
			})
			for g, s := range fails {
				c.Check(s == "", "order", "goroutine %d: %s", g, s)
			}
			m := map[string]string{}
			for g := 0; g < W; g++ {
				m[string(keys[g])] = fmt.Sprint(N - 1)
			}
			h, err := it.HashValue()
			c.Check(err == nil && bytes.Equal(h, rootOf(f.build(nil, db.NewMemDB(), m))), "final-root", "root after concurrent writes differs from the sequential one (%v)", err)
			c.Count("mono_reads", R*N)
			c.Case(true, fmt.Sprint("mono", i))
		}
	})
}

// decode reads an encoded value as the trie's codec would.
func (w *tWorld) decode(vb []byte) (uint16, error) {
	if w.f == flavRaw {
		return w.num(mon.Clone(vb)), nil
	}
	tv := new(TV)
	if err := rtl.Unmarshal(vb, tv); err != nil {
		return 0xffff, err
	}
	return w.num(tv), nil
}

// ---------- T16 ----------

// a history is the string of its value numbers, two bytes each.
type hIn struct {
	op string
	k  int
	v  uint16
	s  string
}

type hOut struct {
	ok   bool
	v    uint16
	n    int
	root string
	s    string
	err  string
}

type hWorld struct {
	mu   sync.Mutex
	memo map[string]string
}

func hval(v uint16) []byte { return keccak([]byte(fmt.Sprint("value ", v))) }

var hvals = func() map[string]uint16 {
	m := map[string]uint16{}
	for v := uint16(1); v < 2000; v++ {
		m[string(hval(v))] = v
	}
	return m
}()

func hnum(b []byte) uint16 {
	if v, ok := hvals[string(b)]; ok {
		return v
	}
	return 0xffff
}

func hadd(s string, v uint16) string { return s + string([]byte{byte(v >> 8), byte(v)}) }
func hlen(s string) int              { return len(s) / 2 }
func hat(s string, k int) uint16 {
	if k < 0 || k >= hlen(s) {
		return 0
	}
	return uint16(s[2*k])<<8 | uint16(s[2*k+1])
}

func (w *hWorld) root(s string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if h, ok := w.memo[s]; ok {
		return h
	}
	m := newRefHistory()
	for k := 0; k < hlen(s); k++ {
		m.append(hval(hat(s, k)))
	}
	w.memo[s] = string(m.root())
	return w.memo[s]
}

func showH(in, out interface{}) string {
	i, o := in.(hIn), out.(hOut)
	o.root, o.s, i.s = fmt.Sprintf("%x", trim4(o.root)), fmt.Sprintf("(%d)", hlen(o.s)), fmt.Sprintf("%x", trim4(i.s))
	return fmt.Sprintf("%s(%d,%d,%s)->ok=%v v=%d n=%d root=%s s=%s %s", i.op, i.k, i.v, i.s, o.ok, o.v, o.n, o.root, o.s, o.err)
}

func trim4(s string) string {
	if len(s) > 4 {
		return s[:4]
	}
	return s
}

func (w *hWorld) model(init string) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s, i, o := st.(string), in.(hIn), out.(hOut)
			if o.err != "" {
				return false, s
			}
			switch i.op {
			case "append":
				if o.ok != (i.k == hlen(s)) {
					return false, s
				}
				if o.ok {
					s = hadd(s, i.v)
				}
				return true, s
			case "get":
				return o.v == hat(s, i.k), s
			case "has":
				return o.ok == (hat(s, i.k) != 0), s
			case "next":
				return o.n == hlen(s), s
			case "root":
				return o.root == w.root(s), s
			case "proof":
				return o.v == hat(s, i.k) && (o.v == 0 || o.root == w.root(s)), s
			case "merge": // a genuine proof of the tree at i.s: accepted while that is still its root
				return o.ok == (w.root(s) == i.s), s
			case "copy":
				return o.s == s && o.root == w.root(s), s
			case "chop":
				if i.k >= hlen(s) {
					return !o.ok, s
				}
				return o.ok && o.root == w.root(s[:2*(i.k+1)]) && o.n == i.k+1, s
			}
			panic("op " + i.op)
		},
		DescribeOperation: showH,
	}
}

// revertable history: committed and live part.
type rhState struct {
	o, l string
	has  bool
}

func (s *rhState) touch() {
	if !s.has {
		s.l, s.has = s.o, true
	}
}
func (s rhState) cur() string {
	if s.has {
		return s.l
	}
	return s.o
}

func (w *hWorld) revModel(init string) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return rhState{o: init} },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s, i, o := st.(rhState), in.(hIn), out.(hOut)
			if o.err != "" {
				return false, s
			}
			switch i.op {
			case "append":
				s.touch()
				if o.ok != (i.k == hlen(s.l)) {
					return false, s
				}
				if o.ok {
					s.l = hadd(s.l, i.v)
				}
				return true, s
			case "get":
				return o.v == hat(s.o, i.k), s
			case "has":
				return o.ok == (hat(s.o, i.k) != 0), s
			case "next":
				return o.n == hlen(s.o), s
			case "root":
				return o.root == w.root(s.o), s
			case "preroot":
				return o.root == w.root(s.cur()), s
			case "proof":
				return o.v == hat(s.o, i.k) && (o.v == 0 || o.root == w.root(s.o)), s
			case "commit":
				if o.root != "" && o.root != w.root(s.cur()) {
					return false, s
				}
				return true, rhState{o: s.cur()}
			case "rollback":
				return true, rhState{o: s.o}
			case "copy":
				return o.s == s.o, s
			}
			panic("op " + i.op)
		},
		DescribeOperation: showH,
	}
}

// revertable trie
type rvState struct {
	o, l tState
	has  bool
	ck   string // checkpointed contents, printed
	cks  int
}

type rvIn struct {
	op   string
	k    int
	v    uint16
	root string
}

func (s *rvState) touch() {
	if !s.has {
		s.l, s.has = s.o, true
	}
}
func (s rvState) cur() tState {
	if s.has {
		return s.l
	}
	return s.o
}

const ckLen = 2 * tKeys

func (s rvState) ckAt(i int) (t tState) {
	for k := range t {
		t[k] = uint16(s.ck[i*ckLen+2*k])<<8 | uint16(s.ck[i*ckLen+2*k+1])
	}
	return
}
func (s *rvState) ckPush(t tState) {
	b := make([]byte, 0, ckLen)
	for _, v := range t {
		b = append(b, byte(v>>8), byte(v))
	}
	s.ck += string(b)
	s.cks++
}

func (w *tWorld) revModel(init tState) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return rvState{o: init} },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s, i, o := st.(rvState), in.(rvIn), out.(tOut)
			if o.err != "" {
				return false, s
			}
			switch i.op {
			case "put":
				s.touch()
				s.l[i.k] = i.v
				return o.ok, s
			case "delete":
				s.touch()
				was := s.l[i.k]
				s.l[i.k] = 0
				return o.ok == (was != 0) && o.v == was, s
			case "get":
				return o.v == s.o[i.k], s
			case "getlive":
				return o.v == s.cur()[i.k], s
			case "root":
				return o.root == w.root(s.o), s
			case "preroot":
				return o.root == w.root(s.cur()), s
			case "proof":
				return o.v == s.o[i.k] && (o.v == 0 || o.root == w.root(s.o)), s
			case "snapshot":
				return o.all == s.o, s
			case "livesnapshot":
				return o.all == s.cur(), s
			case "dirty":
				return o.ok == s.has, s
			case "commit":
				if o.root != "" && o.root != w.root(s.cur()) {
					return false, s
				}
				return true, rvState{o: s.cur()}
			case "rollback":
				return true, rvState{o: s.o}
			case "live":
				s.touch()
				return true, s
			case "checkpoint":
				if o.n != s.cks || o.root != w.root(s.cur()) {
					return false, s
				}
				s.ckPush(s.cur())
				return true, s
			case "revert":
				if i.k >= s.cks || w.root(s.ckAt(i.k)) != i.root {
					return !o.ok, s
				}
				if !o.ok {
					return false, s
				}
				to := s.ckAt(i.k)
				if s.has {
					s.l = to
					if to == s.o {
						s.l, s.has = tState{}, false
					}
				}
				s.ck, s.cks = s.ck[:i.k*ckLen], i.k
				return true, s
			}
			panic("op " + i.op)
		},
		DescribeOperation: func(in, out interface{}) string {
			i, o := in.(rvIn), out.(tOut)
			o.root, i.root = fmt.Sprintf("%x", trim4(o.root)), fmt.Sprintf("%x", trim4(i.root))
			return fmt.Sprintf("%s(k%d,%d,%s)->ok=%v v=%d n=%d root=%s all=%v %s", i.op, i.k, i.v, i.root, o.ok, o.v, o.n, o.root, o.all, o.err)
		},
	}
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func runT16(c *mon.Ctx) {
	c.Section("history", func(_ *rand.Rand) {
		for i := 0; i < c.N2(120, 1200); i++ {
			r := c.Rand(fmt.Sprintf("ht/%d", i))
			w := &hWorld{memo: map[string]string{}}
			var d db.Database = db.NewMemDB()
			if i%2 == 1 {
				d = &slowStore{Database: d, every: int64(r.Intn(3))}
			}
			t := openHist(c, d, nil, true)
			if t == nil {
				return
			}
			init := ""
			for n := []int{0, 1, 13, 15, 30, 250}[r.Intn(6)]; n > 0; n-- {
				v := uint16(1 + r.Intn(900))
				if err := t.Append(uint64(hlen(init)), hval(v)); err != nil {
					c.Violate("append", "%v", err)
					return
				}
				init = hadd(init, v)
			}
			switch i % 3 {
			case 1:
				_ = t.Commit()
			case 2:
				h, _ := t.CommitAndHash()
				t = openHist(c, d, mon.Clone(h), false)
			}
			G, per := 5, 12
			var next int64 = int64(hlen(init))
			var mu sync.Mutex
			type prf struct {
				k    uint64
				v    []byte
				ch   trie.ProofChain
				root string
			}
			var last *prf
			var roots int64
			content := func(t *trie.HistoryTree) (string, string) {
				s := ""
				n := int(t.Expecting())
				for k := 0; k < n; k++ {
					v, ok := t.Get(uint64(k))
					if !ok {
						return s, fmt.Sprintf("height %d of %d missing", k, n)
					}
					s = hadd(s, hnum(v))
				}
				return s, ""
			}
			all, ok := drive(c, r, "concurrent use of a history tree", G, per, func(g int, r *rand.Rand, k int) (interface{}, func() interface{}) {
				mu.Lock()
				n := next
				mu.Unlock()
				key := int(n) - r.Intn(4)
				if r.Intn(3) == 0 {
					key = r.Intn(int(n) + 2)
				}
				if key < 0 {
					key = 0
				}
				num := 1000 + uint16(g*per+k)
				switch x := r.Intn(22); {
				case x < 7:
					at := int(n) + r.Intn(3)/2
					return hIn{op: "append", k: at, v: num}, func() interface{} {
						vb := mon.Clone(hval(num))
						err := t.Append(uint64(at), vb)
						scribble(vb)
						if err == nil {
							mu.Lock()
							if int64(at)+1 > next {
								next = int64(at) + 1
							}
							mu.Unlock()
						}
						return hOut{ok: err == nil}
					}
				case x < 10:
					return hIn{op: "get", k: key}, func() interface{} {
						v, ok := t.Get(uint64(key))
						o := hOut{}
						if ok {
							o.v = hnum(v)
						}
						scribble(v)
						return o
					}
				case x < 11:
					return hIn{op: "has", k: key}, func() interface{} { return hOut{ok: t.Has(uint64(key))} }
				case x < 12:
					return hIn{op: "next"}, func() interface{} { return hOut{n: int(t.Expecting())} }
				case x < 13:
					return hIn{op: "root"}, func() interface{} {
						h, err := t.HashValue()
						mu.Lock()
						roots++
						mu.Unlock()
						o := hOut{root: string(h), err: errStr(err)}
						scribble(h)
						return o
					}
				case x < 14:
					return hIn{op: "root"}, func() interface{} {
						h, err := t.CommitAndHash()
						mu.Lock()
						roots++
						mu.Unlock()
						return hOut{root: string(h), err: errStr(err)}
					}
				case x < 15:
					return hIn{op: "commit"}, func() interface{} {
						if err := t.Commit(); err != nil {
							return hOut{err: err.Error()}
						}
						_ = t.String()
						return nil
					}
				case x < 17:
					return hIn{op: "proof", k: key}, func() interface{} {
						v, ch, ok := t.GetProof(uint64(key))
						if !ok {
							return hOut{}
						}
						o := hOut{v: hnum(v)}
						o.root, o.err = proofRoot(ch, common.BytesToHash(v))
						mu.Lock()
						last = &prf{uint64(key), v, ch, o.root}
						mu.Unlock()
						return o
					}
				case x < 18:
					mu.Lock()
					p := last
					mu.Unlock()
					if p == nil {
						return hIn{op: "has", k: key}, func() interface{} { return hOut{ok: t.Has(uint64(key))} }
					}
					return hIn{op: "merge", k: int(p.k), s: p.root}, func() interface{} {
						return hOut{ok: t.MergeProof(p.k, p.v, p.ch) == nil}
					}
				case x < 19:
					return hIn{op: "copy"}, func() interface{} {
						cl := t.Clone()
						if r.Intn(2) == 0 {
							var err error
							if cl, err = t.Rebase(d); err != nil {
								return hOut{err: err.Error()}
							}
						}
						if cl == nil {
							return hOut{err: "nil clone"}
						}
						h, err := cl.HashValue()
						o := hOut{root: string(h), err: errStr(err)}
						var e string
						if o.s, e = content(cl); o.err == "" {
							o.err = e
						}
						if err := cl.Append(cl.Expecting(), hval(num)); err != nil {
							o.err = err.Error()
						}
						_ = cl.Commit()
						return o
					}
				case x < 20:
					return hIn{op: "chop", k: key}, func() interface{} {
						ch, err := t.Chop(uint64(key))
						if err != nil {
							return hOut{}
						}
						h, err := ch.HashValue()
						o := hOut{ok: true, root: string(h), n: int(ch.Expecting()), err: errStr(err)}
						if err := ch.Append(ch.Expecting(), hval(num)); err != nil {
							o.err = err.Error()
						}
						_ = ch.Commit()
						return o
					}
				default:
					return hIn{op: "collapse"}, func() interface{} { _ = t.CollapseBefore(uint64(key &^ 15)); return nil }
				}
			})
			if !ok {
				return
			}
			c.Count("ht_roots", roots)
			judge(c, "history", w.model(init), all)
			// the final state is that of the successful appends in order
			s, e := content(t)
			h, _ := t.CommitAndHash()
			c.Check(e == "" && string(h) == w.root(s), "final-root", "final root %x is not that of the final content (%s)", h, e)
			if t2 := openHist(c, d, mon.Clone(h), false); t2 != nil {
				s2, e := content(t2)
				c.Check(e == "" && s2 == s, "final-durable", "reopened content differs: %d of %d %s", hlen(s2), hlen(s), e)
			}
			if c.Violations() > 20 {
				return
			}
		}
	})
	c.Section("revertable-history", func(_ *rand.Rand) {
		for i := 0; i < c.N2(80, 800); i++ {
			r := c.Rand(fmt.Sprintf("rht/%d", i))
			w := &hWorld{memo: map[string]string{}}
			d := &slowStore{Database: db.NewMemDB(), every: int64(r.Intn(3))}
			t := openHist(c, d, nil, true)
			init := ""
			for n := r.Intn(20); n > 0; n-- {
				v := uint16(1 + r.Intn(900))
				_ = t.Append(uint64(hlen(init)), hval(v))
				init = hadd(init, v)
			}
			rt := &trie.RevertableHistoryTree{Origin: t}
			G, per := 5, 12
			next := int64(hlen(init))
			var mu sync.Mutex
			all, ok := drive(c, r, "concurrent use of a revertable history tree", G, per, func(g int, r *rand.Rand, k int) (interface{}, func() interface{}) {
				mu.Lock()
				n := next
				mu.Unlock()
				key := int(n) - r.Intn(4)
				if key < 0 {
					key = 0
				}
				num := 1000 + uint16(g*per+k)
				switch x := r.Intn(20); {
				case x < 7:
					at := int(n) + []int{0, 0, 0, 1, -1}[r.Intn(5)]
					if at < 0 {
						at = 0
					}
					return hIn{op: "append", k: at, v: num}, func() interface{} {
						err := rt.Append(uint64(at), hval(num))
						if err == nil {
							mu.Lock()
							next = int64(at) + 1
							mu.Unlock()
						}
						return hOut{ok: err == nil}
					}
				case x < 8:
					return hIn{op: "get", k: key}, func() interface{} {
						v, ok := rt.Get(uint64(key))
						o := hOut{}
						if ok {
							o.v = hnum(v)
						}
						return o
					}
				case x < 9:
					return hIn{op: "has", k: key}, func() interface{} { return hOut{ok: rt.Has(uint64(key))} }
				case x < 10:
					return hIn{op: "next"}, func() interface{} { return hOut{n: int(rt.Expecting())} }
				case x < 11:
					return hIn{op: "root"}, func() interface{} {
						h, err := rt.HashValue()
						return hOut{root: string(h), err: errStr(err)}
					}
				case x < 12:
					return hIn{op: "preroot"}, func() interface{} {
						h, err := rt.PreHashValue()
						return hOut{root: string(h), err: errStr(err)}
					}
				case x < 13:
					return hIn{op: "preroot"}, func() interface{} {
						h, err := rt.PreCommit()
						return hOut{root: string(h), err: errStr(err)}
					}
				case x < 14:
					return hIn{op: "proof", k: key}, func() interface{} {
						v, ch, ok := rt.GetProof(uint64(key))
						if !ok {
							return hOut{}
						}
						o := hOut{v: hnum(v)}
						o.root, o.err = proofRoot(ch, common.BytesToHash(v))
						return o
					}
				case x < 15:
					return hIn{op: "commit"}, func() interface{} {
						h, err := rt.CommitAndHash()
						return hOut{root: string(h), err: errStr(err)}
					}
				case x < 16:
					return hIn{op: "commit"}, func() interface{} { return hOut{err: errStr(rt.Commit())} }
				case x < 17:
					return hIn{op: "rollback"}, func() interface{} { rt.Rollback(); return hOut{} }
				case x < 18:
					return hIn{op: "copy"}, func() interface{} {
						cp, err := rt.Rebase(d)
						if err != nil {
							return hOut{err: err.Error()}
						}
						o := hOut{}
						for k := uint64(0); k < cp.Expecting(); k++ {
							v, _ := cp.Get(k)
							o.s = hadd(o.s, hnum(v))
						}
						return o
					}
				default:
					return hIn{op: "collapse"}, func() interface{} {
						_ = rt.CollapseBefore(uint64(key &^ 15))
						_ = rt.PreCollapseBefore(uint64(key &^ 15))
						_ = rt.String()
						return nil
					}
				}
			})
			if !ok {
				return
			}
			judge(c, "revertable-history", w.revModel(init), all)
			if c.Violations() > 20 {
				return
			}
		}
	})
	c.Section("revertable", func(_ *rand.Rand) {
		for i := 0; i < c.N2(120, 1200); i++ {
			r := c.Rand(fmt.Sprintf("rv/%d", i))
			w := &tWorld{f: flavors[i%2], keys: tKeysFor(r), pad: []int{0, 40}[r.Intn(2)], memo: map[tState]string{}}
			d := &slowStore{Database: db.NewMemDB(), every: int64(r.Intn(3))}
			na, va := adapters(d)
			t := w.f.open(nil, na, va)
			var init tState
			for k := range init {
				if r.Intn(2) == 0 {
					init[k] = uint16(k + 1)
					t.Put(w.keys[k], w.mk(k, init[k]))
				}
			}
			if i%3 == 0 {
				_ = t.Commit()
			}
			rt := &trie.RevertableTrie{Origin: t}
			G, per := 5, 12
			type ckpt struct {
				n    int
				root string
			}
			var mu sync.Mutex
			var cks []ckpt
			all, ok := drive(c, r, "concurrent use of a revertable trie", G, per, func(g int, r *rand.Rand, k int) (interface{}, func() interface{}) {
				key := r.Intn(tKeys)
				kb := w.keys[key]
				num := 100 + uint16(g*per+k)
				get := func(f func([]byte) (interface{}, bool)) func() interface{} {
					return func() interface{} {
						v, ok := f(kb)
						if !ok {
							return tOut{}
						}
						return tOut{v: w.num(v)}
					}
				}
				hash := func(f func() ([]byte, error)) func() interface{} {
					return func() interface{} {
						h, err := f()
						return tOut{root: string(h), err: errStr(err)}
					}
				}
				switch x := r.Intn(34); {
				case x >= 32:
					return rvIn{op: "live"}, func() interface{} {
						l, err := rt.LiveTrie()
						if err == nil && l == nil {
							return tOut{err: "LiveTrie gives no trie and no error"}
						}
						return tOut{err: errStr(err)}
					}
				case x < 7:
					val := w.mk(key, num)
					return rvIn{op: "put", k: key, v: num}, func() interface{} {
						if tv, is := val.(*TV); is && num%2 == 0 {
							return tOut{ok: rt.PutValue(tv)}
						}
						return tOut{ok: rt.Put(kb, val)}
					}
				case x < 10:
					return rvIn{op: "delete", k: key}, func() interface{} {
						ch, old := rt.Delete(kb)
						o := tOut{ok: ch}
						if old != nil {
							o.v = w.num(old)
						}
						return o
					}
				case x < 11:
					return rvIn{op: "get", k: key}, get(rt.Get)
				case x < 13:
					return rvIn{op: "getlive", k: key}, get(rt.GetLive)
				case x < 14:
					return rvIn{op: "root"}, hash(rt.HashValue)
				case x < 15:
					return rvIn{op: "preroot"}, hash(rt.PreHashValue)
				case x < 16:
					return rvIn{op: "preroot"}, hash(rt.PreCommit)
				case x < 17:
					return rvIn{op: "commit"}, hash(rt.CommitAndHash)
				case x < 18:
					return rvIn{op: "commit"}, func() interface{} { return tOut{err: errStr(rt.Commit())} }
				case x < 19:
					return rvIn{op: "rollback"}, func() interface{} { rt.Rollback(); return tOut{} }
				case x < 20:
					return rvIn{op: "dirty"}, func() interface{} { return tOut{ok: rt.IsDirty()} }
				case x < 21:
					return rvIn{op: "proof", k: key}, func() interface{} {
						v, ch, ok := rt.GetProof(kb)
						if !ok {
							return tOut{}
						}
						o := tOut{v: w.num(v)}
						o.root, o.err = proofRoot(ch, w.f.vh(w.keys[key], w.id(o.v)))
						return o
					}
				case x < 22:
					return rvIn{op: "snapshot"}, func() interface{} {
						var o tOut
						switch r.Intn(3) {
						case 0:
							o.all, o.err = w.iter(rt.Copy().ValueIterator(), 1)
						case 1:
							cp, err := rt.Rebase(d)
							if err != nil {
								return tOut{err: err.Error()}
							}
							o.all, o.err = w.iter(cp.ValueIterator(), 1)
						default:
							o.all, o.err = w.iter(rt.ValueIterator(), 1)
						}
						return o
					}
				case x < 24:
					return rvIn{op: "livesnapshot"}, func() interface{} {
						var o tOut
						o.all, o.err = w.iter(rt.LiveValueIterator(), 1)
						return o
					}
				case x < 27:
					return rvIn{op: "checkpoint"}, func() interface{} {
						n, root, err := rt.CheckPoint()
						o := tOut{n: n, root: string(root), err: errStr(err)}
						mu.Lock()
						cks = append(cks, ckpt{n, o.root})
						mu.Unlock()
						return o
					}
				case x < 28:
					return rvIn{op: "dump"}, func() interface{} {
						if err := rt.Dump(db.NewMemDB(), func(k, v []byte) {}); err != nil && !strings.Contains(err.Error(), "dirty") {
							return tOut{err: err.Error()}
						}
						return nil
					}
				default:
					mu.Lock()
					var p ckpt
					if len(cks) > 0 {
						p = cks[r.Intn(len(cks))]
					} else {
						p = ckpt{0, string(keccak([]byte("no")))}
					}
					mu.Unlock()
					return rvIn{op: "revert", k: p.n, root: p.root}, func() interface{} {
						err := rt.RevertTo(p.n, []byte(p.root))
						if err == nil {
							c.Count("rv_reverts", 1)
						}
						return tOut{ok: err == nil}
					}
				}
			})
			if !ok {
				return
			}
			judge(c, "revertable", w.revModel(init), all)
			if c.Violations() > 20 {
				return
			}
		}
	})
	c.Section("combined", func(_ *rand.Rand) { runCombined(c) })
}

// the content of a combined trie: for each of its possible names, the number of the part (0: none).
const cNames = 5

type cState [cNames]uint16

type cOut struct {
	ok   bool
	v    uint16
	root string
	all  cState
	err  string
}

func runCombined(c *mon.Ctx) {
	f := flavRaw
	for i := 0; i < c.N2(80, 800); i++ {
		r := c.Rand(fmt.Sprintf("comb/%d", i))
		d := &slowStore{Database: db.NewMemDB(), every: int64(r.Intn(3))}
		na, va := adapters(d)
		names := []string{"", "a", "ab", "b", "\xff"}
		// the parts that may be put, each of a content of its own
		parts := []*trie.Trie{nil}
		roots := [][]byte{nil}
		num := map[*trie.Trie]uint16{}
		for p := 1; p <= 12; p++ {
			t := f.open(nil, na, va)
			for k := 0; k < p%4; k++ {
				t.Put([]byte{byte(k)}, []byte(fmt.Sprint("part", p)))
			}
			if p%2 == 0 {
				t.Put([]byte("p"), []byte(fmt.Sprint(p)))
			}
			num[t] = uint16(p)
			roots = append(roots, rootOf(t))
			parts = append(parts, t)
		}
		partOf := func(v interface{}) uint16 {
			t, ok := v.(*trie.Trie)
			if !ok {
				return 0xffff
			}
			if n, ok := num[t]; ok {
				return n
			}
			return 0xffff
		}
		rootFor := func(s cState) string {
			var hs [][]byte
			for k := range names { // names are in ascending order
				if s[k] != 0 {
					hs = append(hs, roots[s[k]])
				}
			}
			if len(hs) == 0 {
				return string(common.NilHashSlice)
			}
			l := refComplete(hs)
			return string(l[len(l)-1][0])
		}
		ct := trie.NewCombinedTrie(db.NewKeyPrefixedDataAdapter(d, []byte("c")))
		var init cState
		for k := range names {
			if r.Intn(2) == 0 {
				init[k] = uint16(1 + r.Intn(12))
				ct.Put([]byte(names[k]), parts[init[k]])
			}
		}
		model := porcupine.Model{
			Init: func() interface{} { return init },
			Step: func(st, in, out interface{}) (bool, interface{}) {
				s, i, o := st.(cState), in.(tIn), out.(cOut)
				if o.err != "" {
					return false, s
				}
				switch i.op {
				case "put":
					s[i.k] = i.v
					return o.ok, s
				case "delete":
					was := s[i.k]
					s[i.k] = 0
					return o.ok == (was != 0) && o.v == was, s
				case "get":
					return o.v == s[i.k], s
				case "keys":
					for k := range s {
						if (s[k] != 0) != (o.all[k] != 0) {
							return false, s
						}
					}
					return true, s
				case "root":
					return o.root == rootFor(s), s
				case "proof":
					return o.v == s[i.k] && (o.v == 0 || o.root == rootFor(s)), s
				}
				panic(i.op)
			},
			DescribeOperation: func(in, out interface{}) string {
				i, o := in.(tIn), out.(cOut)
				return fmt.Sprintf("%s(%d,%d)->ok=%v v=%d root=%x all=%v %s", i.op, i.k, i.v, o.ok, o.v, trim4(o.root), o.all, o.err)
			},
		}
		all, ok := drive(c, r, "concurrent use of a combined trie", 5, 12, func(g int, r *rand.Rand, k int) (interface{}, func() interface{}) {
			n := r.Intn(cNames)
			kb := []byte(names[n])
			p := uint16(1 + r.Intn(12))
			switch x := r.Intn(18); {
			case x < 5:
				return tIn{"put", n, p}, func() interface{} {
					b := append(make([]byte, 0, 4), kb...)
					ok := ct.Put(b, parts[p])
					scribble(b)
					return cOut{ok: ok}
				}
			case x < 7:
				return tIn{"delete", n, 0}, func() interface{} {
					ch, old := ct.Delete(kb)
					o := cOut{ok: ch}
					if ch {
						o.v = partOf(old)
					}
					return o
				}
			case x < 10:
				return tIn{"get", n, 0}, func() interface{} {
					v, ok := ct.Get(kb)
					if !ok {
						return cOut{}
					}
					return cOut{v: partOf(v)}
				}
			case x < 11:
				return tIn{op: "keys"}, func() interface{} {
					var o cOut
					ks := ct.Keys()
					if !sort.StringsAreSorted(ks) {
						o.err = "keys not sorted"
					}
					for _, s := range ks {
						at := -1
						for k := range names {
							if names[k] == s {
								at = k
							}
						}
						if at < 0 || o.all[at] != 0 {
							return cOut{err: fmt.Sprintf("keys %q", ks)}
						}
						o.all[at] = 1
					}
					return o
				}
			case x < 13:
				return tIn{op: "root"}, func() interface{} {
					h, err := ct.HashValue()
					return cOut{root: string(h), err: errStr(err)}
				}
			case x < 14:
				return tIn{op: "commit"}, func() interface{} {
					if err := ct.Commit(); err != nil {
						return cOut{err: err.Error()}
					}
					ct.IsDirty()
					return nil
				}
			case x < 16:
				return tIn{"proof", n, 0}, func() interface{} {
					v, ch, ok := ct.GetProof(kb)
					if !ok {
						return cOut{}
					}
					o := cOut{v: partOf(v)}
					if o.v != 0xffff {
						o.root, o.err = proofRoot(ch, common.BytesToHash(roots[o.v]))
					}
					return o
				}
			default:
				return tIn{op: "walk"}, func() interface{} {
					it := ct.ValueIterator()
					prev := "\x00none"
					for it.Next() {
						k, v := it.Current()
						if k == nil {
							continue // removed while walking
						}
						if prev != "\x00none" && prev >= string(k) {
							return cOut{err: fmt.Sprintf("walk out of order: %q after %q", k, prev)}
						}
						prev = string(k)
						if partOf(v) == 0xffff {
							return cOut{err: "walk found an unknown part"}
						}
					}
					return nil
				}
			}
		})
		if !ok {
			return
		}
		judge(c, "combined", model, all)
		// and with parts that change meanwhile: no race, no deadlock, and the final state is sequential
		if i%2 == 0 {
			live := map[string]map[string]string{}
			ct := trie.NewCombinedTrie(db.NewKeyPrefixedDataAdapter(d, []byte("c")))
			var ts []*trie.Trie
			for _, n := range names {
				t := f.open(nil, na, va)
				ts = append(ts, t)
				ct.Put([]byte(n), t)
				live[n] = map[string]string{}
			}
			seeds := make([]int64, 8)
			for g := range seeds {
				seeds[g] = r.Int63()
			}
			c.Within("parts updated under a combined trie", 120*time.Second, func() {
				mon.Parallel(8, func(g int) {
					r := rand.New(rand.NewSource(seeds[g]))
					for k := 0; k < 25; k++ {
						if g < len(ts) {
							key := []byte{byte(r.Intn(5))}
							if r.Intn(4) == 0 {
								ts[g].Delete(key)
								delete(live[names[g]], string(key))
							} else {
								id := fmt.Sprint(g, k)
								ts[g].Put(key, []byte(id))
								live[names[g]][string(key)] = id
							}
							continue
						}
						switch r.Intn(5) {
						case 0:
							_ = ct.Commit()
						case 1:
							_, _ = ct.HashValue()
						case 2:
							_, _, _ = ct.GetProof([]byte(names[r.Intn(cNames)]))
						case 3:
							ct.IsDirty()
						default:
							ct.Get([]byte(names[r.Intn(cNames)]))
						}
					}
				})
			})
			var hs [][]byte
			for _, n := range names {
				hs = append(hs, rootOf(f.build(nil, db.NewMemDB(), live[n])))
			}
			l := refComplete(hs)
			h, err := ct.HashValue()
			c.Check(err == nil && bytes.Equal(h, l[len(l)-1][0]), "combined-final", "final combined root %x (%v) differs from the sequential one", h, err)
			c.Check(ct.Commit() == nil, "combined-commit", "final commit failed")
			c.Count("combined_live_parts", 1)
			c.Case(true, fmt.Sprint("combined-live", i))
		}
		if c.Violations() > 20 {
			return
		}
	}
}

package checks

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/anishathalye/porcupine"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "D01",
		Rule:  "seeded histories of Put/Get/Has/Delete/Batch on every implementation and on random stacks of views, caller buffers scribbled over after each call; non-trivial when the history reads an absent key, overwrites and commits a batch",
		Floor: map[string]int64{"ops": 60000, "absent_reads": 3000, "batches": 1500, "empty_values": 300, "replaced": 20, "failed_base_calls": 5000}, Run: runD01})
	mon.Register(&mon.Check{ID: "D02",
		Rule:  "operation streams and batches of up to tens of thousands of operations on LevelDB stores in processes killed at random moments or starved of file size, and in-process close/reopen histories; non-trivial when the kill fell inside the stream",
		Floor: map[string]int64{"kills_midstream": 15, "acked_ops": 2000, "reopens": 100, "closed_errors": 100, "starved_errors": 3, "kills_inside_a_giant_batch": 6, "giant_ops": 50000}, Run: runD02})
	mon.Register(&mon.Check{ID: "D03",
		Rule:  "seeded histories over trees of overlays, read-only and prefixed views sharing one base; the base compared in full after every operation; non-trivial when a view wrote or deleted a key its base also holds",
		Floor: map[string]int64{"ops": 30000, "base_compares": 30000, "shadowed_writes": 1000, "readonly_rejections": 1000}, Run: runD03})
	mon.Register(&mon.Check{ID: "D04",
		Rule:  "seeded batches and batch writers (thresholds, skipped items, multi-operation items, failing commits) on every implementation; non-trivial when a key occurs twice in a batch or an item is skipped or a commit fails",
		Floor: map[string]int64{"batches": 3000, "batch_ops": 20000, "writer_runs": 3000, "faults": 500}, Run: runD04})
	mon.Register(&mon.Check{ID: "D05", Race: true,
		Rule:  "goroutines issue Put/Get/Has/Delete/Batch on one shared store; the history of every key is checked for linearizability and the race detector watches; non-trivial when operations overlapped",
		Floor: map[string]int64{"linearizable_histories": 100, "linearizable_ops": 10000, "overlaps": 1000}, Run: runD05})
	mon.Procs["ldbworker"] = ldbWorker
	mon.Procs["giantworker"] = giantWorker
}

// ---------- models ----------

// store pairs a database under test with the model of what it must hold.
type store struct {
	name   string
	d      db.Database
	get    func(k string) (string, bool)
	put    func(k, v string) bool // false = writes must be refused
	del    func(k string) bool
	close  func()
	cached bool
}

func mapStore(name string, d db.Database, m map[string]string) *store {
	return &store{name: name, d: d,
		get: func(k string) (string, bool) { v, ok := m[k]; return v, ok },
		put: func(k, v string) bool { m[k] = v; return true },
		del: func(k string) bool { delete(m, k); return true }}
}

func prefixView(s *store, prefix string) *store {
	ad := db.NewKeyPrefixedDataAdapter(s.d, []byte(prefix))
	return &store{name: fmt.Sprintf("prefix(%x)/%s", prefix, s.name), d: ad.(db.Database),
		get: func(k string) (string, bool) { return s.get(prefix + k) },
		put: func(k, v string) bool { return s.put(prefix+k, v) },
		del: func(k string) bool { return s.del(prefix + k) }}
}

func overlayView(s *store) *store {
	loc, gone := map[string]string{}, map[string]bool{}
	return &store{name: "temporary/" + s.name, d: db.Temporary(s.d),
		get: func(k string) (string, bool) {
			if gone[k] {
				return "", false
			}
			if v, ok := loc[k]; ok {
				return v, true
			}
			return s.get(k)
		},
		put: func(k, v string) bool { loc[k] = v; delete(gone, k); return true },
		del: func(k string) bool { delete(loc, k); gone[k] = true; return true }}
}

func readonlyView(s *store) *store {
	return &store{name: "readonly/" + s.name, d: db.ReadOnly(s.d), get: s.get,
		put: func(k, v string) bool { return false }, del: func(k string) bool { return false }}
}

var storeSeq int64

func newStorePath(c *mon.Ctx) string {
	p := filepath.Join(c.Scratch, fmt.Sprintf("ldb%d", atomic.AddInt64(&storeSeq, 1)))
	return p
}

func baseStore(c *mon.Ctx, r *rand.Rand, kind int) *store {
	m := map[string]string{}
	switch kind {
	case 0:
		return mapStore("mem", db.NewMemDB(), m)
	case 1:
		p := newStorePath(c)
		l, err := db.NewLDB(p)
		if err != nil {
			panic(err)
		}
		s := mapStore("ldb", l, m)
		s.close = func() { _ = l.Close(); _ = os.RemoveAll(p) }
		return s
	default:
		p := newStorePath(c)
		n := []int{1, 2, 5, 64, 0}[r.Intn(5)]
		l, err := db.NewCachedDBWithPath(p, n)
		if err != nil {
			panic(err)
		}
		s := mapStore(fmt.Sprintf("cached%d", n), l, m)
		s.cached = n > 0
		s.close = func() { _ = l.Close(); _ = os.RemoveAll(p) }
		return s
	}
}

func dbKeys(r *rand.Rand) []string {
	pool := []string{"", "a", "ab", "abc", "b", "\x00", "\x00\x00", "\xff", "\xff\xff", "p1k", "p2k", "k"}
	n := 4 + r.Intn(8)
	ks := make([]string, 0, n+4)
	for i := 0; i < n; i++ {
		ks = append(ks, pool[r.Intn(len(pool))])
	}
	for i := 0; i < 4; i++ {
		b := make([]byte, 1+r.Intn(40))
		r.Read(b)
		ks = append(ks, string(b))
	}
	if r.Intn(3) == 0 { // lengths around the usual buffer and encoding limits; the second extends the first
		n := []int{54, 55, 56, 63, 64, 127, 128, 129, 255, 256, 257, 300, 1023, 4096}[r.Intn(14)]
		if r.Intn(12) == 0 {
			n = []int{65535, 65536, 70000}[r.Intn(3)]
		}
		b := make([]byte, n+1)
		r.Read(b)
		ks = append(ks, string(b[:n]), string(b))
	}
	return ks
}

// nilable gives the empty key as nil half of the time.
func nilable(k string) []byte {
	if k == "" && atomic.AddInt64(&storeSeq, 1)%2 == 0 {
		return nil
	}
	return []byte(k)
}

func dbValue(r *rand.Rand) string {
	if r.Intn(500) == 0 {
		b := make([]byte, []int{4096, 65535, 65536, 70000, 1 << 18}[r.Intn(5)])
		r.Read(b)
		return string(b)
	}
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return string([]byte{byte(r.Intn(3))})
	case 2:
		b := make([]byte, r.Intn(5000))
		r.Read(b)
		return string(b)
	default:
		b := make([]byte, 1+r.Intn(24))
		r.Read(b)
		return string(b)
	}
}

func scribble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0xa5
		}
	}
}

type openBatch struct {
	b   db.Batch
	ops []fop
}

type dbsim struct {
	c     *mon.Ctx
	s     *store
	keys  []string
	open  []*openBatch
	trace []string
	saw   map[string]bool
}

func (x *dbsim) rec(f string, a ...interface{}) {
	x.trace = append(x.trace, fmt.Sprintf(f, a...))
}
func (x *dbsim) hist() string {
	t := x.trace
	if len(t) > 60 {
		t = t[len(t)-60:]
	}
	return x.s.name + ": " + strings.Join(t, "; ")
}

func (x *dbsim) checkGet(k string) {
	c, s := x.c, x.s
	x.rec("Get(%s)", mon.Hex([]byte(k)))
	kb := nilable(k)
	got, err := s.d.Get(kb)
	want, ok := s.get(k)
	c.Count("ops", 1)
	if err != nil {
		c.Violate("get-error:"+s.name, "Get(%s): %v after %s", mon.Hex([]byte(k)), err, x.hist())
		return
	}
	if !ok {
		c.Count("absent_reads", 1)
		x.saw["absent"] = true
		c.Check(got == nil, "get-absent:"+family(s.name), "Get of an absent key returned %s (want nil) after %s", mon.Hex(got), x.hist())
		_, e := db.GetNilError(s.d, []byte(k))
		c.Check(e == db.ErrNotFound, "getnilerror:"+family(s.name), "GetNilError of an absent key: %v after %s", e, x.hist())
	} else {
		c.Check(string(got) == want, "get-value:"+family(s.name), "Get(%s)=%s, want %s after %s", mon.Hex([]byte(k)), mon.Hex(got), mon.Hex([]byte(want)), x.hist())
	}
	c.Check(string(kb) == k, "argument-modified:"+family(s.name), "Get modified its key")
	scribble(kb, got)
}

func (x *dbsim) checkHas(k string) {
	x.rec("Has(%s)", mon.Hex([]byte(k)))
	kb := nilable(k)
	has, err := x.s.d.Has(kb)
	_, ok := x.s.get(k)
	x.c.Count("ops", 1)
	x.c.Check(err == nil && has == ok, "has:"+family(x.s.name), "Has(%s)=%v,%v want %v after %s", mon.Hex(kb), has, err, ok, x.hist())
	scribble(kb)
}

// family strips sizes and hex from a stack name so that signatures stay stable.
func family(n string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, strings.Split(n, "(")[0])
}

func (x *dbsim) put(k, v string) {
	x.rec("Put(%s,%s)", mon.Hex([]byte(k)), mon.Hex([]byte(v)))
	if _, had := x.s.get(k); had {
		x.saw["overwrite"] = true
	}
	kb, vb := append([]byte{}, k...), append([]byte{}, v...)
	err := x.s.d.Put(kb, vb)
	x.c.Count("ops", 1)
	if v == "" {
		x.c.Count("empty_values", 1)
	}
	okw := x.s.put(k, v)
	x.c.Check((err == nil) == okw, "put-error:"+family(x.s.name), "Put: %v (want success %v) after %s", err, okw, x.hist())
	x.c.Check(string(kb) == k && string(vb) == v, "argument-modified:"+family(x.s.name), "Put modified its arguments")
	scribble(kb, vb)
}

func (x *dbsim) del(k string) {
	x.rec("Delete(%s)", mon.Hex([]byte(k)))
	kb := nilable(k)
	err := x.s.d.Delete(kb)
	x.c.Count("ops", 1)
	okw := x.s.del(k)
	x.c.Check((err == nil) == okw, "delete-error:"+family(x.s.name), "Delete: %v (want success %v) after %s", err, okw, x.hist())
	scribble(kb)
}

func (x *dbsim) newBatch() {
	x.rec("NewBatch#%d", len(x.open))
	x.open = append(x.open, &openBatch{b: x.s.d.NewBatch()})
}

func (x *dbsim) batchOp(r *rand.Rand) {
	if len(x.open) == 0 {
		return
	}
	i := r.Intn(len(x.open))
	ob := x.open[i]
	k := x.keys[r.Intn(len(x.keys))]
	kb := append([]byte{}, k...)
	x.c.Count("batch_ops", 1)
	if r.Intn(3) == 0 {
		x.rec("b%d.Delete(%s)", i, mon.Hex(kb))
		err := ob.b.Delete(kb)
		x.c.Check(err == nil, "batch-delete-error", "%v", err)
		ob.ops = append(ob.ops, fop{del: true, k: []byte(k)})
	} else {
		v := dbValue(r)
		vb := append([]byte{}, v...)
		x.rec("b%d.Put(%s,%s)", i, mon.Hex(kb), mon.Hex(vb))
		err := ob.b.Put(kb, vb)
		x.c.Check(err == nil, "batch-put-error", "%v", err)
		ob.ops = append(ob.ops, fop{k: []byte(k), v: []byte(v)})
		scribble(vb)
	}
	scribble(kb)
	x.c.Check(ob.b.Size() == len(ob.ops), "batch-size:"+family(x.s.name), "Size()=%d want %d after %s", ob.b.Size(), len(ob.ops), x.hist())
}

func (x *dbsim) commitBatch(i int) {
	ob := x.open[i]
	x.open = append(x.open[:i], x.open[i+1:]...)
	x.rec("Batch(b%d)", i)
	err := x.s.d.Batch(ob.b)
	x.c.Count("batches", 1)
	x.saw["batch"] = true
	okw := true
	for _, o := range ob.ops {
		if o.del {
			okw = x.s.del(string(o.k))
		} else {
			okw = x.s.put(string(o.k), string(o.v))
		}
	}
	if len(ob.ops) == 0 {
		return
	}
	x.c.Check((err == nil) == okw, "batch-error:"+family(x.s.name), "Batch: %v (want success %v) after %s", err, okw, x.hist())
}

func (x *dbsim) step(r *rand.Rand) {
	k := x.keys[r.Intn(len(x.keys))]
	switch y := r.Intn(20); {
	case y < 5:
		x.put(k, dbValue(r))
	case y < 8:
		x.del(k)
	case y < 12:
		x.checkGet(k)
	case y < 15:
		x.checkHas(k)
	case y < 16:
		if len(x.open) < 3 {
			x.newBatch()
		}
	case y < 19:
		x.batchOp(r)
	default:
		if len(x.open) > 0 {
			x.commitBatch(r.Intn(len(x.open)))
		}
	}
}

func (x *dbsim) checkAll() {
	seen := map[string]bool{}
	for _, k := range x.keys {
		if seen[k] {
			continue
		}
		seen[k] = true
		x.checkGet(k)
		x.checkHas(k)
		x.checkGet(k)
	}
}

// moody is a store all of whose calls fail while it is down; a call that fails does nothing.
type moody struct {
	db.Database
	down  bool
	calls int
}

func (m *moody) fails() bool {
	if m.down {
		m.calls++
	}
	return m.down
}

func (m *moody) Put(k, v []byte) error {
	if m.fails() {
		return errInjected
	}
	return m.Database.Put(k, v)
}
func (m *moody) Get(k []byte) ([]byte, error) {
	if m.fails() {
		return nil, errInjected
	}
	return m.Database.Get(k)
}
func (m *moody) Has(k []byte) (bool, error) {
	if m.fails() {
		return false, errInjected
	}
	return m.Database.Has(k)
}
func (m *moody) Delete(k []byte) error {
	if m.fails() {
		return errInjected
	}
	return m.Database.Delete(k)
}
func (m *moody) Batch(b db.Batch) error {
	if m.fails() {
		return errInjected
	}
	return m.Database.Batch(b)
}

// failingBase drives a stack of caches and views over a store that fails from time to time: an answer
// is right or an error, a write that is refused has no effect, one that is accepted has its own.
func failingBase(c *mon.Ctx, r *rand.Rand) {
	m := &moody{Database: db.NewMemDB()}
	s := mapStore("moody", m, map[string]string{})
	if r.Intn(2) == 0 {
		p := newStorePath(c)
		n := []int{1, 2, 5, 64}[r.Intn(4)]
		l, err := db.NewCachedDBWithPath(p, n)
		if err != nil {
			panic(err)
		}
		_, old := l.(db.Replaceable).Replace("moody", m)
		_ = old.Close()
		_ = os.RemoveAll(p)
		s.name, s.d = fmt.Sprintf("cached%d/moody", n), l
	}
	overlaid := false
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(4) {
		case 0:
			s = prefixView(s, []string{"p1", "", "\x00", "\xff\xff"}[r.Intn(4)])
		case 1:
			if !overlaid {
				s, overlaid = overlayView(s), true
			}
		case 2:
			if !overlaid && r.Intn(2) == 0 {
				s = readonlyView(s)
				s, overlaid = overlayView(s), true
			}
		case 3:
			pre := []string{"q", "\x00"}[r.Intn(2)]
			if ad, ok := db.NewKeyPrefixedDataAdapter(s.d, []byte(pre)).(db.Database); ok {
				k := s
				s = &store{name: "adapter/" + k.name, d: ad, get: func(x string) (string, bool) { return k.get(pre + x) },
					put: func(x, v string) bool { return k.put(pre+x, v) }, del: func(x string) bool { return k.del(pre + x) }}
			}
		}
	}
	keys := dbKeys(r)
	var log []string
	for op := 0; op < 60; op++ {
		m.down = r.Intn(3) == 0
		m.calls = 0
		k := keys[r.Intn(len(keys))]
		w, has := s.get(k)
		say := func(format string, a ...interface{}) string {
			if len(log) > 40 {
				log = log[20:]
			}
			log = append(log, fmt.Sprintf("%s(%x)", fmt.Sprintf(format, a...), k))
			return fmt.Sprintf("store down: %v; %s: %v", m.down, s.name, log)
		}
		var err error
		switch r.Intn(6) {
		case 0, 1:
			var v []byte
			v, err = s.d.Get([]byte(k))
			h := say("get=%v", err)
			c.Check(err != nil || (v != nil) == has && string(v) == w, "failing-get", "Get(%x)=%x,%v want %x,%v; %s", k, v, err, w, has, h)
		case 2:
			var ok bool
			ok, err = s.d.Has([]byte(k))
			h := say("has=%v", err)
			c.Check(err != nil || ok == has, "failing-has", "Has(%x)=%v,%v want %v; %s", k, ok, err, has, h)
		case 3:
			v := dbValue(r)
			if err = s.d.Put([]byte(k), []byte(v)); err == nil {
				s.put(k, v)
			}
			say("put=%v", err)
		case 4:
			if err = s.d.Delete([]byte(k)); err == nil {
				s.del(k)
			}
			say("delete=%v", err)
		case 5:
			b := s.d.NewBatch()
			type bop struct {
				k, v string
				del  bool
			}
			var ops []bop
			for n := r.Intn(5); n >= 0; n-- {
				o := bop{k: keys[r.Intn(len(keys))], v: dbValue(r), del: r.Intn(3) == 0}
				if o.del {
					_ = b.Delete([]byte(o.k))
				} else {
					_ = b.Put([]byte(o.k), []byte(o.v))
				}
				ops = append(ops, o)
			}
			if err = s.d.Batch(b); err == nil {
				for _, o := range ops {
					if o.del {
						s.del(o.k)
					} else {
						s.put(o.k, o.v)
					}
				}
			}
			say("batch=%v", err)
		}
		if err != nil && !m.down {
			c.Violate("failing-spurious", "an error with the store up: %v; %s %v", err, s.name, log)
		}
		if m.calls > 0 {
			c.Count("failed_base_calls", int64(m.calls))
			c.Check(err != nil, "failing-swallowed", "the base refused a call, the store reported nothing; %s %v", s.name, log)
		}
	}
	m.down = false
	for _, k := range keys {
		w, has := s.get(k)
		v, err := s.d.Get([]byte(k))
		ok, err2 := s.d.Has([]byte(k))
		c.Check(err == nil && err2 == nil && ok == has && (v != nil) == has && string(v) == w, "failing-lasting",
			"with the store up again Get(%x)=%x,%v Has=%v,%v want %x,%v; %s %v", k, v, err, ok, err2, w, has, s.name, log)
	}
	c.Case(true, s.name+fmt.Sprint(log))
}

func runD01(c *mon.Ctx) {
	c.Section("failing", func(_ *rand.Rand) {
		c.Cases("f", c.N2(1500, 15000), func(i int, r *rand.Rand) { failingBase(c, r) })
	})
	c.Section("implementations", func(_ *rand.Rand) {
		c.Cases("h", c.N(1200), func(i int, r *rand.Rand) {
			base := baseStore(c, r, i%3)
			if base.close != nil {
				defer base.close()
			}
			s := base
			for n := r.Intn(4); n > 0; n-- {
				switch r.Intn(3) {
				case 0:
					s = prefixView(s, []string{"p1", "", "\x00", "p", "\xff\xff"}[r.Intn(5)])
				case 1:
					if !strings.HasPrefix(s.name, "temporary/") {
						s = overlayView(s)
					}
				case 2:
					if r.Intn(3) == 0 {
						s = readonlyView(s)
						if r.Intn(2) == 0 {
							s = overlayView(s)
						}
					}
				}
			}
			x := &dbsim{c: c, s: s, keys: dbKeys(r), saw: map[string]bool{}}
			bx := &dbsim{c: c, s: base, keys: x.keys, saw: map[string]bool{}}
			// sometimes pre-fill the base
			for n := r.Intn(6); n > 0; n-- {
				bx.put(x.keys[r.Intn(len(x.keys))], dbValue(r))
			}
			x.trace = append(x.trace, bx.trace...)
			for n := 40 + r.Intn(200); n > 0; n-- {
				if s != base && r.Intn(6) == 0 { // the base stays in use below its views
					bx.step(r)
					continue
				}
				x.step(r)
				if base.cached && r.Intn(60) == 0 {
					if rp, ok := base.d.(db.Replaceable); ok {
						// replacing the database under the cache switches to the new content
						nb := db.NewMemDB()
						cur := map[string]string{}
						for _, k := range x.keys {
							if r.Intn(2) == 0 {
								v := dbValue(r)
								_ = nb.Put([]byte(k), []byte(v))
								cur[k] = v
							}
						}
						base.cached = false
						_, old := rp.Replace("replaced", nb)
						if old != nil {
							_ = old.Close()
						}
						ms := mapStore(base.name, base.d, cur)
						base.get, base.put, base.del = ms.get, ms.put, ms.del
						x.open, bx.open = nil, nil
						if s != base {
							// rebuild the views' base lookups: they go through base's functions
							s = base
							x.s = base
						}
						x.rec("Replace")
						c.Count("replaced", 1)
					}
				}
			}
			x.checkAll()
			c.Case(x.saw["absent"] && x.saw["overwrite"] && x.saw["batch"], s.name+fmt.Sprint(i)+strings.Join(x.trace, ";"))
		})
	})
	c.Section("helpers", func(r *rand.Rand) {
		for i := 0; i < c.N(3000); i++ {
			mk := func() []byte {
				if r.Intn(6) == 0 {
					return nil
				}
				n := r.Intn(12)
				if r.Intn(8) == 0 {
					n = []int{31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 70000}[r.Intn(13)]
				}
				b := make([]byte, n)
				r.Read(b)
				return b
			}
			a, b, k := mk(), mk(), mk()
			o := string(a) + "|" + string(b) + "|" + string(k)
			p1, p2 := db.PrefixKey(a, k), db.PrefixKey2(a, b, k)
			c.Check(string(p1) == string(a)+string(k) && string(p2) == string(a)+string(b)+string(k), "prefixkey", "PrefixKey(%x,%x)=%x PrefixKey2(%x,%x,%x)=%x", a, k, p1, a, b, k, p2)
			scribble(p1, p2)
			c.Check(string(a)+"|"+string(b)+"|"+string(k) == o, "prefixkey-alias", "PrefixKey result shares memory with its arguments")
			cp := db.CopySlice(k)
			c.Check(bytes.Equal(cp, k) && (cp == nil) == (k == nil), "copyslice", "CopySlice(%x)=%x", k, cp)
			c.Case(len(a) > 0 && len(k) > 0, o)
		}
	})
}

// ---------- D02 ----------

// ldbOps is the deterministic operation stream of one worker round.
func ldbOps(seed int64, n int, fat bool) [][]fop {
	r := rand.New(rand.NewSource(seed))
	var out [][]fop
	val := func() []byte {
		l := 1 + r.Intn(60)
		if fat {
			l = 1 + r.Intn(60000)
		}
		b := make([]byte, l)
		r.Read(b)
		return b
	}
	key := func() []byte { return []byte(fmt.Sprintf("key-%03d", r.Intn(120))) }
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			out = append(out, []fop{{k: key(), v: val()}})
		case 1:
			out = append(out, []fop{{del: true, k: key()}})
		default:
			var ops []fop
			m := 1 + r.Intn(120)
			if fat {
				m = 1 + r.Intn(12)
			}
			for j := 0; j < m; j++ {
				if r.Intn(4) == 0 {
					ops = append(ops, fop{del: true, k: key()})
				} else {
					ops = append(ops, fop{k: key(), v: val()})
				}
			}
			out = append(out, ops)
		}
	}
	return out
}

func applyOps(m map[string]string, ops []fop) {
	for _, o := range ops {
		if o.del {
			delete(m, string(o.k))
		} else {
			m[string(o.k)] = string(o.v)
		}
	}
}

func doOps(d db.Database, ops []fop) error {
	if len(ops) == 1 {
		if ops[0].del {
			return d.Delete(ops[0].k)
		}
		return d.Put(ops[0].k, ops[0].v)
	}
	b := d.NewBatch()
	for _, o := range ops {
		if o.del {
			if err := b.Delete(o.k); err != nil {
				return err
			}
		} else if err := b.Put(o.k, o.v); err != nil {
			return err
		}
	}
	return d.Batch(b)
}

func openL(path string, cache int) (db.Database, error) {
	if cache > 0 {
		return db.NewCachedDBWithPath(path, cache)
	}
	return db.NewLDB(path)
}

// ldbWorker PATH SEED N CACHE FAT FSIZE: applies the stream, printing "a<i>" after each
// acknowledged step and "e<i>" after each failed one.
func ldbWorker(a []string) {
	seed, _ := strconv.ParseInt(a[1], 10, 64)
	n, _ := strconv.Atoi(a[2])
	cache, _ := strconv.Atoi(a[3])
	fsize, _ := strconv.ParseInt(a[5], 10, 64)
	d, err := openL(a[0], cache)
	if err != nil {
		fmt.Println("W open", err)
		os.Exit(3)
	}
	if fsize > 0 {
		signal.Ignore(syscall.SIGXFSZ)
		lim := syscall.Rlimit{Cur: uint64(fsize), Max: uint64(fsize)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			fmt.Println("W limit", err)
			os.Exit(4)
		}
	}
	for i, ops := range ldbOps(seed, n, a[4] == "1") {
		if cache > 0 {
			for _, o := range ops {
				_, _ = d.Get(o.k)
			}
		}
		if err := doOps(d, ops); err != nil {
			fmt.Printf("W e%d\n", i)
		} else {
			fmt.Printf("W a%d\n", i)
		}
	}
	fmt.Println("W done")
	if fsize > 0 {
		os.Exit(0)
	}
	if err := d.Close(); err != nil {
		fmt.Println("W close", err)
	}
}

func readLDB(c *mon.Ctx, path string) (map[string]string, bool) {
	d, err := db.NewLDB(path)
	if !c.Check(err == nil, "reopen-error", "reopen of a killed store: %v", err) {
		return nil, false
	}
	defer d.Close()
	m := map[string]string{}
	for i := 0; i < 120; i++ {
		k := fmt.Sprintf("key-%03d", i)
		v, err := d.Get([]byte(k))
		has, err2 := d.Has([]byte(k))
		if !c.Check(err == nil && err2 == nil && has == (v != nil), "reopen-read", "Get %v Has %v,%v", err, has, err2) {
			return nil, false
		}
		if v != nil {
			m[k] = string(v)
		}
	}
	return m, true
}

func runD02(c *mon.Ctx) {
	giantSection(c)
	c.Section("killed", func(_ *rand.Rand) {
		c.Cases("k", c.N(24), func(i int, r *rand.Rand) {
			path := newStorePath(c)
			defer os.RemoveAll(path)
			model := map[string]string{}
			fat := i%3 == 2
			for round := 0; round < 4; round++ {
				seed := r.Int63()
				cache := []int{0, 3}[r.Intn(2)]
				n := 400
				ops := ldbOps(seed, n, fat)
				f := "0"
				if fat {
					f = "1"
				}
				cmd := c.Proc("ldbworker", path, fmt.Sprint(seed), fmt.Sprint(n), fmt.Sprint(cache), f, "0")
				out, err := cmd.StdoutPipe()
				if err != nil || cmd.Start() != nil {
					c.Inconclusive("cannot start the worker: %v", err)
					return
				}
				killAfter := r.Intn(n)
				if r.Intn(8) == 0 {
					killAfter = n + 5
				}
				delay := time.Duration(r.Intn(3000)) * time.Microsecond
				acked, done := 0, false
				bad := ""
				sc := bufio.NewScanner(out)
				for sc.Scan() {
					l := sc.Text()
					if !strings.HasPrefix(l, "W ") {
						continue // the code under test logs to stdout
					}
					l = l[2:]
					switch {
					case strings.HasPrefix(l, "a"):
						acked++
					case l == "done":
						done = true
					default:
						bad = l
					}
					if acked == killAfter {
						killAfter = -1
						go func() { time.Sleep(delay); _ = cmd.Process.Kill() }()
					}
				}
				_ = cmd.Wait()
				c.Check(bad == "", "worker-error", "store failed with no fault injected: %s", bad)
				c.Count("acked_ops", int64(acked))
				if !done && killAfter == -1 {
					c.Count("kills_midstream", 1)
				}
				for j := 0; j < acked; j++ {
					applyOps(model, ops[j])
				}
				got, ok := readLDB(c, path)
				if !ok {
					return
				}
				if !sameMap(got, model) {
					next := cloneMap(model)
					if acked < n {
						applyOps(next, ops[acked])
					}
					if !c.Check(acked < n && sameMap(got, next), "recovered-state", "after a kill with %d acknowledged steps (seed %d, cache %d, fat %v) the store holds neither them nor them plus the step in flight: %s", acked, seed, cache, fat, diffMaps(got, model)) {
						return
					}
					c.Count("in_flight_survived", 1)
					model = next
				}
				c.Count("recoveries_checked", 1)
				c.Case(!done, fmt.Sprintf("%d/%d acked=%d cache=%d fat=%v", i, round, acked, cache, fat))
			}
		})
	})
	c.Section("starved", func(_ *rand.Rand) {
		c.Cases("s", c.N(8), func(i int, r *rand.Rand) {
			path := newStorePath(c)
			defer os.RemoveAll(path)
			seed := r.Int63()
			n := 300
			ops := ldbOps(seed, n, false)
			cmd := c.Proc("ldbworker", path, fmt.Sprint(seed), fmt.Sprint(n), "0", "0", fmt.Sprint(20000+r.Intn(400000)))
			out, err := cmd.Output()
			if err != nil {
				c.Inconclusive("starved worker: %v %s", err, out)
				return
			}
			acked, failed := map[int]bool{}, 0
			for _, l := range strings.Split(string(out), "\n") {
				if !strings.HasPrefix(l, "W ") {
					continue
				}
				l = l[2:]
				if j, err := strconv.Atoi(l[1:]); err == nil {
					if l[0] == 'a' {
						acked[j] = true
					} else if l[0] == 'e' {
						failed++
					}
				}
			}
			c.Count("starved_errors", int64(failed))
			got, ok := readLDB(c, path)
			if !ok {
				return
			}
			// per key: the last acknowledged value, or the value of any later failed step
			allowed := map[string]map[string]bool{}
			cur := map[string]string{}
			for j := range ops {
				before := cloneMap(cur)
				if acked[j] {
					applyOps(cur, ops[j])
					for _, o := range ops[j] {
						k := string(o.k)
						v, in := cur[k]
						allowed[k] = map[string]bool{fmt.Sprint(in) + v: true}
					}
				} else {
					tmp := before
					applyOps(tmp, ops[j])
					for _, o := range ops[j] {
						k := string(o.k)
						if allowed[k] == nil {
							v, in := cur[k]
							allowed[k] = map[string]bool{fmt.Sprint(in) + v: true}
						}
						v, in := tmp[k]
						allowed[k][fmt.Sprint(in)+v] = true
					}
				}
			}
			for k, a := range allowed {
				v, in := got[k]
				c.Check(a[fmt.Sprint(in)+v], "acked-lost", "store limited in file size acknowledged %d of %d steps (%d failed) but %s holds %s (present %v)", len(acked), n, failed, k, mon.Hex([]byte(v)), in)
			}
			c.Case(failed > 0, fmt.Sprintf("%d failed=%d", i, failed))
		})
	})
	c.Section("reopened", func(_ *rand.Rand) {
		c.Cases("r", c.N(60), func(i int, r *rand.Rand) {
			path := newStorePath(c)
			defer os.RemoveAll(path)
			model := map[string]string{}
			for round := 0; round < 3; round++ {
				cache := []int{0, 1, 7}[r.Intn(3)]
				d, err := openL(path, cache)
				if !c.Check(err == nil, "open-error", "%v", err) {
					return
				}
				c.Count("reopens", 1)
				x := &dbsim{c: c, s: mapStore("ldb", d, model), keys: dbKeys(r), saw: map[string]bool{}}
				for k := range model {
					x.keys = append(x.keys, k)
				}
				sort.Strings(x.keys)
				x.checkAll()
				for n := 20 + r.Intn(80); n > 0; n-- {
					x.step(r)
				}
				b := d.NewBatch()
				_ = b.Put([]byte("late"), []byte("late"))
				c.Check(d.Close() == nil, "close-error", "Close failed")
				for name, e := range map[string]error{"Put": d.Put([]byte("late"), []byte("x")), "Delete": d.Delete([]byte("a")), "Batch": d.Batch(b)} {
					c.Count("closed_errors", 1)
					c.Check(e != nil, "closed-"+name, "%s on a closed store reported success", name)
				}
				if cache == 0 {
					_, e := d.Get([]byte("never-there"))
					_, e2 := d.Has([]byte("never-there"))
					c.Check(e != nil && e2 != nil, "closed-read", "Get/Has on a closed store: %v %v", e, e2)
				}
				c.Case(len(model) > 2, strings.Join(x.trace, ";"))
			}
		})
	})
}

// ---------- D03 ----------

func runD03(c *mon.Ctx) {
	c.Section("views", func(_ *rand.Rand) {
		c.Cases("v", c.N(700), func(i int, r *rand.Rand) {
			fd := newFaultDB()
			bm := map[string]string{}
			keys := dbKeys(r)
			base := mapStore("base", fd, bm)
			var all []*store
			all = append(all, base)
			prefixes := []string{"p1", "p2", "q", "\x00", "\xff"}
			for n := 2 + r.Intn(5); n > 0; n-- {
				p := all[r.Intn(len(all))]
				var v *store
				switch r.Intn(4) {
				case 0:
					if p.name[0] == 't' {
						continue // an overlay of an overlay is the same overlay
					}
					v = overlayView(p)
				case 1:
					v = readonlyView(p)
				default:
					v = prefixView(p, prefixes[r.Intn(len(prefixes))])
				}
				all = append(all, v)
			}
			for _, k := range keys {
				if r.Intn(2) == 0 {
					v := dbValue(r)
					k = []string{"", "p1", "p2", "q"}[r.Intn(4)] + k
					_ = fd.Put([]byte(k), []byte(v))
					bm[k] = v
				}
			}
			sims := make([]*dbsim, len(all))
			for j, s := range all {
				sims[j] = &dbsim{c: c, s: s, keys: keys, saw: map[string]bool{}}
			}
			var trace []string
			nt := false
			for n := 60 + r.Intn(80); n > 0; n-- {
				j := r.Intn(len(all))
				if j == 0 && r.Intn(3) > 0 {
					j = len(all) - 1
				}
				x := sims[j]
				x.trace = nil
				if strings.Contains(all[j].name, "temporary") || strings.Contains(all[j].name, "readonly") {
					c.Count("shadowed_writes", 1)
					nt = true
				}
				x.step(r)
				if len(x.trace) == 0 {
					continue
				}
				trace = append(trace, all[j].name+"."+strings.Join(x.trace, ";"))
				snap := fd.snapshot()
				c.Count("base_compares", 1)
				if !c.Check(sameMap(snap, bm), "base-modified:"+family(all[j].name), "the base differs from what was written to it through writing views: %s\nhistory: %s", diffMaps(snap, bm), strings.Join(trace, " | ")) {
					return
				}
				if _, is := all[j], strings.HasPrefix(all[j].name, "readonly/"); is {
					d := all[j].d
					e1, e2 := d.Put([]byte("x"), []byte("y")), d.Delete([]byte("a"))
					b := d.NewBatch()
					var e3 error = db.ErrReadOnly
					if b != nil {
						_ = b.Put([]byte("x"), []byte("y"))
						e3 = d.Batch(b)
					}
					_, e4 := db.BatchWrite(d, 2, 3, func(j int, w db.Writer) (bool, error) { return true, w.Put([]byte("x"), []byte("z")) })
					c.Check(errors.Is(e1, db.ErrReadOnly) && errors.Is(e2, db.ErrReadOnly) && e3 != nil && e4 != nil, "readonly-accepts", "writes to a read-only view: Put %v Delete %v Batch %v BatchWrite %v", e1, e2, e3, e4)
					c.Count("readonly_rejections", 1)
				}
			}
			for _, x := range sims {
				x.trace = trace
				x.checkAll()
			}
			snap := fd.snapshot()
			c.Check(sameMap(snap, bm), "base-modified:end", "%s", diffMaps(snap, bm))
			c.Case(nt, strings.Join(trace, "|"))
		})
	})
	c.Section("rebased", func(_ *rand.Rand) {
		// adapters cloned or moved to another database keep their prefix and share nothing else
		c.Cases("a", c.N(400), func(i int, r *rand.Rand) {
			a, b := newFaultDB(), newFaultDB()
			pfx := []byte([]string{"p", "pq", "", "\x00"}[r.Intn(4)])
			opfx := string(pfx)
			ad := db.NewKeyPrefixedDataAdapter(a, pfx)
			scribble(pfx)
			cl := ad.Clone()
			rb, err := db.RebaseAdapter(ad, b)
			if !c.Check(err == nil, "rebase-error", "%v", err) {
				return
			}
			ma, mb := map[string]string{}, map[string]string{}
			var tr []string
			for n := 0; n < 30; n++ {
				k, v := dbKeys(r)[0], dbValue(r)
				which := r.Intn(3)
				tr = append(tr, fmt.Sprint(which, mon.Hex([]byte(k))))
				t := []db.DataAdapter{ad, cl, rb}[which]
				m := []map[string]string{ma, ma, mb}[which]
				if r.Intn(2) == 0 {
					c.Check(t.Save([]byte(k), []byte(v)) == nil, "save-error", "Save failed")
					m[opfx+k] = v
				}
				got, err := t.Load([]byte(k))
				w, in := m[opfx+k]
				c.Check(err == nil && (in == (got != nil)) && string(got) == w, "load", "Load(%x)=%s,%v want %s,%v", k, mon.Hex(got), err, mon.Hex([]byte(w)), in)
				c.Check(sameMap(a.snapshot(), ma) && sameMap(b.snapshot(), mb), "adapter-base", "adapter wrote to the wrong place")
				c.Count("ops", 1)
				c.Count("base_compares", 1)
			}
			c.Case(len(ma) > 0 && len(mb) > 0, strings.Join(tr, ","))
		})
	})
}

// ---------- D04 ----------

// batchLog counts what each committed batch held.
type batchLog struct {
	*faultDB
	sizes []int
}

func (b *batchLog) Batch(x db.Batch) error {
	if err := b.faultDB.Batch(x); err != nil {
		return err
	}
	b.sizes = append(b.sizes, x.Size())
	return nil
}

func runD04(c *mon.Ctx) {
	c.Section("batches", func(_ *rand.Rand) {
		c.Cases("b", c.N(600), func(i int, r *rand.Rand) {
			var base *store
			if i%4 == 3 {
				base = mapStore("fault", newFaultDB(), map[string]string{})
			} else {
				base = baseStore(c, r, i%4)
			}
			if base.close != nil {
				defer base.close()
			}
			s := base
			if r.Intn(2) == 0 && i%4 != 3 {
				s = overlayView(s)
			}
			if r.Intn(2) == 0 {
				s = prefixView(s, "pp")
			}
			if r.Intn(3) == 0 {
				s = prefixView(s, "\x00")
			}
			x := &dbsim{c: c, s: s, keys: dbKeys(r)[:4], saw: map[string]bool{}}
			for n := 0; n < 12; n++ {
				for k := r.Intn(3); k >= 0; k-- {
					x.newBatch()
				}
				for k := r.Intn(14); k > 0; k-- {
					x.batchOp(r)
				}
				if r.Intn(3) == 0 {
					x.put(x.keys[r.Intn(4)], dbValue(r))
				}
				x.checkAll() // nothing has an effect before its batch is committed
				for len(x.open) > 0 {
					x.commitBatch(r.Intn(len(x.open)))
					x.checkAll()
				}
			}
			c.Case(true, s.name+strings.Join(x.trace, ";"))
		})
	})
	c.Section("writer", func(_ *rand.Rand) {
		c.Cases("w", c.N(4000), func(i int, r *rand.Rand) {
			length, nkeys := r.Intn(14), 5
			if i%64 > 61 {
				length, nkeys = 100+r.Intn(1500), 1500
			}
			threshold := []int{0, 1, 2, 3, 5, 100, length, length - 1}[r.Intn(8)]
			kinds := make([]int, length) // 0 put, 1 delete, 2 skip, 3 put+put, 4 error
			for j := range kinds {
				kinds[j] = []int{0, 0, 0, 1, 2, 2, 3}[r.Intn(7)]
			}
			errAt := -1
			if length > 0 && r.Intn(6) == 0 {
				errAt = r.Intn(length)
			}
			var d db.Database
			var fd *batchLog
			name := ""
			faultAt := 0
			switch i % 8 {
			case 0:
				d, name = db.NewMemDB(), "mem"
			case 1:
				if i%16 == 1 {
					b := baseStore(c, r, 1+i%32/16)
					defer b.close()
					d, name = b.d, b.name
				} else {
					d, name = db.Temporary(db.NewMemDB()), "temporary"
				}
			case 2:
				d, name = db.NewKeyPrefixedDataAdapter(db.NewMemDB(), []byte("zz")).(db.Database), "prefix"
			default:
				fd = &batchLog{faultDB: newFaultDB()}
				d, name = fd, "fault"
				if i%2 == 0 {
					faultAt = 1 + r.Intn(4)
				}
			}
			init := map[string]string{}
			for j := 0; j < 4; j++ {
				k := fmt.Sprintf("k%d", j)
				_ = d.Put([]byte(k), []byte("old"))
				init[k] = "old"
			}
			if faultAt > 0 {
				fd.arm(int64(faultAt), int64(faultAt))
			}
			type item struct{ ops []fop }
			var items []item // accepted items in order
			var calls []int
			boom := errors.New("boom")
			count, err := db.BatchWrite(d, threshold, length, func(j int, w db.Writer) (bool, error) {
				calls = append(calls, j)
				if j == errAt {
					return false, boom
				}
				k := []byte(fmt.Sprintf("k%d", (j*7)%nkeys))
				v := []byte(fmt.Sprintf("v%d", j))
				defer scribble(k, v)
				switch kinds[j] {
				case 2:
					return false, nil
				case 1:
					items = append(items, item{[]fop{{del: true, k: append([]byte{}, k...)}}})
					return true, w.Delete(k)
				case 3:
					items = append(items, item{[]fop{{k: append([]byte{}, k...), v: []byte("x")}, {k: append([]byte{}, k...), v: append([]byte{}, v...)}}})
					if e := w.Put(k, []byte("x")); e != nil {
						return false, e
					}
					return true, w.Put(k, v)
				}
				items = append(items, item{[]fop{{k: append([]byte{}, k...), v: append([]byte{}, v...)}}})
				return true, w.Put(k, v)
			})
			shown := kinds
			if len(shown) > 20 {
				shown = shown[:20]
			}
			desc := fmt.Sprintf("BatchWrite on %s of %d items threshold=%d kinds=%v errAt=%d faultAt=%d -> %d,%v", name, length, threshold, shown, errAt, faultAt, count, err)
			c.Count("writer_runs", 1)
			for a, b := range calls {
				c.Check(a == b, "writer-order", "items asked out of order or twice (call %d was for %d): %s", a, b, desc)
			}
			faulted := false
			if fd != nil {
				fd.mu.Lock()
				faulted = faultAt > 0 && fd.puts >= int64(faultAt)
				fd.mu.Unlock()
				fd.disarm()
			}
			switch {
			case faulted:
				c.Count("faults", 1)
				c.Check(err != nil, "writer-swallowed-fault", "a failing commit was not reported: %s", desc)
			case errAt >= 0:
				c.Check(err == boom, "writer-error", "the item's error was not returned: %s", desc)
			default:
				c.Check(err == nil, "writer-error", "%s", desc)
				c.Check(len(calls) == length, "writer-order", "asked for %d of %d items: %s", len(calls), length, desc)
				c.Check(count == len(items), "writer-count", "count is not the %d written items: %s", len(items), desc)
			}
			// content: exactly the first count items are applied
			want := cloneMap(init)
			if !c.Check(count >= 0 && count <= len(items), "writer-count", "%s", desc) {
				return
			}
			for _, it := range items[:count] {
				applyOps(want, it.ops)
			}
			for j := 0; j < nkeys; j++ {
				k := fmt.Sprintf("k%d", j)
				v, e := d.Get([]byte(k))
				w, in := want[k]
				c.Check(e == nil && string(v) == w && (v != nil) == in, "writer-content:"+family(name), "%s holds %q want %q,%v: %s", k, v, w, in, desc)
			}
			if fd != nil && threshold > 0 {
				total := 0
				for _, n := range fd.sizes {
					total += n
					c.Check(n <= 2*threshold, "writer-threshold", "a batch of %d operations with threshold %d: %s", n, threshold, desc)
				}
				ops := 0
				for _, it := range items[:count] {
					ops += len(it.ops)
				}
				c.Check(total == ops, "writer-once", "committed batches held %d operations, want %d: %s", total, ops, desc)
			}
			c.Case(length > 1, desc)
		})
	})
	c.Section("faults", func(_ *rand.Rand) {
		c.Cases("f", c.N(600), func(i int, r *rand.Rand) {
			fd := newFaultDB()
			var d db.Database = fd
			if i%2 == 0 {
				d = db.NewKeyPrefixedDataAdapter(fd, []byte("n")).(db.Database)
			}
			b := d.NewBatch()
			for j := 0; j <= r.Intn(5); j++ {
				_ = b.Put([]byte{byte(r.Intn(3))}, []byte{1})
			}
			before := fd.snapshot()
			fd.arm(1, 1)
			err := d.Batch(b)
			c.Count("faults", 1)
			c.Check(err != nil, "batch-swallowed-fault", "Batch over a failing store reported success")
			fd.arm(1, 1)
			c.Check(d.Put([]byte("a"), []byte("b")) != nil, "put-swallowed-fault", "Put over a failing store reported success")
			fd.arm(1, 1)
			c.Check(d.Delete([]byte("a")) != nil, "delete-swallowed-fault", "Delete over a failing store reported success")
			fd.disarm()
			c.Check(sameMap(before, fd.snapshot()), "fault-effect", "failed writes changed the store")
			c.Case(true, fmt.Sprint(i, b.Size()))
		})
	})
}

// ---------- D05 ----------

type regIn struct {
	kind int // 0 put 1 delete 2 get 3 has
	v    int
	key  int
}

// regModel is a register per key: state 0 = absent, otherwise the value's number.
var regModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		var ks []int
		for _, o := range h {
			k := o.Input.(regIn).key
			if m[k] == nil {
				ks = append(ks, k)
			}
			m[k] = append(m[k], o)
		}
		sort.Ints(ks)
		var out [][]porcupine.Operation
		for _, k := range ks {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() interface{} { return 0 },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		x := in.(regIn)
		switch x.kind {
		case 0:
			return true, x.v
		case 1:
			return true, 0
		case 2:
			return out.(int) == st.(int), st
		default:
			return (out.(int) != 0) == (st.(int) != 0), st
		}
	},
	DescribeOperation: func(in, out interface{}) string {
		x := in.(regIn)
		return fmt.Sprintf("%s(k%d,%d)->%v", []string{"put", "delete", "get", "has"}[x.kind], x.key, x.v, out)
	},
}

func showOps(ops []porcupine.Operation, m porcupine.Model) func() string {
	return func() string {
		sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		var b strings.Builder
		for _, o := range ops {
			fmt.Fprintf(&b, "[%d..%d] g%d %s\n", o.Call, o.Return, o.ClientId, m.DescribeOperation(o.Input, o.Output))
		}
		return b.String()
	}
}

func overlaps(ops []porcupine.Operation) int64 {
	s := append([]porcupine.Operation{}, ops...)
	sort.Slice(s, func(i, j int) bool { return s[i].Call < s[j].Call })
	var n int64
	max := int64(-1)
	for _, o := range s {
		if o.Call < max {
			n++
		}
		if o.Return > max {
			max = o.Return
		}
	}
	return n
}

func encNum(n int) []byte {
	b := make([]byte, 4, 12)
	binary.BigEndian.PutUint32(b, uint32(n))
	return append(b, "pad"...)
}

func decNum(b []byte) int {
	if b == nil {
		return 0
	}
	if len(b) != 7 || string(b[4:]) != "pad" {
		return -1
	}
	return int(binary.BigEndian.Uint32(b))
}

func runD05(c *mon.Ctx) {
	c.Section("linearizability", func(_ *rand.Rand) {
		n := c.N2(150, 1500)
		for i := 0; i < n; i++ {
			i := i
			r := c.Rand(fmt.Sprintf("lin/%d", i))
			var d db.Database
			name := ""
			cleanup := func() {}
			perturb := func(x db.Database) db.Database { return &yieldDB{Database: x} }
			switch i % 7 {
			case 0:
				d, name = db.NewMemDB(), "mem"
			case 1:
				s := baseStore(c, r, 1)
				d, name, cleanup = s.d, "ldb", s.close
			case 2, 3, 4:
				p := newStorePath(c)
				cd, err := db.NewCachedDBWithPath(p, []int{1, 2, 64}[r.Intn(3)])
				if err != nil {
					c.Inconclusive("open: %v", err)
					return
				}
				name = "cached"
				d = cd
				if i%7 != 2 {
					_, old := cd.(db.Replaceable).Replace("x", perturb(db.NewMemDB()))
					_ = old.Close()
					name = "cached/mem"
				}
				cleanup = func() { _ = d.Close(); _ = os.RemoveAll(p) }
			case 5:
				base := db.NewMemDB()
				d, name = db.Temporary(perturb(base)), "temporary"
			default:
				d, name = db.NewKeyPrefixedDataAdapter(perturb(db.NewMemDB()), []byte("pfx")).(db.Database), "prefix"
			}
			ro := db.ReadOnly(d)
			const G = 6
			nk := 1 + r.Intn(3)
			per := 30
			hist := make([][]porcupine.Operation, G)
			seeds := make([]int64, G)
			for g := range seeds {
				seeds[g] = r.Int63()
			}
			ok := c.Within("concurrent use of "+name, 120*time.Second, func() {
				mon.Parallel(G, func(g int) {
					r := rand.New(rand.NewSource(seeds[g]))
					for j := 0; j < per; j++ {
						k := r.Intn(nk)
						kb := append(make([]byte, 0, 8), fmt.Sprintf("k%d", k)...)
						val := 1 + g*per + j
						if r.Intn(4) == 0 {
							runtime.Gosched()
						}
						var in regIn
						out := 0
						t0 := mon.Now()
						var err error
						switch r.Intn(8) {
						case 0, 1:
							in = regIn{0, val, k}
							vb := encNum(val)
							err = d.Put(kb, vb)
							t1 := mon.Now()
							scribble(vb)
							hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: 0, Return: t1})
							if err != nil {
								c.Violate("put-error:"+name, "%v", err)
							}
							continue
						case 2:
							in = regIn{1, 0, k}
							err = d.Delete(kb)
						case 3:
							b := d.NewBatch()
							ks := r.Perm(nk)
							for _, kk := range ks {
								vb := encNum(val)
								_ = b.Put([]byte(fmt.Sprintf("k%d", kk)), vb)
								scribble(vb)
							}
							t0 = mon.Now()
							err = d.Batch(b)
							t1 := mon.Now()
							for _, kk := range ks {
								hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: regIn{0, val, kk}, Call: t0, Output: 0, Return: t1})
							}
							if err != nil {
								c.Violate("batch-error:"+name, "%v", err)
							}
							continue
						case 4, 5, 6:
							in = regIn{2, 0, k}
							src := d
							if r.Intn(4) == 0 {
								src = ro
							}
							var v []byte
							v, err = src.Get(kb)
							out = decNum(v)
							t1 := mon.Now()
							scribble(v)
							hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: out, Return: t1})
							if err != nil {
								c.Violate("get-error:"+name, "%v", err)
							}
							continue
						default:
							in = regIn{3, 0, k}
							var has bool
							has, err = d.Has(kb)
							if has {
								out = 1
							}
						}
						t1 := mon.Now()
						if err != nil {
							c.Violate("error:"+name, "%v", err)
						}
						hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: out, Return: t1})
					}
				})
			})
			if !ok {
				return
			}
			var all []porcupine.Operation
			for _, h := range hist {
				all = append(all, h...)
			}
			ov := overlaps(all)
			c.Count("overlaps", ov)
			c.Count("ops_"+family(name), int64(len(all)))
			c.Linearizable(regModel, all, "not-linearizable:"+name, showOps(all, regModel))
			c.Case(ov > 0, fmt.Sprintf("%s %d ops %d overlaps %d", name, i, len(all), ov))
			cleanup()
		}
	})
	c.Section("views-shared", func(_ *rand.Rand) {
		// several overlays and prefixed views over one base, each driven by its own goroutine: each
		// must behave as a private map although the others are busy.
		for i := 0; i < c.N2(40, 400); i++ {
			var base db.Database
			cleanup := func() {}
			r := c.Rand(fmt.Sprintf("views/%d", i))
			if i%2 == 0 {
				base = db.NewMemDB()
			} else {
				s := baseStore(c, r, 1+i/2%2)
				base, cleanup = s.d, s.close
			}
			_ = base.Put([]byte("shared"), []byte("base"))
			seeds := []int64{r.Int63(), r.Int63(), r.Int63(), r.Int63(), r.Int63(), r.Int63()}
			var mu sync.Mutex
			var fails []string
			c.Within("views", 120*time.Second, func() {
				mon.Parallel(6, func(g int) {
					r := rand.New(rand.NewSource(seeds[g]))
					var s *store
					m := map[string]string{}
					if g%2 == 0 {
						s = mapStore("p", db.NewKeyPrefixedDataAdapter(base, []byte{byte('A' + g)}).(db.Database), m)
					} else {
						s = mapStore("t", db.Temporary(base), m)
					}
					for j := 0; j < 60; j++ {
						k := fmt.Sprintf("o%d-%d", g, r.Intn(5))
						switch r.Intn(4) {
						case 0, 1:
							v := fmt.Sprint(j)
							_ = s.d.Put([]byte(k), []byte(v))
							m[k] = v
						case 2:
							_ = s.d.Delete([]byte(k))
							delete(m, k)
						}
						v, err := s.d.Get([]byte(k))
						w, in := m[k]
						if err != nil || string(v) != w || (v != nil) != in {
							mu.Lock()
							fails = append(fails, fmt.Sprintf("view %d: %s=%q,%v want %q,%v", g, k, v, err, w, in))
							mu.Unlock()
						}
					}
				})
			})
			c.Check(len(fails) == 0, "view-interference", "%s", strings.Join(fails, "; "))
			c.Case(true, fmt.Sprint("views", i))
			cleanup()
		}
	})
}

// ---------- D02: large batches ----------

// giantShape is what one worker's batches look like: keys touched by every batch, value size, and
// how many of the keys batch i stores (it deletes the others).
func giantShape(seed int64) (keys, vlen int, stored func(i int) int) {
	r := rand.New(rand.NewSource(seed))
	switch r.Intn(4) {
	case 0:
		keys, vlen = 300+r.Intn(1500), 1+r.Intn(40)
	case 1:
		keys, vlen = 5000+r.Intn(40000), 1+r.Intn(20)
	case 2:
		keys, vlen = 2000+r.Intn(8000), 200+r.Intn(1500)
	default: // beyond the write buffer of the store
		keys, vlen = 50+r.Intn(200), 20000+r.Intn(60000)
	}
	return keys, vlen, func(i int) int {
		if i == 0 {
			return 0
		}
		return 1 + int((uint64(seed)>>3+uint64(i)*2654435761)%uint64(keys))
	}
}

func giantKey(j int) []byte { return []byte(fmt.Sprintf("g-%06d", j)) }

func giantVal(i, j, vlen int) []byte {
	v := []byte(fmt.Sprintf("%d/%d.", i, j))
	for len(v) < vlen {
		v = append(v, byte(i), byte(j), byte(len(v)))
	}
	return v
}

// giantWorker path seed cache from: commits batch from+1, from+2, …
func giantWorker(a []string) {
	seed, _ := strconv.ParseInt(a[1], 10, 64)
	cache, _ := strconv.Atoi(a[2])
	from, _ := strconv.Atoi(a[3])
	d, err := openL(a[0], cache)
	if err != nil {
		fmt.Println("W open", err)
		os.Exit(3)
	}
	keys, vlen, stored := giantShape(seed)
	for i := from + 1; i <= from+400; i++ {
		b := d.NewBatch()
		for j := 0; j < keys; j++ {
			if j < stored(i) {
				err = b.Put(giantKey(j), giantVal(i, j, vlen))
			} else {
				err = b.Delete(giantKey(j))
			}
			if err != nil {
				fmt.Println("W put", err)
				os.Exit(5)
			}
		}
		fmt.Printf("W s%d\n", i)
		if err := d.Batch(b); err != nil {
			fmt.Printf("W batch %d: %v\n", i, err)
			os.Exit(6)
		}
		fmt.Printf("W a%d\n", i)
	}
}

func giantSection(c *mon.Ctx) {
	c.Section("giant", func(_ *rand.Rand) {
		c.Cases("g", c.N(12), func(i int, r *rand.Rand) {
			path := newStorePath(c)
			defer os.RemoveAll(path)
			seed := r.Int63()
			for {
				if k, _, _ := giantShape(seed); i%4 != 1 || k >= 5000 { // always some batches of very many operations
					break
				}
				seed = r.Int63()
			}
			keys, vlen, stored := giantShape(seed)
			at := 0 // the batch the store is known to hold
			for round := 0; round < 4; round++ {
				cmd := c.Proc("giantworker", path, fmt.Sprint(seed), fmt.Sprint([]int{0, 3}[r.Intn(2)]), fmt.Sprint(at))
				out, err := cmd.StdoutPipe()
				if err != nil || cmd.Start() != nil {
					c.Inconclusive("cannot start the worker: %v", err)
					return
				}
				target := at + 2 + r.Intn(3)
				var started time.Time
				took := 2 * time.Millisecond
				inflight, killed, bad := at, false, ""
				sc := bufio.NewScanner(out)
				for sc.Scan() {
					l := sc.Text()
					if !strings.HasPrefix(l, "W ") {
						continue
					}
					n, nerr := strconv.Atoi(l[3:])
					switch {
					case nerr == nil && l[2] == 's':
						inflight, started = n, time.Now()
						if n >= target && !killed {
							killed = true
							d := time.Duration(r.Int63n(int64(took)*5/4 + 1))
							go func() { time.Sleep(d); _ = cmd.Process.Kill() }()
						}
					case nerr == nil && l[2] == 'a':
						took = time.Since(started)
						at = n
					default:
						bad = l
					}
				}
				_ = cmd.Wait()
				c.Check(bad == "", "worker-error", "store failed with no fault injected: %s", bad)
				if !killed {
					c.Inconclusive("giant worker ended on its own: %s", bad)
					return
				}
				if inflight > at {
					c.Count("kills_inside_a_giant_batch", 1)
				}
				d, err := openL(path, 0)
				if !c.Check(err == nil, "reopen-error", "reopen of a store killed in a batch of %d operations: %v", keys, err) {
					return
				}
				// the whole store must be what batch at, or else batch at+1 in flight, leaves behind
				holds := func(n int) (string, bool) {
					for j := 0; j < keys; j++ {
						var want []byte
						if j < stored(n) {
							want = giantVal(n, j, vlen)
						}
						got, err := d.Get(giantKey(j))
						if err != nil || !bytes.Equal(got, want) {
							return fmt.Sprintf("%s holds %s (%v)", giantKey(j), mon.Hex(got), err), false
						}
					}
					return "", true
				}
				why, ok := holds(at)
				if !ok && inflight > at {
					var why2 string
					why2, ok = holds(inflight)
					why += "; as to the batch in flight: " + why2
					if ok {
						at = inflight
						c.Count("giant_in_flight_survived", 1)
					}
				}
				_ = d.Close()
				c.Check(ok, "torn-batch", "killed while batch %d of %d operations (values of %d bytes) was in flight and batch %d acknowledged; the store holds neither: %s", inflight, keys, vlen, at, why)
				if !ok {
					return
				}
				c.Count("recoveries_checked", 1)
				c.Count("giant_ops", int64(keys))
				c.Case(inflight > at || keys > 1000, fmt.Sprintf("giant %d/%d keys=%d vlen=%d at=%d", i, round, keys, vlen, at))
			}
		})
	})
}

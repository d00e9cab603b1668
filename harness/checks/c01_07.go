package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/anishathalye/porcupine"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "C01", Race: true,
		Rule:  "pools of 1 to 6 workers and queues of 0 to 16 slots fed by 1 to 6 posters with random priorities, task durations, yields and stop/start cycles; every execution recorded per task, per worker and against the stop intervals; non-trivial when the pool was stopped while tasks were queued or a poster was blocked on a full queue",
		Floor: map[string]int64{"tasks": 20000, "stop_start_cycles": 300, "stopped_with_queue": 50, "priority_rounds": 200, "max_running_seen": 3, "keycount_reads": 2000}, Run: runC01})
	mon.Register(&mon.Check{ID: "C07", Race: true,
		Rule:  "goroutines hammer one shared registry each (height tracker, LRU map, node-ID set, service state, reserved addresses, hashing); recorded histories checked for linearizability against sequential models, snapshots re-read later; the race detector watches; non-trivial when operations overlapped",
		Floor: map[string]int64{"linearizable_histories": 150, "linearizable_ops": 8000, "overlaps": 1000, "snapshots": 500, "winners": 100}, Run: runC07})
}

type poolTask struct {
	id   int
	high bool
	spin int
	key  string
	runs int32
}

func runC01(c *mon.Ctx) {
	c.Section("exactly-once", func(_ *rand.Rand) {
		n := c.N2(300, 3000)
		mon.Workers(n, func(i int) {
			c.Guard(fmt.Sprintf("pool %d", i), func() { poolRun(c, i, c.Rand(fmt.Sprintf("pool/%d", i))) })
		})
	})
	c.Section("priority", func(_ *rand.Rand) {
		n := c.N2(300, 3000)
		mon.Workers(n, func(i int) {
			c.Guard(fmt.Sprintf("prio %d", i), func() { poolPriority(c, i, c.Rand(fmt.Sprintf("prio/%d", i))) })
		})
	})
	c.Section("ignored", func(_ *rand.Rand) {
		// nil tasks are ignored; a pool without a work function runs nothing
		var ran int32
		p := common.NewRoutinePool("nil", 2, 4, func(string, interface{}) { atomic.AddInt32(&ran, 1) }, nil)
		p.Start()
		p.Start()
		c.Within("nil tasks", 60*time.Second, func() {
			for k := 0; k < 20; k++ {
				p.PostHigher(nil)
				p.PostLower(nil)
			}
			p.PostLower(1)
			for atomic.LoadInt32(&ran) == 0 {
				time.Sleep(time.Millisecond)
			}
			p.Stop()
			p.Stop()
		})
		c.Check(atomic.LoadInt32(&ran) == 1, "nil-task-run", "%d executions of one task and nil tasks", ran)
		q := common.NewRoutinePool("nofunc", 1, 4, nil, nil)
		q.Start()
		q.PostLower(1)
		q.PostHigher(1)
		c.Within("no function", 60*time.Second, func() {
			for q.HigherLen()+q.LowerLen() > 0 {
				time.Sleep(time.Millisecond)
			}
			q.Stop()
		})
	})
}

// poolPriority: with one worker held inside a task, everything posted meanwhile runs higher first, in
// posting order within a priority; with k workers no more than k-1 higher tasks can still be unfinished
// when a lower one starts.
func poolPriority(c *mon.Ctx, i int, r *rand.Rand) {
	k := 1 + i%4
	q := 1 + r.Intn(20)
	hold, entered := make(chan struct{}), make(chan struct{}, k)
	var mu sync.Mutex
	var order []int // positive = higher, negative = lower
	started := 0
	type ev struct{ v, highLeft int }
	highDone := 0
	nh, nl := r.Intn(q+1), r.Intn(q+1)
	var bad string
	p := common.NewRoutinePool(fmt.Sprintf("prio%d", i), k, q, func(_ string, e interface{}) {
		v := e.(int)
		if v == 0 {
			entered <- struct{}{}
			<-hold
			return
		}
		mu.Lock()
		order = append(order, v)
		started++
		if v < 0 {
			if left := nh - highDone; left > k-1 && bad == "" {
				bad = fmt.Sprintf("lower task %d started while %d higher ones had not (%d workers): %v", -v, left, k, order)
			}
		} else {
			highDone++
		}
		mu.Unlock()
		if r := v % 3; r == 1 {
			runtime.Gosched()
		}
	}, nil)
	p.Start()
	c.Within("pool priority", 120*time.Second, func() {
		for w := 0; w < k; w++ { // occupy every worker
			p.PostLower(0)
			<-entered
		}
		h, l := 0, 0
		for h < nh || l < nl {
			if h < nh && (l == nl || r.Intn(2) == 0) {
				h++
				p.PostHigher(h)
			} else {
				l++
				p.PostLower(-l)
			}
		}
		c.Check(p.HigherLen() == nh && p.LowerLen() == nl, "queue-length", "posted %d/%d, queues show %d/%d", nh, nl, p.HigherLen(), p.LowerLen())
		close(hold)
		for {
			mu.Lock()
			d := started
			mu.Unlock()
			if d == nh+nl {
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
		p.Stop()
	})
	mu.Lock()
	defer mu.Unlock()
	if bad != "" {
		c.Violate("priority", "%s", bad)
	}
	if k == 1 {
		want := make([]int, 0, nh+nl)
		for h := 1; h <= nh; h++ {
			want = append(want, h)
		}
		for l := 1; l <= nl; l++ {
			want = append(want, -l)
		}
		c.Check(fmt.Sprint(order) == fmt.Sprint(want), "priority-order", "one worker ran %v, want %v", order, want)
	}
	c.Count("priority_rounds", 1)
	c.Count("tasks", int64(nh+nl))
	c.Case(nh > 0 && nl > 0, fmt.Sprintf("prio %d %d %d %d", k, q, nh, nl))
}

func poolRun(c *mon.Ctx, i int, r *rand.Rand) {
	workers, queue, posters := 1+r.Intn(6), []int{0, 1, 2, 5, 16}[r.Intn(5)], 1+r.Intn(6)
	per := 20 + r.Intn(40)
	cycles := r.Intn(5)
	name := fmt.Sprintf("pool%d", i)
	tasks := make([]*poolTask, posters*per)
	for t := range tasks {
		tasks[t] = &poolTask{id: t, high: r.Intn(2) == 0, spin: r.Intn(200), key: []string{"", name + "a", name + "b"}[r.Intn(3)]}
		if r.Intn(10) == 0 {
			tasks[t].spin = -1
		}
	}
	var running, done, maxRun int32
	var off int32 // 1 between a returned Stop and the next Start
	busy := map[string]*int32{}
	for w := 0; w < workers; w++ {
		busy[fmt.Sprintf("%s-%d", name, w+1)] = new(int32)
	}
	var kcReads int64
	perKey := map[string]*int32{name + "a": new(int32), name + "b": new(int32)}
	work := func(wn string, e interface{}) {
		t := e.(*poolTask)
		n := atomic.AddInt32(&running, 1)
		for m := atomic.LoadInt32(&maxRun); n > m && !atomic.CompareAndSwapInt32(&maxRun, m, n); m = atomic.LoadInt32(&maxRun) {
		}
		if n > int32(workers) {
			c.Violate("too-many-workers", "%d tasks run at once in a pool of %d", n, workers)
		}
		b := busy[wn]
		if b == nil {
			c.Violate("worker-name", "task run by %q in a pool of %d", wn, workers)
		} else if atomic.AddInt32(b, 1) != 1 {
			c.Violate("worker-shared", "worker %q runs two tasks at once", wn)
		}
		if atomic.LoadInt32(&off) == 1 {
			c.Violate("ran-while-stopped", "task %d ran after Stop returned and before Start", t.id)
		}
		if atomic.AddInt32(&t.runs, 1) != 1 {
			c.Violate("ran-twice", "task %d (higher=%v) ran more than once", t.id, t.high)
		}
		if t.key == "" && t.id%7 == 3 {
			t.key = name + "a"
		} else if t.key != "" {
			atomic.AddInt32(perKey[t.key], 1)
			m := common.KeyCount()
			atomic.AddInt64(&kcReads, 1)
			if v := m[t.key]; v < 1 || v > workers {
				c.Violate("keycount-range", "KeyCount of %q is %d while a task with that key runs in a pool of %d", t.key, v, workers)
			}
			for k := range m { // a snapshot is the caller's
				m[k] = -100
			}
			atomic.AddInt32(perKey[t.key], -1)
			switch t.id % 5 { // the task is the caller's, its key is the one it had when it was taken
			case 1:
				t.key = ""
			case 2:
				t.key = name + "b"
			}
		}
		switch {
		case t.spin < 0:
			time.Sleep(50 * time.Microsecond)
		default:
			for s := 0; s < t.spin; s++ {
				if s%50 == 0 {
					runtime.Gosched()
				}
			}
		}
		if b != nil {
			atomic.AddInt32(b, -1)
		}
		atomic.AddInt32(&running, -1)
		atomic.AddInt32(&done, 1)
	}
	p := common.NewRoutinePool(name, workers, queue, work, func(e interface{}) string { return e.(*poolTask).key })
	stoppedWithQueue := 0
	lost := false
	finished := c.Within("pool run", 240*time.Second, func() {
		p.Start()
		var wg sync.WaitGroup
		for g := 0; g < posters; g++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(g int) {
				defer wg.Done()
				for k := 0; k < per; k++ {
					t := tasks[g*per+k]
					if t.high {
						p.PostHigher(t)
					} else {
						p.PostLower(t)
					}
					if rr.Intn(8) == 0 {
						runtime.Gosched()
					}
				}
			}(g)
		}
		for k := 0; k < cycles; k++ {
			for s := r.Intn(300); s > 0; s-- {
				runtime.Gosched()
			}
			p.Stop()
			atomic.StoreInt32(&off, 1)
			if n := atomic.LoadInt32(&running); n != 0 {
				c.Violate("stop-did-not-wait", "%d tasks still running when Stop returned", n)
			}
			d0 := atomic.LoadInt32(&done)
			if p.HigherLen()+p.LowerLen() > 0 {
				stoppedWithQueue++
			}
			for s := r.Intn(100); s > 0; s-- {
				runtime.Gosched()
			}
			if r.Intn(3) == 0 {
				time.Sleep(time.Millisecond)
			}
			if d1 := atomic.LoadInt32(&done); d1 != d0 {
				c.Violate("progress-while-stopped", "%d tasks finished while the pool was stopped", d1-d0)
			}
			m := common.KeyCount()
			if m[name+"a"] != 0 || m[name+"b"] != 0 {
				c.Violate("keycount-stopped", "pool stopped and idle but KeyCount shows %v", m)
			}
			atomic.StoreInt32(&off, 0)
			p.Start()
			c.Count("stop_start_cycles", 1)
		}
		wg.Wait()
		// every posted task is executed: wait until done, or until nothing is queued or running any more
		idle := 0
		for atomic.LoadInt32(&done) < int32(len(tasks)) {
			if p.HigherLen()+p.LowerLen() == 0 && atomic.LoadInt32(&running) == 0 {
				idle++
			} else {
				idle = 0
			}
			if idle > 3000 { // 3 s with empty queues and idle workers
				lost = true
				break
			}
			time.Sleep(time.Millisecond)
		}
		p.Stop()
	})
	if !finished {
		return
	}
	for _, t := range tasks {
		if n := atomic.LoadInt32(&t.runs); n != 1 {
			c.Violate("not-once", "task %d (higher=%v) ran %d times, %d of %d tasks done, queues %d/%d (lost=%v)", t.id, t.high, n, done, len(tasks), p.HigherLen(), p.LowerLen(), lost)
			break
		}
	}
	m := common.KeyCount()
	c.Check(m[name+"a"] == 0 && m[name+"b"] == 0, "keycount-end", "all tasks done but KeyCount shows %v", m)
	c.Count("tasks", int64(len(tasks)))
	c.Count("stopped_with_queue", int64(stoppedWithQueue))
	c.Count("keycount_reads", kcReads)
	if maxRun > 1 {
		c.Count("max_running_seen", 1)
	}
	c.Case(stoppedWithQueue > 0 || queue < per, fmt.Sprintf("%d w%d q%d p%d c%d", i, workers, queue, posters, cycles))
}

// ---------- C07 ----------

type smIn struct {
	op   string
	k, v int
}

type smOut struct {
	n  int
	ok bool
	s  string
}

func describeSM(in, out interface{}) string { return fmt.Sprintf("%+v -> %+v", in, out) }

func partByKey(h []porcupine.Operation) [][]porcupine.Operation {
	m := map[int][]porcupine.Operation{}
	var ks []int
	for _, o := range h {
		k := o.Input.(smIn).k
		if m[k] == nil {
			ks = append(ks, k)
		}
		m[k] = append(m[k], o)
	}
	sort.Ints(ks)
	var out [][]porcupine.Operation
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

// heightModel: -1 absent; Set, Get, CAS (greater only)
var heightModel = porcupine.Model{
	Partition: partByKey,
	Init:      func() interface{} { return -1 },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, x, o := st.(int), in.(smIn), out.(smOut)
		switch x.op {
		case "set":
			return true, x.v
		case "get":
			return o.ok == (s >= 0) && (!o.ok || o.n == s), s
		default:
			win := s < 0 || x.v > s
			if win {
				return o.ok, x.v
			}
			return !o.ok, s
		}
	},
	DescribeOperation: describeSM,
}

// lruModel: -1 absent; Add keeps an existing value
var lruModel = porcupine.Model{
	Partition: partByKey,
	Init:      func() interface{} { return -1 },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, x, o := st.(int), in.(smIn), out.(smOut)
		switch x.op {
		case "add":
			if s < 0 {
				return o.ok, x.v
			}
			return !o.ok, s
		case "remove":
			return true, -1
		case "contains":
			return o.ok == (s >= 0), s
		default:
			return o.ok == (s >= 0) && (!o.ok || o.n == s), s
		}
	},
	DescribeOperation: describeSM,
}

// setModel: the node-ID set; state is the list in insertion order, encoded as a string of letters
var setModel = porcupine.Model{
	Init: func() interface{} { return "" },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, x, o := st.(string), in.(smIn), out.(smOut)
		ch := string(rune('a' + x.k))
		switch x.op {
		case "put":
			if strings.Contains(s, ch) {
				return !o.ok, s
			}
			return o.ok, s + ch
		case "del":
			return true, strings.Replace(s, ch, "", 1)
		case "len":
			return o.n == len(s), s
		case "index":
			return o.ok == strings.Contains(s, ch) && (!o.ok || o.n == strings.Index(s, ch)), s
		case "at":
			return o.ok == (x.k < len(s)) && (!o.ok || o.s == s[x.k:x.k+1]), s
		default:
			b := []byte(s)
			sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			return o.s == string(b), s
		}
	},
	DescribeOperation: describeSM,
}

// serviceModel: created 0, initialized 1, started 2, stopped 3
var serviceModel = porcupine.Model{
	Init: func() interface{} { return 0 },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, o := st.(int), out.(smOut)
		switch in.(smIn).op {
		case "init":
			if s == 0 || s == 3 {
				return o.ok, 1
			}
		case "start":
			if s == 1 {
				return o.ok, 2
			}
		case "close":
			if s == 2 {
				return o.ok, 3
			}
		}
		return !o.ok, s
	},
	DescribeOperation: describeSM,
}

// record runs n goroutines of len ops each and returns the history.
func record(c *mon.Ctx, r *rand.Rand, what string, g, ops int, step func(g int, r *rand.Rand, k int) (smIn, func() smOut)) []porcupine.Operation {
	seeds := make([]int64, g)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	hist := make([][]porcupine.Operation, g)
	if !c.Within(what, 120*time.Second, func() {
		mon.Parallel(g, func(id int) {
			rr := rand.New(rand.NewSource(seeds[id]))
			for k := 0; k < ops; k++ {
				in, f := step(id, rr, k)
				t0 := mon.Now()
				out := f()
				t1 := mon.Now()
				hist[id] = append(hist[id], porcupine.Operation{ClientId: id, Input: in, Output: out, Call: t0, Return: t1})
				if rr.Intn(5) == 0 {
					runtime.Gosched()
				}
			}
		})
	}) {
		return nil
	}
	var all []porcupine.Operation
	for _, h := range hist {
		all = append(all, h...)
	}
	return all
}

type svcCalls struct {
	body func()
	n    [3]int32
	fail int // the step that fails, from 1
}

var errSvc = errors.New("the service's own failure")

func (s *svcCalls) call(k int) error {
	s.body()
	atomic.AddInt32(&s.n[k], 1)
	if s.fail == k+1 {
		return errSvc
	}
	return nil
}
func (s *svcCalls) Initializer() error { return s.call(0) }
func (s *svcCalls) Starter() error     { return s.call(1) }
func (s *svcCalls) Closer() error      { return s.call(2) }

func runC07(c *mon.Ctx) {
	judge := func(name string, m porcupine.Model, all []porcupine.Operation) {
		ov := overlaps(all)
		c.Count("overlaps", ov)
		c.Linearizable(m, all, "not-linearizable:"+name, showOps(all, m))
		c.Case(ov > 0, fmt.Sprintf("%s %d ops %d overlaps", name, len(all), ov))
	}
	c.Section("heights", func(_ *rand.Rand) {
		for i := 0; i < c.N2(80, 800); i++ {
			r := c.Rand(fmt.Sprintf("heights/%d", i))
			lm := &common.LastBlockMap{M: map[common.ChainID]common.Height{}}
			set, base := lm.Set, common.ChainID(0)
			if i%4 == 3 { // the process-wide tracker through its own entry point, on chains of this round
				lm, set, base = &common.LastBlocks, common.WatchHeight, common.ChainID(100000+10*i)
			}
			var vseq int64
			var mu sync.Mutex
			type snap struct {
				m map[common.ChainID]common.Height
				s string
			}
			var snaps []snap
			all := record(c, r, "height tracker", 4, 30, func(g int, r *rand.Rand, k int) (smIn, func() smOut) {
				key := r.Intn(3)
				id := base + common.ChainID(key)
				switch r.Intn(8) {
				case 0, 1:
					v := int(atomic.AddInt64(&vseq, 1))*10 - r.Intn(100) + 200
					return smIn{"set", key, v}, func() smOut { set(id, common.Height(v)); return smOut{} }
				case 2, 3, 4:
					v := int(atomic.AddInt64(&vseq, 1))*10 - r.Intn(100) + 200
					return smIn{"cas", key, v}, func() smOut { return smOut{ok: lm.CAS(id, common.Height(v))} }
				case 5:
					return smIn{"get", key, 0}, func() smOut {
						m := lm.CopyMap()
						mu.Lock()
						snaps = append(snaps, snap{m, fmt.Sprint(m)})
						mu.Unlock()
						h, ok := m[id]
						return smOut{n: int(h), ok: ok}
					}
				default:
					return smIn{"get", key, 0}, func() smOut { h, ok := lm.Get(id); return smOut{n: int(h), ok: ok} }
				}
			})
			judge("LastBlockMap", heightModel, all)
			for _, s := range snaps {
				c.Count("snapshots", 1)
				c.Check(fmt.Sprint(s.m) == s.s, "snapshot-changed", "CopyMap result changed from %s to %v", s.s, s.m)
				s.m[9999] = 1
			}
			if _, ok := lm.Get(9999); ok {
				c.Violate("snapshot-shared", "writing to a CopyMap result shows in the tracker")
			}
		}
	})
	c.Section("cas-race", func(_ *rand.Rand) {
		// all goroutines CAS the same height: exactly one wins; increasing heights: the largest stays
		for i := 0; i < c.N2(150, 1500); i++ {
			lm := &common.LastBlockMap{M: map[common.ChainID]common.Height{}}
			var wins int32
			mon.Parallel(8, func(g int) {
				if lm.CAS(1, 7) {
					atomic.AddInt32(&wins, 1)
				}
				lm.CAS(2, common.Height(100+g*(i+1)%11))
			})
			c.Count("winners", 1)
			c.Check(wins == 1, "cas-winners", "%d of 8 equal updates won", wins)
			max := common.Height(0)
			for g := 0; g < 8; g++ {
				if h := common.Height(100 + g*(i+1)%11); h > max {
					max = h
				}
			}
			h, _ := lm.Get(2)
			c.Check(h == max, "cas-max", "largest of the competing heights is %d, tracker holds %d", max, h)
		}
	})
	c.Section("lru", func(_ *rand.Rand) {
		for i := 0; i < c.N2(60, 600); i++ {
			r := c.Rand(fmt.Sprintf("lru/%d", i))
			l := common.NewLruMap(64)
			var vseq int64
			all := record(c, r, "LRU map", 4, 30, func(g int, r *rand.Rand, k int) (smIn, func() smOut) {
				key := r.Intn(3)
				switch r.Intn(6) {
				case 0, 1:
					v := int(atomic.AddInt64(&vseq, 1))
					return smIn{"add", key, v}, func() smOut { return smOut{ok: l.Add(key, v)} }
				case 2:
					return smIn{"remove", key, 0}, func() smOut { l.Remove(key); return smOut{} }
				case 3:
					return smIn{"contains", key, 0}, func() smOut { return smOut{ok: l.Contains(key)} }
				default:
					return smIn{"get", key, 0}, func() smOut {
						v := l.Get(key)
						if v == nil {
							return smOut{}
						}
						return smOut{n: v.(int), ok: true}
					}
				}
			})
			judge("LruMap", lruModel, all)
			l.Clear()
			c.Check(!l.Contains(0) && !l.Contains(1) && !l.Contains(2), "lru-clear", "entries survive Clear")
		}
		// the bound: never more than size entries, the newest always present
		r := c.Rand("lru/bound")
		for i := 0; i < c.N2(50, 300); i++ {
			size := 1 + r.Intn(8)
			l := common.NewLruMap(size)
			for k := 0; k < 50; k++ {
				key := r.Intn(20)
				l.Add(key, key)
				n := 0
				for x := 0; x < 20; x++ {
					if l.Contains(x) {
						n++
					}
				}
				c.Check(n <= size && l.Contains(key), "lru-bound", "%d entries in a map of %d, newest present %v", n, size, l.Contains(key))
			}
		}
	})
	c.Section("nodeset", func(_ *rand.Rand) {
		for i := 0; i < c.N2(80, 800); i++ {
			r := c.Rand(fmt.Sprintf("nodeset/%d", i))
			ids := make([]*common.NodeID, 5)
			for k := range ids {
				ids[k] = &common.NodeID{}
				ids[k][0] = byte(k)
				ids[k][63] = byte(r.Intn(256))
			}
			letter := func(id *common.NodeID) string { return string(rune('a' + id[0])) }
			ns := common.NewNodeIDSet()
			var mu sync.Mutex
			type snap struct {
				l common.NodeIDs
				s string
			}
			var snaps []snap
			all := record(c, r, "node-ID set", 3, 14, func(g int, r *rand.Rand, k int) (smIn, func() smOut) {
				n := r.Intn(5)
				cp := *ids[n]
				switch r.Intn(9) {
				case 0, 1, 2:
					return smIn{"put", n, 0}, func() smOut { return smOut{ok: ns.Put(&cp)} }
				case 3, 4:
					return smIn{"del", n, 0}, func() smOut { ns.Delete(&cp); return smOut{} }
				case 5:
					return smIn{"len", 0, 0}, func() smOut { return smOut{n: ns.Len()} }
				case 6:
					return smIn{"index", n, 0}, func() smOut { x, ok := ns.GetIndex(&cp); return smOut{n: x, ok: ok} }
				case 7:
					return smIn{"at", n, 0}, func() smOut {
						id, ok := ns.Get(n)
						if !ok {
							return smOut{}
						}
						return smOut{ok: true, s: letter(id)}
					}
				default:
					return smIn{"list", 0, 0}, func() smOut {
						l := ns.GetNodeIDs(1)
						var s string
						for x := range l {
							s += letter(&l[x])
						}
						mu.Lock()
						snaps = append(snaps, snap{l, idsHex(l)})
						mu.Unlock()
						return smOut{s: s}
					}
				}
			})
			judge("NodeIDSet", setModel, all)
			for _, s := range snaps {
				c.Count("snapshots", 1)
				c.Check(idsHex(s.l) == s.s, "nodeset-snapshot-changed", "GetNodeIDs result changed from %s to %s", s.s, idsHex(s.l))
			}
		}
		for i := 0; i < c.N2(10, 100); i++ {
			// exchanges of places while others look: every id keeps exactly one place and one index
			r := c.Rand(fmt.Sprintf("nodeset-swap/%d", i))
			const K, G, N = 5, 4, 80
			in := make([]*common.NodeID, K)
			for k := range in {
				in[k] = &common.NodeID{byte(k), byte(r.Intn(256))}
			}
			ns := common.NewNodeIDSet(in...)
			want := idsHex(ns.GetNodeIDs(1))
			seeds := make([]int64, G)
			for g := range seeds {
				seeds[g] = r.Int63()
			}
			var fails [G]string
			c.Within("exchanges in a node-ID set", 60*time.Second, func() {
				mon.Parallel(G, func(g int) {
					r := rand.New(rand.NewSource(seeds[g]))
					for k := 0; k < N && fails[g] == ""; k++ {
						x, y := r.Intn(K), r.Intn(K)
						switch op := r.Intn(8); {
						case op < 3:
							ns.Swap(x, y)
						case op == 3:
							if id, ok := ns.Get(x); !ok || id == nil {
								fails[g] = fmt.Sprintf("Get(%d) of %d: %v, %v", x, K, id, ok)
							}
						case op == 4:
							if ix, ok := ns.GetIndex(in[x]); !ok || ix < 0 || ix >= K {
								fails[g] = fmt.Sprintf("GetIndex of a member: %d, %v", ix, ok)
							}
						case op == 5:
							if got := idsHex(ns.GetNodeIDs(1)); got != want {
								fails[g] = fmt.Sprintf("GetNodeIDs: %s, want %s", got, want)
							}
						case op == 6:
							if ns.Less(x, x) {
								fails[g] = fmt.Sprintf("Less(%d,%d)", x, x)
							}
						default:
							if n := ns.Len(); n != K {
								fails[g] = fmt.Sprintf("Len %d of %d", n, K)
							}
						}
					}
				})
			})
			for _, f := range fails {
				c.Check(f == "", "nodeset-swap", "%s", f)
			}
			var places string
			for k := 0; k < K; k++ {
				id, ok := ns.Get(k)
				ix, ok2 := ns.GetIndex(id)
				if !ok || !ok2 || ix != k {
					places = fmt.Sprintf("place %d holds %v (%v), whose index is %d (%v)", k, id, ok, ix, ok2)
				}
			}
			c.Check(places == "", "nodeset-swap", "after concurrent exchanges: %s", places)
			c.Count("nodeset_swap_runs", 1)
			c.Case(true, fmt.Sprint("nodeset-swap", i))
		}
		r := c.Rand("nodeset/init")
		for i := 0; i < 200; i++ {
			var in []*common.NodeID
			set := map[common.NodeID]struct{}{}
			for k := r.Intn(8); k > 0; k-- {
				id := new(common.NodeID)
				id[0], id[63] = byte(r.Intn(4)), byte(r.Intn(2))
				in = append(in, id)
				set[*id] = struct{}{}
			}
			ns := common.NewNodeIDSet(in...)
			ok := ns.Len() == len(set)
			for k := 0; ok && k < ns.Len(); k++ {
				id, has := ns.Get(k)
				ix, has2 := ns.GetIndex(id)
				_, member := set[*id]
				ok = has && has2 && ix == k && member
				if k > 0 {
					prev, _ := ns.Get(k - 1)
					ok = ok && bytes.Compare(prev[:], id[:]) < 0
				}
			}
			for _, k := range []int{-1, -1 - r.Intn(300), math.MinInt64, ns.Len(), ns.Len() + 1 + r.Intn(300), math.MaxInt64} {
				if id, has := ns.Get(k); has || id != nil {
					c.Violate("nodeset-out-of-range", "Get(%d) of a set of %d gives %v, %v", k, ns.Len(), id, has)
				}
			}
			c.Check(ok, "nodeset-init", "set built from %d ids (%d distinct) is inconsistent", len(in), len(set))
		}
	})
	c.Section("services", func(_ *rand.Rand) {
		for i := 0; i < c.N2(80, 800); i++ {
			r := c.Rand(fmt.Sprintf("services/%d", i))
			var inside int32
			sc := &svcCalls{body: func() {
				if atomic.AddInt32(&inside, 1) != 1 {
					c.Violate("service-overlap", "two state changes of one service run at once")
				}
				runtime.Gosched()
				atomic.AddInt32(&inside, -1)
			}}
			s := &common.AbstractService{InitFunc: sc.Initializer, StartFunc: sc.Starter, CloseFunc: sc.Closer}
			if i%2 == 1 {
				s = new(common.AbstractService)
				s.SetChanger(sc)
			}
			all := record(c, r, "service", 4, 10, func(g int, r *rand.Rand, k int) (smIn, func() smOut) {
				switch r.Intn(3) {
				case 0:
					return smIn{op: "init"}, func() smOut { return smOut{ok: s.Init() == nil} }
				case 1:
					return smIn{op: "start"}, func() smOut { return smOut{ok: s.Start() == nil} }
				default:
					return smIn{op: "close"}, func() smOut { return smOut{ok: s.Close() == nil} }
				}
			})
			judge("AbstractService", serviceModel, all)
			won := map[string]int32{}
			for _, o := range all {
				if o.Output.(smOut).ok {
					won[o.Input.(smIn).op]++
				}
			}
			c.Check(won["init"] == sc.n[0] && won["start"] == sc.n[1] && won["close"] == sc.n[2], "service-calls", "changes acknowledged %v, performed %v (init, start, close)", won, sc.n)
			// an error of the service's own is the caller's
			f := new(common.AbstractService)
			at := i % 3
			f.SetChanger(&svcCalls{body: func() {}, fail: at + 1})
			errs := []error{f.Init()}
			if at > 0 {
				errs = append(errs, f.Start())
			}
			if at > 1 {
				errs = append(errs, f.Close())
			}
			for k, err := range errs {
				c.Check((err != nil) == (k == at) && (k != at || errors.Is(err, errSvc)), "service-error", "step %d of a service failing at step %d gives %v", k, at, err)
			}
		}
	})
	c.Section("reserved", func(_ *rand.Rand) {
		for i := 0; i < c.N2(20, 100); i++ {
			r := c.Rand(fmt.Sprintf("reserved/%d", i))
			addrs := make([]common.Address, 12)
			for k := range addrs {
				r.Read(addrs[k][:])
			}
			seen := make([][12]int, 4)
			c.Within("reserved addresses", 60*time.Second, func() {
				mon.Parallel(8, func(g int) {
					if g < 4 {
						for k := g; k < 12; k += 4 {
							switch k % 4 {
							case 0:
								common.RegisterReservedAddress(addrs[k])
							case 1:
								common.RegisterSystemContract(false, addrs[k])
							case 2:
								common.RegisterSystemContract(true, addrs[k])
							default:
								common.RegisterNoCheckAddress(addrs[k])
							}
							if !addrs[k].IsReserved() {
								c.Violate("reserved-lost", "address %d not reserved right after its registration", k)
							}
						}
						return
					}
					for n := 0; n < 30; n++ {
						for k := range addrs {
							a := addrs[k]
							bits := 0
							if a.NoCheck() {
								bits |= 1
							}
							if a.IsNoGas() {
								bits |= 2
							}
							if a.IsSystemContract() {
								bits |= 4
							}
							if a.IsReserved() {
								bits |= 8
							}
							if bits&^seen[g-4][k] != 0 || seen[g-4][k]&^bits == 0 {
								seen[g-4][k] = bits
							} else {
								c.Violate("reserved-forgotten", "address %d went from %b to %b", k, seen[g-4][k], bits)
							}
						}
					}
				})
			})
			for k, a := range addrs {
				w := [][4]bool{{true, false, false, false}, {true, true, false, false}, {true, true, true, false}, {true, false, false, true}}[k%4]
				got := [4]bool{a.IsReserved(), a.IsSystemContract(), a.IsNoGas(), a.NoCheck()}
				c.Check(got == w, "reserved-final", "address %d of kind %d: %v want %v", k, k%4, got, w)
			}
			var other common.Address
			r.Read(other[:])
			c.Check(!other.IsReserved() && !other.NoCheck() && !other.IsNoGas() && !other.IsSystemContract(), "reserved-spurious", "%x", other)
			c.Case(true, fmt.Sprintf("reserved %d", i))
		}
	})
	c.Section("hashing", func(_ *rand.Rand) {
		for i := 0; i < c.N2(20, 100); i++ {
			r := c.Rand(fmt.Sprintf("hashing/%d", i))
			pool := dedupIDs(nodePool(r, 5))
			ci := randChain(r, pool)
			in := make([]byte, 300)
			r.Read(in)
			wc, _ := ci.HashValue()
			wh := common.Hash256(in)
			we := common.EncodeHash(ci)
			h := common.Height(r.Uint64())
			whh := h.Hash()
			mon.Parallel(6, func(g int) {
				for k := 0; k < 20; k++ {
					gc, err := ci.HashValue()
					if err != nil || !bytes.Equal(gc, wc) || common.Hash256(in) != wh || common.EncodeHash(ci) != we || h.Hash() != whh || fmtChain(ci.Clone()) == "" {
						c.Violate("hash-concurrent", "hash of an unchanging object differs between goroutines")
						return
					}
				}
			})
			c.Case(true, fmt.Sprintf("hashing %d", i))
		}
	})
}

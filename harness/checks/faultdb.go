package checks

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/ThinkiumGroup/go-common/db"
)

var errInjected = errors.New("injected storage fault")

// faultDB is a map-backed db.Database whose writes and reads can be made to fail or stall at a
// chosen position. It never loses an acknowledged write, so whatever is wrong is the caller's fault.
type faultDB struct {
	mu         sync.Mutex
	m          map[string][]byte
	puts, gets int64
	failPut    int64 // fail the n-th put from now (1-based); 0 = never
	failPutTo  int64 // last failing put (0 = only one)
	failGet    int64
	failGetTo  int64
	cutGet     bool // the failing reads of node records deliver a part of the record instead of an error
	yield      bool
}

func newFaultDB() *faultDB { return &faultDB{m: map[string][]byte{}} }

func (f *faultDB) arm(putAt, putTo int64) {
	f.mu.Lock()
	f.puts, f.failPut, f.failPutTo = 0, putAt, putTo
	f.mu.Unlock()
}
func (f *faultDB) armGet(at, to int64) {
	f.mu.Lock()
	f.gets, f.failGet, f.failGetTo = 0, at, to
	f.mu.Unlock()
}
func (f *faultDB) disarm() { f.arm(0, 0); f.armGet(0, 0) }

func (f *faultDB) Put(k, v []byte) error {
	if f.yield {
		runtime.Gosched()
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.puts++
	if f.failPut > 0 && (f.puts == f.failPut || (f.puts > f.failPut && f.puts <= f.failPutTo)) {
		return errInjected
	}
	if k == nil || v == nil {
		return errors.New("nil key or value")
	}
	f.m[string(k)] = append([]byte{}, v...)
	return nil
}
func (f *faultDB) Has(k []byte) (bool, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	_, ok := f.m[string(k)]
	return ok, nil
}
func (f *faultDB) Get(k []byte) ([]byte, error) {
	if f.yield {
		runtime.Gosched()
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.gets++
	v, ok := f.m[string(k)]
	if f.failGet > 0 && (f.gets == f.failGet || (f.gets > f.failGet && f.gets <= f.failGetTo)) {
		if f.cutGet && ok && len(k) > 0 && (k[0] == 'n' || k[0] == 'h') && len(v) > 1 {
			return append([]byte{}, v[:1+(len(v)-1)*int(f.gets*7%10)/10]...), nil
		}
		return nil, errInjected
	}
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}
func (f *faultDB) Delete(k []byte) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.puts++
	if f.failPut > 0 && (f.puts == f.failPut || (f.puts > f.failPut && f.puts <= f.failPutTo)) {
		return errInjected
	}
	delete(f.m, string(k))
	return nil
}

type fbatch struct{ ops []fop }
type fop struct {
	del  bool
	k, v []byte
}

func (b *fbatch) Put(k, v []byte) error {
	b.ops = append(b.ops, fop{k: append([]byte{}, k...), v: append([]byte{}, v...)})
	return nil
}
func (b *fbatch) Delete(k []byte) error {
	b.ops = append(b.ops, fop{del: true, k: append([]byte{}, k...)})
	return nil
}
func (b *fbatch) Size() int { return len(b.ops) }

func (f *faultDB) NewBatch() db.Batch { return &fbatch{} }
func (f *faultDB) Batch(b db.Batch) error {
	fb, ok := b.(*fbatch)
	if !ok {
		return fmt.Errorf("foreign batch %T", b)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.puts++
	if f.failPut > 0 && (f.puts == f.failPut || (f.puts > f.failPut && f.puts <= f.failPutTo)) {
		return errInjected
	}
	for _, o := range fb.ops {
		if o.del {
			delete(f.m, string(o.k))
		} else {
			f.m[string(o.k)] = o.v
		}
	}
	return nil
}
func (f *faultDB) Close() error { return nil }

func (f *faultDB) snapshot() map[string]string {
	f.mu.Lock()
	defer f.mu.Unlock()
	r := make(map[string]string, len(f.m))
	for k, v := range f.m {
		r[k] = string(v)
	}
	return r
}
func (f *faultDB) putCount() int64 {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.puts
}

// yieldDB wraps a Database and yields around every call (schedule perturbation).
type yieldDB struct {
	db.Database
	n int64
}

func (y *yieldDB) y() {
	if atomic.AddInt64(&y.n, 1)%3 != 0 {
		runtime.Gosched()
	}
}
func (y *yieldDB) Put(k, v []byte) error        { y.y(); e := y.Database.Put(k, v); y.y(); return e }
func (y *yieldDB) Get(k []byte) ([]byte, error) { y.y(); v, e := y.Database.Get(k); y.y(); return v, e }
func (y *yieldDB) Delete(k []byte) error        { y.y(); return y.Database.Delete(k) }

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func cloneMap(m map[string]string) map[string]string {
	r := make(map[string]string, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

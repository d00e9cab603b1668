package checks

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"

	"verif/harness/mon"
)

// TV is a struct value with its own key (for PutValue).
type TV struct {
	K []byte
	S string
	N uint64
}

func (v *TV) Key() []byte { return v.K }

// flavor is one way of building a trie: how values are made, encoded, hashed and read back.
type flavor struct {
	name string
	open func(root []byte, na, va db.DataAdapter) *trie.Trie
	mk   func(key []byte, id string) interface{}
	id   func(v interface{}) string
	vh   func(key []byte, id string) common.Hash // hash the trie must use for that value
}

func mustHash(h []byte, err error) common.Hash {
	if err != nil {
		panic(err)
	}
	return common.BytesToHash(h)
}

var flavStruct = &flavor{
	name: "struct",
	open: func(root []byte, na, va db.DataAdapter) *trie.Trie {
		return trie.NewTrieWithValueType(root, na, va, reflect.TypeOf((*TV)(nil)))
	},
	mk: func(key []byte, id string) interface{} {
		return &TV{K: mon.Clone(key), S: id, N: uint64(len(id)) * 7}
	},
	id: func(v interface{}) string {
		t, ok := v.(*TV)
		if !ok || t == nil {
			return fmt.Sprintf("BAD(%T)", v)
		}
		if t.N != uint64(len(t.S))*7 {
			return "BADN"
		}
		return t.S
	},
	vh: func(key []byte, id string) common.Hash {
		return mustHash(common.HashObject(&TV{K: mon.Clone(key), S: id, N: uint64(len(id)) * 7}))
	},
}

var flavRaw = &flavor{
	name: "raw",
	open: func(root []byte, na, va db.DataAdapter) *trie.Trie {
		return trie.NewTrieWithValueFuncs(root, na, va,
			func(o interface{}, w io.Writer) error { _, err := w.Write(o.([]byte)); return err },
			func(r io.Reader) (interface{}, error) { b, err := io.ReadAll(r); return b, err },
			func(v interface{}, vb []byte) ([]byte, error) { h := common.Hash256(vb); return h[:], nil })
	},
	mk: func(key []byte, id string) interface{} { return []byte(id) },
	id: func(v interface{}) string {
		b, ok := v.([]byte)
		if !ok {
			return fmt.Sprintf("BAD(%T)", v)
		}
		return string(b)
	},
	vh: func(key []byte, id string) common.Hash { return common.Hash256([]byte(id)) },
}

// HV is a value that brings its own hash and is written by functions of the user's.
type HV struct{ S string }

func (v *HV) HashValue() ([]byte, error) { h := common.Hash256([]byte("hv:" + v.S)); return h[:], nil }

// flavCodec: user's coders, the hash is the value's own.
var flavCodec = &flavor{
	name: "codec",
	open: func(root []byte, na, va db.DataAdapter) *trie.Trie {
		e, d, _ := funcsOf("codec")
		return trie.NewTrieWithValueCodec(root, na, va, e, d)
	},
	mk: func(key []byte, id string) interface{} { return &HV{id} },
	id: func(v interface{}) string {
		t, ok := v.(*HV)
		if !ok || t == nil {
			return fmt.Sprintf("BAD(%T)", v)
		}
		return t.S
	},
	vh: func(key []byte, id string) common.Hash { return mustHash((&HV{id}).HashValue()) },
}

// flavFull: a value type together with a hasher of the user's over value and bytes.
var flavFull = &flavor{
	name: "full",
	open: func(root []byte, na, va db.DataAdapter) *trie.Trie {
		_, _, h := funcsOf("full")
		return trie.NewTrie(root, na, va, reflect.TypeOf((*TV)(nil)), h)
	},
	mk: flavStruct.mk,
	id: flavStruct.id,
	vh: func(key []byte, id string) common.Hash { return tvHash(flavStruct.mk(key, id).(*TV)) },
}

// flavHash: values are hashes, kept in the nodes themselves (the hash of a value is the value).
var flavHash = &flavor{
	name: "hash",
	open: func(root []byte, na, va db.DataAdapter) *trie.Trie {
		e, d, h := funcsOf("hash")
		return trie.NewTrieWithValueFuncs(root, na, db.NewTransparentDataAdapter(), e, d, h)
	},
	mk: func(key []byte, id string) interface{} { h := idHash(id); return h[:] },
	id: func(v interface{}) string {
		b, ok := v.([]byte)
		if !ok || len(b) != common.HashLength {
			return fmt.Sprintf("BAD(%T)", v)
		}
		id, ok := hashIDs.Load(common.BytesToHash(b))
		if !ok {
			return fmt.Sprintf("BAD(%x)", b)
		}
		return id.(string)
	},
	vh: func(key []byte, id string) common.Hash { return idHash(id) },
}

var hashIDs sync.Map

// idHash is the value of the flavor "hash" standing for id.
func idHash(id string) common.Hash {
	h := common.Hash256([]byte("id:" + id))
	hashIDs.LoadOrStore(h, id)
	return h
}

func tvHash(v *TV) common.Hash {
	return common.Hash256([]byte(fmt.Sprintf("%x/%s/%d", v.K, v.S, v.N)))
}

var flavors = []*flavor{flavStruct, flavRaw}

func pickFlavor(r *rand.Rand) *flavor {
	switch r.Intn(9) {
	case 0:
		return flavCodec
	case 1:
		return flavFull
	case 2:
		return flavHash
	}
	return flavors[r.Intn(2)]
}

func adapters(d db.Database) (na, va db.DataAdapter) {
	return db.NewKeyPrefixedDataAdapter(d, []byte("n")), db.NewKeyPrefixedDataAdapter(d, []byte("v"))
}

// keyspace draws keys of one style from a finite pool (so that keys collide, share prefixes and nest).
type keyspace struct {
	name string
	pool [][]byte
}

func newKeyspace(r *rand.Rand) *keyspace {
	ks := &keyspace{}
	add := func(b []byte) { ks.pool = append(ks.pool, b) }
	switch r.Intn(7) {
	case 0: // nested short keys over a tiny alphabet, empty key included
		ks.name = "nested"
		al := [][]byte{{0x00}, {0x01}, {0x10}, {0x11}, {0xff}}[:2+r.Intn(4)]
		level := [][]byte{{}}
		for d := 0; d < 4; d++ {
			var next [][]byte
			for _, p := range level {
				if d == 0 || r.Intn(3) > 0 || len(ks.pool) < 10 {
					add(p)
				}
				for _, a := range al {
					next = append(next, append(mon.Clone(p), a...))
				}
			}
			level = next
			if len(level) > 60 {
				r.Shuffle(len(level), func(i, j int) { level[i], level[j] = level[j], level[i] })
				level = level[:60]
			}
		}
	case 1: // all two byte keys around a few first bytes
		ks.name = "dense2"
		f := []byte{byte(r.Intn(256)), byte(r.Intn(256))}
		n := 8 + r.Intn(60)
		for i := 0; i < n; i++ {
			add([]byte{f[r.Intn(2)], byte(r.Intn(256))})
		}
	case 2: // fixed 32 byte random
		ks.name = "rand32"
		n := 4 + r.Intn(60)
		for i := 0; i < n; i++ {
			b := make([]byte, 32)
			r.Read(b)
			add(b)
		}
	case 3: // 20 byte keys sharing long prefixes
		ks.name = "shared20"
		base := make([]byte, 20)
		r.Read(base)
		n := 4 + r.Intn(40)
		for i := 0; i < n; i++ {
			b := mon.Clone(base)
			p := r.Intn(20)
			for j := p; j < 20; j++ {
				if r.Intn(3) == 0 {
					b[j] ^= byte(1 << uint(r.Intn(8)))
				}
			}
			add(b)
		}
	case 4: // chains: every prefix of a few long keys
		ks.name = "chains"
		for c := 0; c < 1+r.Intn(3); c++ {
			b := make([]byte, 3+r.Intn(10))
			for i := range b {
				b[i] = []byte{0x00, 0x0f, 0xf0, 0x55, byte(r.Intn(256))}[r.Intn(5)]
			}
			for l := 0; l <= len(b); l++ {
				add(mon.Clone(b[:l]))
				if l < len(b) && r.Intn(2) == 0 {
					x := mon.Clone(b[:l+1])
					x[l] ^= []byte{0x01, 0x10, 0xff}[r.Intn(3)]
					add(x)
				}
			}
		}
	case 5: // long keys: forks and ends around the lengths whose encodings change size
		ks.name = "long"
		base := make([]byte, 300+r.Intn(300))
		r.Read(base)
		edges := []int{0, 1, 27, 31, 32, 63, 64, 65, 122, 127, 128, 129, 130, 255, 256, 257, 299}
		for i, n := 0, 6+r.Intn(30); i < n; i++ {
			at := edges[r.Intn(len(edges))]
			b := mon.Clone(base)
			switch r.Intn(3) {
			case 0:
				b = b[:at]
			case 1:
				b[at] ^= []byte{0x01, 0x10, 0xff}[r.Intn(3)]
				b = b[:at+1+r.Intn(len(b)-at)]
			default:
				b[at] ^= []byte{0x01, 0x10, 0xff}[r.Intn(3)]
			}
			add(b)
		}
		add(base)
	default: // single nibble differences, one byte keys
		ks.name = "bytes1"
		n := 2 + r.Intn(40)
		for i := 0; i < n; i++ {
			add([]byte{byte(r.Intn(256))})
		}
		if r.Intn(2) == 0 {
			add([]byte{})
		}
	}
	// dedupe
	seen := map[string]bool{}
	var out [][]byte
	for _, k := range ks.pool {
		if !seen[string(k)] {
			seen[string(k)] = true
			out = append(out, k)
		}
	}
	ks.pool = out
	return ks
}

func (k *keyspace) pick(r *rand.Rand) []byte { return mon.Clone(k.pool[r.Intn(len(k.pool))]) }

// near returns a key related to a pool key but often not in it.
func (k *keyspace) near(r *rand.Rand) []byte {
	b := k.pick(r)
	switch r.Intn(5) {
	case 0:
		return append(b, byte(r.Intn(256)))
	case 1:
		if len(b) > 0 {
			return b[:r.Intn(len(b))]
		}
	case 2:
		if len(b) > 0 {
			b[len(b)-1] ^= byte(1 << uint(r.Intn(8)))
		}
	case 3:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
		}
	}
	return b
}

var idPad = strings.Repeat("p", 5000)
var hugePad = strings.Repeat("h", 67000)

func newID(r *rand.Rand, n *int) string {
	*n++
	switch r.Intn(24) {
	case 3:
		if r.Intn(40) == 0 {
			return fmt.Sprintf("v%d-%s", *n, hugePad[:65000+r.Intn(2000)]) // beyond two length bytes
		}
	case 0:
		return fmt.Sprintf("v%d", r.Intn(3)) // equal values on different keys
	case 1:
		return fmt.Sprintf("v%d-%s", *n, idPad[:4000+r.Intn(300)]) // around the value-collapse threshold
	case 2:
		return fmt.Sprintf("v%d-%s", *n, idPad[:r.Intn(200)])
	}
	return fmt.Sprintf("v%d", *n)
}

// tsim drives one trie together with its model.
type tsim struct {
	c       *mon.Ctx
	f       *flavor
	ks      *keyspace
	d       db.Database
	na, va  db.DataAdapter
	t       *trie.Trie
	m       map[string]string
	counted bool // Count is meaningful (built from empty in this instance)
	n       int
	log     []string
	saw     map[string]bool
}

func newTsim(c *mon.Ctx, r *rand.Rand, f *flavor, d db.Database) *tsim {
	s := &tsim{c: c, f: f, ks: newKeyspace(r), d: d, m: map[string]string{}, counted: true, saw: map[string]bool{}}
	s.na, s.va = adapters(d)
	s.t = f.open(nil, s.na, s.va)
	return s
}

func (s *tsim) rec(format string, a ...interface{}) {
	if len(s.log) < 600 {
		s.log = append(s.log, fmt.Sprintf(format, a...))
	}
}

func (s *tsim) hist() string {
	l := s.log
	if len(l) > 120 {
		l = append([]string{"…"}, l[len(l)-120:]...)
	}
	return s.f.name + "/" + s.ks.name + ": " + strings.Join(l, " ")
}

func short(id string) string {
	if len(id) > 12 {
		return fmt.Sprintf("%s~%d", id[:8], len(id))
	}
	return id
}

func (s *tsim) put(r *rand.Rand, k []byte) {
	id := newID(r, &s.n)
	v := s.f.mk(k, id)
	var ok bool
	if tv, is := v.(*TV); is && r.Intn(3) == 0 {
		s.rec("PutValue(%x,%s)", k, short(id))
		ok = s.t.PutValue(tv)
	} else {
		s.rec("Put(%x,%s)", k, short(id))
		kk := mon.Clone(k)
		ok = s.t.Put(kk, v)
		for i := range kk { // the caller's key buffer is the caller's
			kk[i] ^= 0xa5
		}
	}
	if !ok {
		s.c.Violate("put-rejected", "Put(%x) of a new value returned false after %s", k, s.hist())
	}
	s.m[string(k)] = id
}

func (s *tsim) get(k []byte) {
	v, ok := s.t.Get(k)
	want, has := s.m[string(k)]
	if ok != has {
		s.c.Violate("get-presence", "Get(%x) found=%v, model %v, after %s", k, ok, has, s.hist())
		return
	}
	if ok && s.f.id(v) != want {
		s.c.Violate("get-value", "Get(%x)=%s, model %s, after %s", k, short(s.f.id(v)), short(want), s.hist())
	}
	if !ok && v != nil {
		s.c.Violate("get-absent-value", "Get(%x) not found but returned %v, after %s", k, v, s.hist())
	}
}

func (s *tsim) del(k []byte) {
	s.rec("Delete(%x)", k)
	kk := mon.Clone(k)
	ch, old := s.t.Delete(kk)
	want, has := s.m[string(k)]
	if ch != has {
		s.c.Violate("delete-presence", "Delete(%x) changed=%v, model had=%v, after %s", k, ch, has, s.hist())
	}
	if has && (old == nil || s.f.id(old) != want) {
		s.c.Violate("delete-old", "Delete(%x) old=%v, model %s, after %s", k, old, short(want), s.hist())
	}
	if !has && old != nil {
		s.c.Violate("delete-old-absent", "Delete(%x) of an absent key returned old=%v, after %s", k, old, s.hist())
	}
	delete(s.m, string(k))
}

func (s *tsim) commit() []byte {
	s.rec("Commit")
	if err := s.t.Commit(); err != nil {
		s.c.Violate("commit-error", "Commit: %v after %s", err, s.hist())
	}
	h, err := s.t.HashValue()
	if err != nil {
		s.c.Violate("hash-error", "HashValue: %v after %s", err, s.hist())
	}
	if s.t.IsDirty() {
		s.c.Violate("dirty-after-commit", "IsDirty after Commit, %s", s.hist())
	}
	return mon.Clone(h)
}

// ruin overwrites a buffer the caller owns, after a call that had no business keeping it.
func ruin(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

func (s *tsim) reopen(inherit bool) {
	h := s.commit()
	if inherit {
		s.rec("Inherit")
		s.t = s.t.Inherit(h)
		ruin(h) // Inherit copies the root it is given
	} else {
		s.rec("Reopen")
		s.t = s.f.open(h, s.na, s.va)
	}
	s.counted = len(s.m) == 0
}

// content reads everything through the iterator.
func trieContent(f *flavor, t *trie.Trie) (map[string]string, []string, error) {
	m := map[string]string{}
	var order []string
	it := t.ValueIterator()
	for it.Next() {
		k, v := it.Current()
		if _, dup := m[string(k)]; dup {
			return m, order, fmt.Errorf("key %x visited twice", k)
		}
		m[string(k)] = f.id(v)
		order = append(order, string(k))
		if len(order) > 1000000 {
			return m, order, fmt.Errorf("iteration does not end")
		}
	}
	return m, order, nil
}

func diffMaps(got, want map[string]string) string {
	var out []string
	for _, k := range sortedKeys(want) {
		if g, ok := got[k]; !ok {
			out = append(out, fmt.Sprintf("missing %x", k))
		} else if g != want[k] {
			out = append(out, fmt.Sprintf("%x=%s want %s", k, short(g), short(want[k])))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			out = append(out, fmt.Sprintf("extra %x=%s", k, short(got[k])))
		}
	}
	if len(out) > 10 {
		out = append(out[:10], "…")
	}
	return strings.Join(out, "; ")
}

func (s *tsim) checkAll() {
	m, _, err := trieContent(s.f, s.t)
	if err != nil {
		s.c.Violate("iter-dup", "%v after %s", err, s.hist())
	}
	if !sameMap(m, s.m) {
		s.c.Violate("iter-content", "iteration differs from the model: %s; after %s", diffMaps(m, s.m), s.hist())
	}
	for _, k := range s.ks.pool {
		s.get(k)
	}
	s.checkCount()
}

func (s *tsim) checkCount() {
	if s.counted {
		if n := s.t.Count(); n != len(s.m) {
			s.c.Violate("count", "Count=%d, model %d, after %s", n, len(s.m), s.hist())
		}
	}
	if s.t.IsEmpty() != (len(s.m) == 0) {
		s.c.Violate("isempty", "IsEmpty=%v with %d entries, after %s", s.t.IsEmpty(), len(s.m), s.hist())
	}
}

// build makes a fresh trie with exactly this content, inserted in the order given by r.
func (f *flavor) build(r *rand.Rand, d db.Database, m map[string]string) *trie.Trie {
	na, va := adapters(d)
	t := f.open(nil, na, va)
	ks := sortedKeys(m)
	if r != nil {
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	for _, k := range ks {
		t.Put([]byte(k), f.mk([]byte(k), m[k]))
	}
	return t
}

func rootOf(t *trie.Trie) []byte {
	h, err := t.HashValue()
	if err != nil {
		return []byte("error:" + err.Error())
	}
	return mon.Clone(h)
}

// randContent draws a content map from a keyspace.
func randContent(r *rand.Rand, f *flavor, ks *keyspace, max int) map[string]string {
	m := map[string]string{}
	n := 0
	cnt := 1 + r.Intn(max)
	for i := 0; i < cnt; i++ {
		m[string(ks.pick(r))] = newID(r, &n)
	}
	return m
}

// shapeOf classifies a key set by what makes it hard.
func shapeOf(m map[string]string) (nested, empty bool) {
	ks := sortedKeys(m)
	for i, k := range ks {
		if k == "" {
			empty = true
		}
		if i > 0 && strings.HasPrefix(k, ks[i-1]) {
			nested = true
		}
	}
	return
}

func opsKey(s *tsim) string { return s.hist() }

var _ = bytes.Equal
var _ = sort.Strings

func flavFuncs(f *flavor) (trie.NodeValueEncode, trie.NodeValueDecode, trie.NodeValueHasher) {
	return funcsOf(f.name)
}

func funcsOf(name string) (trie.NodeValueEncode, trie.NodeValueDecode, trie.NodeValueHasher) {
	if name == "raw" {
		return func(o interface{}, w io.Writer) error { _, err := w.Write(o.([]byte)); return err },
			func(r io.Reader) (interface{}, error) { b, err := io.ReadAll(r); return b, err },
			func(v interface{}, vb []byte) ([]byte, error) { h := common.Hash256(vb); return h[:], nil }
	}
	if name == "codec" {
		return func(o interface{}, w io.Writer) error { _, err := io.WriteString(w, o.(*HV).S+"."); return err },
			func(r io.Reader) (interface{}, error) {
				b, err := io.ReadAll(r)
				if err != nil {
					return nil, err
				}
				if len(b) == 0 {
					return nil, io.ErrUnexpectedEOF
				}
				return &HV{string(b[:len(b)-1])}, nil
			}, nil
	}
	if name == "hash" {
		return func(o interface{}, w io.Writer) error { _, err := w.Write(o.([]byte)); return err },
			func(r io.Reader) (interface{}, error) {
				h := make([]byte, common.HashLength)
				_, err := io.ReadFull(r, h)
				return h, err
			},
			func(v interface{}, vb []byte) ([]byte, error) {
				if len(vb) != common.HashLength {
					return nil, common.ErrLength
				}
				return vb, nil
			}
	}
	codec, err := rtl.NewStructCodec(reflect.TypeOf((*TV)(nil)))
	if err != nil {
		panic(err)
	}
	if name == "full" {
		return codec.Encode, codec.Decode, func(v interface{}, vb []byte) ([]byte, error) {
			t, ok := v.(*TV)
			if !ok || t == nil {
				return nil, fmt.Errorf("hash of %T", v)
			}
			h := tvHash(t)
			return h[:], nil
		}
	}
	return codec.Encode, codec.Decode, nil
}

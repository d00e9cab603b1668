package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "T17",
		Rule:  "tries over colliding key pools in every residency state, exported and imported through chunked, truncated and failing streams; non-trivial when the trie holds at least three entries",
		Floor: map[string]int64{"imports": 1000, "maps": 1000, "truncated": 2000, "reader_faults": 500, "writer_faults": 500, "batch_puts": 5000, "batch_refused": 100}, Run: runT17})
	mon.Register(&mon.Check{ID: "T18",
		Rule:  "modelled blocks (up to 80 fields) and packed header lists at boundary and random chain ids and heights; every proof judged at its own and at near-miss positions; non-trivial when the block has more than two fields",
		Floor: map[string]int64{"header_proofs": 5000, "summary_proofs": 2000, "positions": 50000, "pipelines": 300, "history": 2000, "types": 250}, Run: runT18})
}

// failWriter takes n bytes and then fails.
type failWriter struct {
	n   int
	buf []byte
}

var errBroken = errors.New("broken stream")

func (f *failWriter) Write(p []byte) (int, error) {
	if len(f.buf)+len(p) > f.n {
		k := f.n - len(f.buf)
		f.buf = append(f.buf, p[:k]...)
		return k, errBroken
	}
	f.buf = append(f.buf, p...)
	return len(p), nil
}

// failReader delivers its data in pieces and then fails with an error of its own.
type failReader struct{ in *chunkReader }

func (f *failReader) Read(p []byte) (int, error) {
	n, err := f.in.Read(p)
	if err == io.EOF {
		err = errBroken
	}
	return n, err
}

func runT17(c *mon.Ctx) {
	typ := reflect.TypeOf((*TV)(nil))
	keyOf := func(o interface{}) []byte {
		t, _ := o.(*TV)
		if t == nil {
			return nil
		}
		return append([]byte{}, t.K...)
	}
	c.Section("export", func(_ *rand.Rand) {
		c.Cases("x", c.N2(1200, 20000), func(i int, r *rand.Rand) {
			f := flavStruct
			s := newTsim(c, r, f, db.NewMemDB())
			fill(s, r, 30)
			st := residency(s, r)
			root := rootOf(s.t)
			keys := sortedKeys(s.m)
			c.Case(len(keys) >= 3, s.hist())

			// values only
			var buf bytes.Buffer
			if err := s.t.Marshal(&buf); err != nil {
				c.Violate("marshal", "Marshal (%s): %v; %s", st, err, s.hist())
				return
			}
			b := mon.Clone(buf.Bytes())
			var want bytes.Buffer
			var ends []int
			for _, k := range keys {
				if err := rtl.Encode(f.mk([]byte(k), s.m[k]), &want); err != nil {
					panic(err)
				}
				ends = append(ends, want.Len())
			}
			if !bytes.Equal(b, want.Bytes()) {
				c.Violate("marshal-bytes", "Marshal (%s) wrote %d bytes, the values in key order are %d bytes; %s", st, len(b), want.Len(), s.hist())
				return
			}
			s.checkAll()
			if !bytes.Equal(rootOf(s.t), root) {
				c.Violate("marshal-root", "Marshal changed the root; %s", s.hist())
			}

			// a maker trie over a store of its own, holding something else
			md := db.NewMemDB()
			mna, mva := adapters(md)
			maker := f.open(nil, mna, mva)
			other := map[string]string{}
			for n := r.Intn(4); n > 0; n-- {
				k := s.ks.near(r)
				id := newID(r, &s.n)
				maker.Put(mon.Clone(k), f.mk(k, id))
				other[string(k)] = id
			}
			imp := func(rd io.Reader) (*trie.Trie, error) { return maker.UnmarshalNewTrie(rd, typ, keyOf) }
			var rd io.Reader = &chunkReader{b: mon.Clone(b), r: r, m: []int{1, 2, 7, 100, 100000}[r.Intn(5)]}
			if r.Intn(3) == 0 {
				rd = rtl.NewValueReader(rd, 0)
			}
			t2, err := imp(rd)
			if err != nil || t2 == nil {
				c.Violate("import", "UnmarshalNewTrie: %v; %s", err, s.hist())
				return
			}
			m2, _, err := trieContent(f, t2)
			if err != nil || !sameMap(m2, s.m) {
				c.Violate("import-content", "imported trie differs: %v %s; %s", err, diffMaps(m2, s.m), s.hist())
			}
			if h := rootOf(t2); !bytes.Equal(h, root) {
				c.Violate("import-root", "imported trie has root %x, exported %x; %s", h, root, s.hist())
			}
			if n := t2.Count(); n != len(s.m) {
				c.Violate("import-count", "imported trie counts %d of %d; %s", n, len(s.m), s.hist())
			}
			if err := t2.Commit(); err != nil {
				c.Violate("import-commit", "%v", err)
			} else if m3, _, err := trieContent(f, f.open(root, mna, mva)); err != nil || !sameMap(m3, s.m) {
				c.Violate("import-stored", "imported and committed trie reopened at the root differs: %v %s; %s", err, diffMaps(m3, s.m), s.hist())
			}
			if mo, _, err := trieContent(f, maker); err != nil || !sameMap(mo, other) {
				c.Violate("import-maker", "importing changed the trie it was called on: %v %s; %s", err, diffMaps(mo, other), s.hist())
			}
			c.Count("imports", 1)

			// a key function that leaves values out
			if len(keys) > 0 {
				skip := keys[r.Intn(len(keys))]
				t3, err := maker.UnmarshalNewTrie(bytes.NewReader(b), typ, func(o interface{}) []byte {
					if k := keyOf(o); string(k) != skip {
						return k
					}
					return nil
				})
				if err != nil {
					c.Violate("import-skip", "%v", err)
				} else {
					wantm := cloneMap(s.m)
					delete(wantm, skip)
					if m3, _, _ := trieContent(f, t3); !sameMap(m3, wantm) {
						c.Violate("import-skip", "importing without %x: %s; %s", skip, diffMaps(m3, wantm), s.hist())
					}
				}
			}

			// broken off streams
			for n := 0; n < 3 && len(b) > 0; n++ {
				cut := r.Intn(len(b))
				at := -1 // whole values before the cut, when the cut is at a border
				if cut == 0 {
					at = 0
				}
				for j, e := range ends {
					if e == cut {
						at = j + 1
					}
				}
				t3, err := imp(&chunkReader{b: mon.Clone(b[:cut]), r: r, m: 1 + r.Intn(50)})
				c.Count("truncated", 1)
				if at < 0 && err == nil {
					m3, _, _ := trieContent(f, t3)
					c.Violate("import-truncated", "a stream that ends inside a value (%d of %d bytes, borders %v) was imported without an error: %d of %d entries; %s", cut, len(b), ends, len(m3), len(s.m), s.hist())
				}
				if at >= 0 {
					if err != nil {
						c.Violate("import-prefix", "a stream of the first %d values: %v; %s", at, err, s.hist())
					} else if m3, _, _ := trieContent(f, t3); len(m3) != at {
						c.Violate("import-prefix", "a stream of the first %d values gives %d; %s", at, len(m3), s.hist())
					}
				}
				cut = r.Intn(len(b) + 1)
				_, err = imp(&failReader{&chunkReader{b: mon.Clone(b[:cut]), r: r, m: 1 + r.Intn(50)}})
				c.Count("reader_faults", 1)
				if err == nil {
					c.Violate("import-reader", "the reader failed after %d of %d bytes and the import reports success; %s", cut, len(b), s.hist())
				}
				fw := &failWriter{n: r.Intn(len(b))}
				if err := s.t.Marshal(fw); err == nil || !errors.Is(err, errBroken) {
					c.Violate("export-writer", "the writer failed after %d of %d bytes and Marshal returns %v; %s", fw.n, len(b), err, s.hist())
				} else if !bytes.Equal(fw.buf, b[:len(fw.buf)]) {
					c.Violate("export-writer", "bytes before the failure are not a prefix of the export; %s", s.hist())
				}
				c.Count("writer_faults", 1)
			}
			s.checkAll()
		})
	})
	c.Section("as-map", func(_ *rand.Rand) {
		c.Cases("m", c.N2(1500, 20000), func(i int, r *rand.Rand) {
			f := flavors[r.Intn(2)]
			s := newTsim(c, r, f, db.NewMemDB())
			fill(s, r, 25)
			residency(s, r)
			var it trie.ITrie = s.t
			want := s.m
			kind := "trie"
			if r.Intn(2) == 0 {
				rt := &trie.RevertableTrie{Origin: s.t}
				if r.Intn(2) == 0 { // uncommitted changes are not exported
					k := s.ks.pick(r)
					rt.Put(mon.Clone(k), f.mk(k, newID(r, &s.n)))
				}
				it, kind = rt, "revertable"
			}
			var buf bytes.Buffer
			if err := trie.MarshalAsMap(it, &buf); err != nil {
				c.Violate("asmap", "MarshalAsMap(%s): %v; %s", kind, err, s.hist())
				return
			}
			c.Case(len(want) >= 3, s.hist())
			rd := rtl.NewValueReader(&chunkReader{b: mon.Clone(buf.Bytes()), r: r, m: 1 + r.Intn(60)}, 0)
			got := map[string]string{}
			var order []string
			for rd.HasMore() {
				var k []byte
				if err := rtl.Decode(rd, &k); err == io.EOF { // HasMore only knows once the end was hit
					break
				} else if err != nil {
					c.Violate("asmap-read", "key %d of the exported map (%s): %v; %s", len(order), kind, err, s.hist())
					return
				}
				var v interface{}
				if f == flavStruct {
					t := new(TV)
					if err := rtl.Decode(rd, &t); err != nil {
						c.Violate("asmap-read", "value of %x (%s): %v; %s", k, kind, err, s.hist())
						return
					}
					v = t
				} else {
					var t []byte
					if err := rtl.Decode(rd, &t); err != nil {
						c.Violate("asmap-read", "value of %x (%s): %v; %s", k, kind, err, s.hist())
						return
					}
					v = t
				}
				got[string(k)] = f.id(v)
				order = append(order, string(k))
			}
			if !sameMap(got, want) || len(order) != len(want) {
				c.Violate("asmap-content", "exported map of a %s differs (%d pairs of %d): %s; %s", kind, len(order), len(want), diffMaps(got, want), s.hist())
			} else if !sameStrings(order, sortedKeys(want)) {
				c.Violate("asmap-order", "exported map of a %s is not in key order; %s", kind, s.hist())
			}
			if buf.Len() > 0 && f == flavStruct { // go-rtl itself drops the error of writing the bytes of a byte string
				fw := &failWriter{n: r.Intn(buf.Len())}
				if err := trie.MarshalAsMap(it, fw); err == nil || !errors.Is(err, errBroken) {
					c.Violate("asmap-writer", "the writer failed after %d of %d bytes and MarshalAsMap returns %v; %s", fw.n, buf.Len(), err, s.hist())
				}
			}
			c.Count("maps", 1)
		})
	})
	c.Section("batch-putter", func(_ *rand.Rand) {
		c.Cases("b", c.N2(400, 6000), func(i int, r *rand.Rand) {
			f := flavors[r.Intn(2)]
			fd := newFaultDB()
			s := &tsim{c: c, f: f, ks: newKeyspace(r), d: fd, m: map[string]string{}, saw: map[string]bool{}}
			s.na, s.va = adapters(fd)
			s.t = f.open(nil, s.na, s.va)
			mod := 1 + r.Intn(6)
			p := trie.NewBatchPutter(s.t, mod)
			n, last := 0, map[string]string{}
			for q := 0; q < 30; q++ {
				k := s.ks.pick(r)
				id := newID(r, &s.n)
				fault := r.Intn(12) == 0
				if fault {
					at := int64(1 + r.Intn(4))
					fd.arm(at, at)
				}
				blind := !fault && r.Intn(8) == 0
				if blind {
					at := int64(1 + r.Intn(2))
					fd.armGet(at, at+int64(r.Intn(8)))
				}
				ok, err := p.Put(mon.Clone(k), f.mk(k, id))
				hit := fault && fd.puts >= fd.failPut
				blind = blind && fd.gets >= fd.failGet
				fd.disarm()
				if !ok && blind {
					c.Count("batch_refused", 1)
					s.rec("BPut(%x) refused", k)
					if p.Count() != n {
						c.Violate("batch-count", "Count=%d after %d puts; %s", p.Count(), n, s.hist())
					}
					continue
				}
				if !ok {
					c.Violate("batch-put", "Put(%x) refused; %s", k, s.hist())
					continue
				}
				s.rec("BPut(%x,%s,%v)", k, short(id), hit)
				n++
				s.m[string(k)] = id
				c.Count("batch_puts", 1)
				if hit && err == nil {
					c.Violate("batch-fault", "a write failed during put %d (every %d) and no error was returned; %s", n, mod, s.hist())
				}
				if !hit && !blind && err != nil {
					c.Violate("batch-error", "put %d (every %d): %v; %s", n, mod, err, s.hist())
				}
				if p.Count() != n {
					c.Violate("batch-count", "Count=%d after %d puts; %s", p.Count(), n, s.hist())
				}
				if n%mod == 0 && err == nil {
					last = cloneMap(s.m)
					h := rootOf(s.t)
					if m, _, err := trieContent(f, f.open(h, s.na, s.va)); err != nil || !sameMap(m, last) {
						c.Violate("batch-stored", "after put %d (every %d) the store does not hold the entries: %v %s; %s", n, mod, err, diffMaps(m, last), s.hist())
					}
				}
			}
			c.Case(len(s.m) >= 3, s.hist())
			s.checkAll()
		})
	})
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// position is the 12 byte form of a block position: the chain id and the height, both big-endian.
func position(id common.ChainID, h common.Height) []byte {
	b := make([]byte, 12)
	binary.BigEndian.PutUint32(b, uint32(id))
	binary.BigEndian.PutUint64(b[4:], uint64(h))
	return b
}

func randPos(r *rand.Rand) (common.ChainID, common.Height) {
	ids := []common.ChainID{0, 1, 2, 3, 255, 256, 103, 70001, 0x7fffffff, 0x80000000, 0xfffffffe, common.NilChainID, common.ChainID(r.Uint32())}
	hs := []common.Height{0, 1, 2, 255, 256, 0xffff, 1 << 31, 1 << 32, 1 << 63, common.NilHeight, common.NilHeight - 1, common.Height(r.Uint64()), common.Height(r.Intn(1 << 20))}
	return ids[r.Intn(len(ids))], hs[r.Intn(len(hs))]
}

// nearPos is another position, often one bit or one byte move away.
func nearPos(r *rand.Rand, id common.ChainID, h common.Height) (common.ChainID, common.Height) {
	switch r.Intn(6) {
	case 0:
		return id ^ common.ChainID(1<<uint(r.Intn(32))), h
	case 1:
		return id, h ^ common.Height(1<<uint(r.Intn(64)))
	case 2:
		return id, h + 1
	case 3: // the same twelve bytes, divided elsewhere
		return common.ChainID(uint64(h) >> 32), common.Height(uint64(id)<<32 | uint64(h)&0xffffffff)
	case 4:
		return common.ChainID(h), common.Height(id)
	}
	return randPos(r)
}

type refHeader struct {
	id     common.ChainID
	height common.Height
	props  []common.Hash
	leaves [][]byte
	root   common.Hash
}

// newRefHeader models the hash of a block: a merkle tree over the pairs (hash of position and field number,
// hash of the field).
func newRefHeader(r *rand.Rand, id common.ChainID, h common.Height, n int) *refHeader {
	b := &refHeader{id: id, height: h}
	for i := 0; i < n; i++ {
		b.props = append(b.props, randHash(r))
	}
	b.seal()
	return b
}

func (b *refHeader) index(i int) common.Hash {
	return common.BytesToHash(keccak(append(position(b.id, b.height), byte(i))))
}

func (b *refHeader) seal() {
	b.leaves = nil
	for i, p := range b.props {
		x := b.index(i)
		b.leaves = append(b.leaves, keccak(x[:], p[:]))
	}
	l := refComplete(b.leaves)
	b.root = common.BytesToHash(l[len(l)-1][0])
}

// named field types of the documentation, with the number of the field they prove
var namedFields = map[trie.ProofType]int{
	trie.ProofHeaderDeltas: 12, trie.ProofHeaderHistory: 1, trie.ProofHeaderStateRoot: 13,
	trie.ProofHeaderVCCRoot: 16, trie.ProofHeaderCCCRoot: 17, trie.ProofHeaderHdsRoot: 20,
}

func (b *refHeader) typeFor(r *rand.Rand, i int) trie.ProofType {
	if r.Intn(3) == 0 {
		for t, n := range namedFields {
			if n == i {
				return t
			}
		}
	}
	return trie.ProofHeaderBase + trie.ProofType(i)
}

func (b *refHeader) proof(c *mon.Ctx, r *rand.Rand, i int) *trie.NodeProof {
	mp := common.NewMerkleProofs()
	root, err := common.MerkleHashComplete(b.leaves, i, mp)
	if err != nil || !bytes.Equal(root, b.root[:]) {
		c.Violate("merkle", "MerkleHashComplete of %d fields: %x,%v want %x", len(b.leaves), root, err, b.root)
		return nil
	}
	x := b.index(i)
	return trie.NewHeaderPropertyProof(b.typeFor(r, i), &x, mp)
}

func doesPanic(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func runT18(c *mon.Ctx) {
	c.Section("types", func(r *rand.Rand) {
		for v := 0; v < 256; v++ {
			t := trie.ProofType(v)
			want, ok := namedFields[t]
			if !ok && v >= int(trie.ProofHeaderBase) && v < int(trie.ProofHeaderLimit) {
				want, ok = v-int(trie.ProofHeaderBase), true
			}
			got, gok := t.IsProofHeaderProperty()
			c.Check(gok == ok && got == want, "field-type", "type %#x: field %d,%v want %d,%v", v, got, gok, want, ok)
			kinds := 0
			for _, b := range []bool{gok, t.IsProofChild(), t.IsProofValue(), t.IsProofHdsSummary(), t.IsProofExistence(), t.IsProofMerkleOnly()} {
				if b {
					kinds++
				}
			}
			c.Check(kinds <= 1, "one-kind", "type %#x is of %d kinds", v, kinds)
			c.Check(t.IsProofChild() == (v < 16) && t.IsProofValue() == (v == 16) && t.IsProofHdsSummary() == (v == 17) &&
				t.IsProofExistence() == (v == 254) && t.IsProofMerkleOnly() == (v == 255), "kind", "type %#x has the wrong kind", v)
			h := randHash(r)
			mp := common.NewMerkleProofs()
			mp.Append(h, true)
			c.Check(doesPanic(func() { trie.NewHeaderPropertyProof(t, &h, mp) }) == !ok, "new-field", "NewHeaderPropertyProof of type %#x", v)
			c.Check(doesPanic(func() { trie.NewMerkleOnlyProof(t, mp) }) == (v != 255), "new-merkle", "NewMerkleOnlyProof of type %#x", v)
			// a proof of a type that is nothing never proves anything
			n := &trie.NodeProof{PType: t, ValueHash: &h, ChildProofs: mp}
			_, err := n.Proof(h)
			c.Check((err == nil) == (kinds == 1 && !t.IsProofExistence()), "proof-type", "type %#x: Proof error %v", v, err)
			if ok || t.IsProofHdsSummary() || t.IsProofMerkleOnly() {
				if m, vh, _, err := n.ExistenceMatch([]byte{1, 2}); err == nil {
					c.Violate("existence-of-block", "a proof of type %#x answers for keys: %v %x", v, m, vh)
				}
			}
			c.Count("types", 1)
			c.Case(true, fmt.Sprint("type", v))
		}
	})
	judge := func(r *rand.Rand, what string, n *trie.NodeProof, f func(*trie.NodeProof, common.ChainID, common.Height) bool, want func(common.ChainID, common.Height) bool, id common.ChainID, h common.Height) {
		for q := 0; q < 8; q++ {
			i2, h2 := id, h
			if q > 0 {
				i2, h2 = nearPos(r, id, h)
			}
			c.Count("positions", 1)
			if g, w := f(n, i2, h2), want(i2, h2); g != w {
				c.Violate(what, "proof for chain %d height %d asked for chain %d height %d: %v, want %v; %s", id, h, i2, h2, g, w, n)
			}
		}
		nv := n.Clone()
		nv.ValueHash = nil
		if f(nv, id, h) || f(nil, id, h) {
			c.Violate(what, "a proof without position hash (or none at all) is accepted for chain %d height %d", id, h)
		}
	}
	c.Section("fields", func(_ *rand.Rand) {
		c.Cases("f", c.N2(2500, 40000), func(i int, r *rand.Rand) {
			id, h := randPos(r)
			n := 2 + r.Intn(40)
			if r.Intn(8) == 0 {
				n = 80
			}
			b := newRefHeader(r, id, h, n)
			c.Case(n > 2, fmt.Sprint(id, h, n))
			other := newRefHeader(r, id, h, n)
			for q := 0; q < 4; q++ {
				k := r.Intn(n)
				p := b.proof(c, r, k)
				if p == nil {
					return
				}
				c.Count("header_proofs", 1)
				chain := trie.ProofChain{p}
				got, err := p.Proof(b.props[k])
				if err != nil || !bytes.Equal(got, b.root[:]) || !trie.VerifyProofChain(b.props[k], chain, b.root[:]) {
					c.Violate("field-proof", "field %d of %d at chain %d height %d: %x,%v want %x; %s", k, n, id, h, got, err, b.root, p)
				}
				stopped(c, r, "field-stopped", chain.Iterate)
				for j := range b.props { // no other field passes for this one
					if j != k && trie.VerifyProofChain(b.props[j], chain, b.root[:]) {
						c.Violate("field-swap", "the proof of field %d verifies for field %d; %s", k, j, p)
					}
				}
				if trie.VerifyProofChain(b.props[k], chain, other.root[:]) || trie.VerifyProofChain(randHash(r), chain, b.root[:]) {
					c.Violate("field-forged", "the proof of field %d verifies for another value or block; %s", k, p)
				}
				// the position and field it names
				judge(r, "is-header-of", p, func(p *trie.NodeProof, i2 common.ChainID, h2 common.Height) bool { return p.IsHeaderOf(i2, h2) },
					func(i2 common.ChainID, h2 common.Height) bool { return i2 == id && h2 == h }, id, h)
				// a proof relabelled as another field, or with the position hash of another field, names nothing
				m := p.Clone()
				j := r.Intn(80)
				m.PType = trie.ProofHeaderBase + trie.ProofType(j)
				if m.IsHeaderOf(id, h) != (j == k) {
					c.Violate("field-relabelled", "the proof of field %d relabelled as field %d: IsHeaderOf=%v", k, j, j != k)
				}
				m = p.Clone()
				x := b.index(j)
				m.ValueHash = &x
				if m.IsHeaderOf(id, h) != (j == k) {
					c.Violate("field-index", "the proof of field %d with the hash of field %d: IsHeaderOf=%v", k, j, j != k)
				}
				if j != k && trie.VerifyProofChain(b.props[k], trie.ProofChain{m}, b.root[:]) {
					c.Violate("field-index-proof", "field %d verifies with the index hash of field %d", k, j)
				}
				for _, t := range []trie.ProofType{0, 7, trie.ProofValue, trie.ProofHdsSummary, trie.ProofExistence, trie.ProofMerkleOnly, 0x22, 0x27, 0x2f, 0xa0, 0xfd} {
					m = p.Clone()
					m.PType = t
					if m.IsHeaderOf(id, h) || m.IsHeaderPropertyOf(id, h, k) {
						c.Violate("field-type-of", "a proof of type %#x is taken for field %d", t, k)
					}
					if g, err := m.Proof(b.props[k]); t != trie.ProofHdsSummary && err == nil && bytes.Equal(g, b.root[:]) {
						c.Violate("field-type-proof", "a proof of type %#x verifies for field %d", t, k)
					}
				}
				// header property, by position only
				m = p.Clone()
				pos := common.BytesToHash(keccak(position(id, h)))
				m.ValueHash = &pos
				judge(r, "is-property-of", m, func(p *trie.NodeProof, i2 common.ChainID, h2 common.Height) bool {
					return p.IsHeaderPropertyOf(i2, h2, k)
				},
					func(i2 common.ChainID, h2 common.Height) bool { return i2 == id && h2 == h }, id, h)
				if g := m.IsHeaderPropertyOf(id, h, j); g != (j == k) {
					c.Violate("is-property-index", "the proof of field %d asked for field %d: %v", k, j, g)
				}
				if p.IsHeaderPropertyOf(id, h, k) || m.IsHeaderOf(id, h) || p.IsHdsSummaryOf(id, h) || m.IsHdsSummaryOf(id, h) {
					c.Violate("kinds-mixed", "a proof of one kind is taken for another; field %d", k)
				}
				// the pieces a proof cannot do without
				m = p.Clone()
				m.ValueHash = nil
				if _, err := m.Proof(b.props[k]); err == nil {
					c.Violate("field-no-index", "a field proof without index hash proves something")
				}
				m = p.Clone()
				m.ChildProofs = nil
				if _, err := m.Proof(b.props[k]); err == nil {
					c.Violate("field-no-path", "a field proof without merkle path proves something")
				}
				m = p.Clone()
				m.ChildProofs = common.NewMerkleProofs()
				if _, err := m.Proof(b.props[k]); err == nil {
					c.Violate("field-no-path", "a field proof with an empty merkle path proves something")
				}
				if q == 0 {
					encodings(c, chain, fmt.Sprintf("field %d of %d", k, n))
				}
			}
		})
	})
	c.Section("summaries", func(_ *rand.Rand) {
		c.Cases("s", c.N2(1500, 20000), func(i int, r *rand.Rand) {
			n := 1 + r.Intn(20)
			type pos struct {
				id common.ChainID
				h  common.Height
			}
			seen := map[pos]bool{}
			var ps []pos
			var hashes []common.Hash
			var leaves [][]byte
			for len(ps) < n {
				id, h := randPos(r)
				if len(ps) > 0 && r.Intn(2) == 0 {
					id, h = nearPos(r, ps[0].id, ps[0].h)
				}
				if seen[pos{id, h}] {
					n--
					continue
				}
				seen[pos{id, h}] = true
				x := randHash(r)
				ps, hashes = append(ps, pos{id, h}), append(hashes, x)
				leaves = append(leaves, keccak(keccak(position(id, h)), x[:]))
			}
			if n = len(ps); n == 0 {
				return
			}
			l := refComplete(leaves)
			root := l[len(l)-1][0]
			c.Case(n > 2, fmt.Sprint(ps))
			for k := range ps {
				mp := common.NewMerkleProofs()
				if g, err := common.MerkleHashComplete(leaves, k, mp); err != nil || !bytes.Equal(g, root) {
					c.Violate("merkle", "MerkleHashComplete of %d summaries: %x,%v want %x", n, g, err, root)
					return
				}
				vh := common.BytesToHash(keccak(position(ps[k].id, ps[k].h)))
				p := trie.NewHdsSummaryProof(&vh, mp)
				c.Count("summary_proofs", 1)
				if !trie.VerifyProofChain(hashes[k], trie.ProofChain{p}, root) {
					c.Violate("summary-proof", "summary %d of %d does not verify; %s", k, n, p)
				}
				stopped(c, r, "summary-stopped", p.Iterate)
				for j := range ps {
					if j != k && trie.VerifyProofChain(hashes[j], trie.ProofChain{p}, root) {
						c.Violate("summary-swap", "the proof of summary %d verifies for summary %d", k, j)
					}
				}
				judge(r, "is-summary-of", p, func(p *trie.NodeProof, i2 common.ChainID, h2 common.Height) bool { return p.IsHdsSummaryOf(i2, h2) },
					func(i2 common.ChainID, h2 common.Height) bool { return i2 == ps[k].id && h2 == ps[k].h }, ps[k].id, ps[k].h)
				for _, q := range ps {
					if q != ps[k] && p.IsHdsSummaryOf(q.id, q.h) {
						c.Violate("is-summary-of", "the proof of %v is taken for %v", ps[k], q)
					}
				}
				m := p.Clone()
				m.PType = trie.ProofHeaderBase
				if m.IsHdsSummaryOf(ps[k].id, ps[k].h) {
					c.Violate("summary-type", "a field proof is taken for a summary")
				}
				m = p.Clone()
				m.ValueHash = nil
				if _, err := m.Proof(hashes[k]); err == nil {
					c.Violate("summary-no-position", "a summary proof without position hash proves something")
				}
				if k == 0 {
					encodings(c, trie.ProofChain{p}, "summary")
				}
			}
		})
	})
	c.Section("pipeline", func(_ *rand.Rand) {
		c.Cases("p", c.N2(350, 5000), func(i int, r *rand.Rand) {
			// an entry of a shard's state, its state root in the shard's block, the block's summary in the main
			// chain's block, and that block in the main chain's history
			f := flavors[r.Intn(2)]
			s := newTsim(c, r, f, db.NewMemDB())
			fill(s, r, 12)
			keys := sortedKeys(s.m)
			if len(keys) == 0 {
				return
			}
			key := keys[r.Intn(len(keys))]
			_, chain, ok := s.t.GetProof([]byte(key))
			if !ok {
				c.Violate("pipe-get", "no proof of %x; %s", key, s.hist())
				return
			}
			vh := f.vh([]byte(key), s.m[key])
			stateRoot := common.BytesToHash(rootOf(s.t))
			id, h := randPos(r)
			shard := newRefHeader(r, id, h, 21+r.Intn(20))
			shard.props[13] = stateRoot
			shard.seal()
			sp := shard.proof(c, r, 13)
			nsum := 1 + r.Intn(6)
			at := r.Intn(nsum)
			var leaves [][]byte
			for j := 0; j < nsum; j++ {
				x := randHash(r)
				ph := keccak(position(id, h+common.Height(j)+1))
				if j == at {
					x = shard.root
					ph = keccak(position(id, h))
				}
				leaves = append(leaves, keccak(ph, x[:]))
			}
			mp := common.NewMerkleProofs()
			hr, err := common.MerkleHashComplete(leaves, at, mp)
			if err != nil {
				c.Violate("merkle", "%v", err)
				return
			}
			ph := common.BytesToHash(keccak(position(id, h)))
			hds := trie.NewHdsSummaryProof(&ph, mp)
			hist := newHistSim(c, db.NewMemDB())
			if r.Intn(2) == 0 {
				hist = syntheticHist(c, r, db.NewMemDB(), uint64(r.Uint32())<<uint(r.Intn(30)))
			}
			if hist == nil {
				return
			}
			for q := r.Intn(6); q > 0; q-- {
				hist.append(r)
			}
			mh := hist.m.next
			main := newRefHeader(r, common.MainChainID, common.Height(mh), 21+r.Intn(20))
			main.props[20] = common.BytesToHash(hr)
			main.seal()
			mpf := main.proof(c, r, 20)
			if err := hist.t.Append(mh, mon.Clone(main.root[:])); err != nil {
				c.Violate("pipe-append", "%v", err)
				return
			}
			hist.m.append(main.root[:])
			for q := r.Intn(5); q > 0; q-- {
				hist.append(r)
			}
			hv, hc, ok := hist.t.GetProof(mh)
			if !ok || !bytes.Equal(hv, main.root[:]) || sp == nil || mpf == nil {
				c.Violate("pipe-history", "GetProof(%d)=%x,%v; %s", mh, hv, ok, hist.hist())
				return
			}
			var all trie.ProofChain
			all = append(all, chain...)
			all = append(all, sp, hds, mpf)
			all = append(all, hc...)
			root := hist.m.root()
			c.Case(true, fmt.Sprintf("%d/%d %d %s", id, h, mh, s.hist()))
			c.Count("pipelines", 1)
			if !trie.VerifyProofChain(vh, all, root) {
				g, err := all.Proof(vh)
				c.Violate("pipe-proof", "the whole proof of %x gives %x,%v want %x; %s", key, g, err, root, all)
				return
			}
			if !sp.IsHeaderOf(id, h) || !hds.IsHdsSummaryOf(id, h) || !mpf.IsHeaderOf(common.MainChainID, common.Height(mh)) {
				c.Violate("pipe-position", "the proofs do not name chain %d height %d and main height %d", id, h, mh)
			}
			if mk, err := all.ToMerkles(); err != nil {
				c.Violate("pipe-tomerkles", "%v", err)
			} else if g, err := mk.Proof(vh); err != nil || !bytes.Equal(g, root) {
				c.Violate("pipe-tomerkles", "flattened: %x,%v want %x", g, err, root)
			}
			encodings(c, all, "pipeline")
			for q := 0; q < 6; q++ { // leaving out, repeating or exchanging a step
				m := all.Clone()
				x := r.Intn(len(m))
				what := ""
				switch r.Intn(4) {
				case 0:
					m, what = append(m[:x:x], m[x+1:]...), "left out"
				case 1:
					m, what = append(m[:x+1:x+1], m[x:]...), "repeated"
				case 2:
					y := (x + 1) % len(m)
					if m[x].Equal(m[y]) {
						continue
					}
					m[x], m[y] = m[y], m[x]
					what = "exchanged"
				default:
					if m[x].ValueHash == nil {
						continue
					}
					m[x].ValueHash[r.Intn(32)] ^= byte(1 + r.Intn(255))
					if m[x].PType.IsProofValue() {
						continue // not part of the hash by definition
					}
					what = "with another position"
				}
				if trie.VerifyProofChain(vh, m, root) {
					c.Violate("pipe-mutant", "the whole proof of %x verifies with step %d %s; %s", key, x, what, m)
				}
			}

			// HistoryProof
			for q := 0; q < 8; q++ {
				hh := common.Height(mh)
				hob := mon.Clone(main.root[:])
				switch r.Intn(7) {
				case 0:
					hh ^= common.Height(1 << uint(r.Intn(64)))
				case 1:
					hob[r.Intn(32)] ^= byte(1 + r.Intn(255))
				case 2:
					hh = common.NilHeight
				case 3:
					hob = nil
				case 4:
					hh++
				case 5:
					hh, hob = common.NilHeight, nil
				}
				c.Count("history", 1)
				g, err := hc.HistoryProof(hh, hob)
				switch {
				case hh.IsNil() && len(hob) == 0:
					c.Check(err != nil, "history-nothing", "HistoryProof of nothing succeeds: %x", g)
				case !hh.IsNil() && uint64(hh) != mh:
					c.Check(err != nil && g == nil, "history-height", "the proof of height %d is accepted for height %d: %x", mh, hh, g)
				case len(hob) == 0:
					c.Check(err == nil && len(g) == 0, "history-height-only", "HistoryProof(%d,nil)=%x,%v", hh, g, err)
				default:
					c.Check(err == nil && bytes.Equal(g, root) == bytes.Equal(hob, main.root[:]), "history-root", "HistoryProof(%d,%x)=%x,%v root %x", hh, hob, g, err, root)
				}
			}
			if _, err := (trie.ProofChain)(nil).HistoryProof(common.Height(mh), main.root[:]); err == nil {
				c.Violate("history-nil", "an empty proof proves a height")
			}
		})
	})
}

package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "T06",
		Rule:  "tries over colliding key pools in every residency state; one proof per stored key plus mutated chains and wrong value hashes; non-trivial when the chain has at least two nodes",
		Floor: map[string]int64{"genuine_proofs": 10000, "mutants": 20000, "stopped_walks": 5000, "wrong_hashes": 20000}, Run: runT06})
	mon.Register(&mon.Check{ID: "T07",
		Rule:  "tries over colliding key pools; existence proofs for stored keys, near misses, prefixes and extensions, plus mutated chains probed with many keys; non-trivial when the probed key shares a nibble prefix with a stored one",
		Floor: map[string]int64{"present": 5000, "absent": 5000, "mutants": 20000, "mutants_still_verifying": 500, "read_faults": 1500, "read_faults_reported": 1000}, Run: runT07})
	mon.Register(&mon.Check{ID: "T08",
		Rule:  "hash lists of every length up to a bound (equal, nil and random leaves) with every index; encodings re-read through readers with random chunk sizes; non-trivial when the list has at least 3 leaves",
		Floor: map[string]int64{"lists": 500, "proofs": 10000, "repeats": 200, "stopped_walks": 5000, "unhashable": 100, "broken_readers": 5000, "chunked_decodes": 5000, "repeat_lists": 2000}, Run: runT08})
}

// chunkReader delivers data in small random pieces.
type chunkReader struct {
	b []byte
	r *rand.Rand
	m int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + c.r.Intn(c.m)
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

// chainPath spells the nibbles a chain (leaf first) walks from the root down.
func chainPath(ch trie.ProofChain) []byte {
	var p []byte
	for i := len(ch) - 1; i >= 0; i-- {
		p = append(p, ch[i].Header.KeyToPrefix()...)
		if ch[i].PType.IsProofChild() {
			p = append(p, byte(ch[i].PType))
		}
	}
	return p
}

func nibbles(k []byte) []byte {
	var p []byte
	for _, b := range k {
		p = append(p, b>>4, b&15)
	}
	return p
}

func randHash(r *rand.Rand) common.Hash {
	var h common.Hash
	r.Read(h[:])
	return h
}

// mutateChain changes a deep copy of the chain; strict reports whether what was changed takes part in
// the hash computation of a value/existence/child proof (so that verification must fail).
func mutateChain(r *rand.Rand, ch, other trie.ProofChain) (m trie.ProofChain, what string, strict bool) {
	m = ch.Clone()
	i := r.Intn(len(m))
	n := m[i]
	switch r.Intn(16) {
	case 0: // relabel the child index
		if n.PType.IsProofChild() {
			old := n.PType
			n.PType = trie.ProofType(r.Intn(16))
			return m, fmt.Sprintf("node %d type %d->%d", i, old, n.PType), false
		}
	case 1:
		n.PType = []trie.ProofType{trie.ProofValue, trie.ProofExistence, trie.ProofMerkleOnly, trie.ProofHdsSummary, 3, 0x30}[r.Intn(6)]
		return m, fmt.Sprintf("node %d type->%d", i, n.PType), false
	case 2:
		if len(m) > 1 {
			m = append(m[:i], m[i+1:]...)
			return m, fmt.Sprintf("drop node %d", i), false
		}
	case 3:
		m = append(m[:i+1], append(trie.ProofChain{n.Clone()}, m[i+1:]...)...)
		return m, fmt.Sprintf("dup node %d", i), true
	case 4:
		if len(m) > 1 {
			j := r.Intn(len(m))
			if i != j && !m[i].Equal(m[j]) {
				m[i], m[j] = m[j], m[i]
				return m, fmt.Sprintf("swap %d %d", i, j), true
			}
		}
	case 5:
		if len(other) > 0 {
			j := r.Intn(len(other))
			m[i] = other[j].Clone()
			return m, fmt.Sprintf("node %d from another proof", i), false
		}
	case 6:
		k := r.Intn(len(other) + 1)
		m = append(m[:i], other.Clone()[k:]...)
		if len(m) > 0 {
			return m, fmt.Sprintf("splice %d/%d", i, k), false
		}
		m = ch.Clone()
	case 7:
		if len(n.Header.KeyString) > 0 {
			j := r.Intn(len(n.Header.KeyString))
			n.Header.KeyString[j] ^= byte(1 << uint(r.Intn(8)))
			return m, fmt.Sprintf("node %d key byte %d", i, j), n.Header.NT.HasPrefix()
		}
	case 8:
		j := r.Intn(16)
		n.Header.ChildrenFlag[j/8] ^= 1 << uint(j%8)
		return m, fmt.Sprintf("node %d child flag %d", i, j), n.Header.NT.HasChildren()
	case 9:
		bit := byte(1 << uint(r.Intn(8)))
		n.Header.NT ^= trie.NodeType(bit)
		return m, fmt.Sprintf("node %d nodetype bit %x", i, bit), true
	case 10:
		if n.ValueHash != nil {
			if r.Intn(2) == 0 {
				n.ValueHash = nil
			} else {
				n.ValueHash[r.Intn(32)] ^= byte(1 + r.Intn(255))
			}
			return m, fmt.Sprintf("node %d value hash", i), !n.PType.IsProofValue()
		}
		if r.Intn(2) == 0 {
			h := randHash(r)
			n.ValueHash = &h
			return m, fmt.Sprintf("node %d gets a value hash", i), !n.PType.IsProofValue()
		}
		h := common.BytesToHash(common.NilHashSlice)
		n.ValueHash = &h
		return m, fmt.Sprintf("node %d gets the nil value hash", i), false
	case 11:
		if n.ChildProofs != nil && len(n.ChildProofs.Hashs) > 0 {
			j := r.Intn(len(n.ChildProofs.Hashs))
			n.ChildProofs.Hashs[j][r.Intn(32)] ^= byte(1 + r.Intn(255))
			return m, fmt.Sprintf("node %d merkle hash %d", i, j), true
		}
	case 12:
		if n.ChildProofs != nil && len(n.ChildProofs.Hashs) > 0 {
			j := r.Intn(len(n.ChildProofs.Hashs))
			n.ChildProofs.Hashs = append(n.ChildProofs.Hashs[:j], n.ChildProofs.Hashs[j+1:]...)
			return m, fmt.Sprintf("node %d drops merkle hash %d", i, j), true
		}
	case 13:
		if n.ChildProofs != nil && len(n.ChildProofs.Hashs) > 0 && n.ChildProofs.Paths != nil {
			j := r.Intn(n.ChildProofs.Len())
			n.ChildProofs.Paths.SetBit(n.ChildProofs.Paths, j, 1-n.ChildProofs.Paths.Bit(j))
			return m, fmt.Sprintf("node %d path bit %d", i, j), false
		}
	case 14:
		if n.ChildProofs == nil {
			n.ChildProofs = common.NewMerkleProofs()
		}
		n.ChildProofs.Hashs = append(n.ChildProofs.Hashs, randHash(r))
		return m, fmt.Sprintf("node %d extra merkle hash", i), true
	case 15:
		if n.ChildProofs != nil && len(n.ChildProofs.Hashs) > 0 {
			n.ChildProofs = nil
			return m, fmt.Sprintf("node %d without merkle part", i), true
		}
	}
	return nil, "", false
}

func encodings(c *mon.Ctx, ch trie.ProofChain, hist string) {
	b, err := rtl.Marshal(ch)
	var back trie.ProofChain
	if err == nil {
		err = rtl.Unmarshal(b, &back)
	}
	if err != nil || !ch.Equal(back) {
		c.Violate("proof-rtl", "proof chain does not survive its binary encoding: %v; %s -> %s; %s", err, ch, back, hist)
	}
	j, err := json.Marshal(ch)
	var jb trie.ProofChain
	if err == nil {
		err = json.Unmarshal(j, &jb)
	}
	if err != nil || !ch.Equal(jb) {
		c.Violate("proof-json", "proof chain does not survive JSON: %v; %s; %s", err, string(j), hist)
	}
	cl := ch.Clone()
	if !ch.Equal(cl) || !cl.Equal(ch) {
		c.Violate("proof-clone", "clone of proof chain differs: %s", hist)
	}
	// the clone is independent
	for _, n := range cl {
		if len(n.Header.KeyString) > 0 {
			n.Header.KeyString[0] ^= 0xff
		}
		if n.ValueHash != nil {
			n.ValueHash[0] ^= 0xff
		}
		if n.ChildProofs != nil {
			for k := range n.ChildProofs.Hashs {
				n.ChildProofs.Hashs[k][0] ^= 0xff
			}
			if n.ChildProofs.Paths != nil {
				n.ChildProofs.Paths.SetBit(n.ChildProofs.Paths, 0, 1-n.ChildProofs.Paths.Bit(0))
			}
		}
	}
	if !ch.Equal(back) {
		c.Violate("proof-clone-alias", "changing a clone changed the original proof chain: %s", hist)
	}
	c.Count("encodings", 1)
}

func runT06(c *mon.Ctx) {
	c.Section("value-proofs", func(_ *rand.Rand) {
		c.Cases("p", c.N2(2500, 30000), func(i int, r *rand.Rand) {
			s := newTsim(c, r, pickFlavor(r), db.NewMemDB())
			fill(s, r, 30)
			st := residency(s, r)
			root := rootOf(s.t)
			var chains []trie.ProofChain
			var keys []string
			for _, k := range sortedKeys(s.m) {
				v, ch, ok := s.t.GetProof([]byte(k))
				vh := s.f.vh([]byte(k), s.m[k])
				c.Count("genuine_proofs", 1)
				if !ok || len(ch) == 0 {
					c.Violate("no-proof", "GetProof(%x) of a stored key failed (%s); %s", k, st, s.hist())
					continue
				}
				c.Check(s.f.id(v) == s.m[k], "proof-value", "GetProof(%x) value %s want %s", k, s.f.id(v), s.m[k])
				if !trie.VerifyProofChain(vh, ch, root) {
					got, err := ch.Proof(vh)
					c.Violate("genuine-rejected", "proof of %x yields %x (%v), root %x (%s); %s", k, got, err, root, st, s.hist())
				}
				pr := trie.Proof{ToBeProof: &vh, Proofs: ch}
				if got, err := pr.Proof(); err != nil || !bytes.Equal(got, root) {
					c.Violate("proof-struct", "Proof.Proof()=%x,%v root %x", got, err, root)
				}
				if !bytes.Equal(chainPath(ch), nibbles([]byte(k))) {
					c.Violate("path", "proof of %x walks path %x; %s", k, chainPath(ch), s.hist())
				}
				mk, err := ch.ToMerkles()
				if err != nil || mk == nil {
					c.Violate("tomerkles", "ToMerkles: %v", err)
				} else if got, err := mk.Proof(vh); err != nil || !bytes.Equal(got, root) {
					c.Violate("tomerkles-root", "flattened proof of %x gives %x,%v want %x; %s", k, got, err, root, s.hist())
				}
				stopped(c, r, "stopped", ch.Iterate)
				if its, err := ch.ToItems(); err != nil {
					c.Violate("toitems", "ToItems: %v", err)
				} else {
					h := vh[:]
					for _, it := range its {
						if it.Order {
							h = common.Hash256NoError(it.Val[:], h)
						} else {
							h = common.Hash256NoError(h, it.Val[:])
						}
					}
					c.Check(bytes.Equal(h, root), "toitems-root", "proof items of %x give %x want %x", k, h, root)
				}
				if r.Intn(4) == 0 {
					encodings(c, ch, s.hist())
				}
				chains = append(chains, ch)
				keys = append(keys, k)
			}
			if rootAfter := rootOf(s.t); !bytes.Equal(root, rootAfter) {
				c.Violate("proof-changes-root", "GetProof changed the root; %s", s.hist())
			}
			for n := 0; n < 3; n++ { // absent keys get no proof
				k := s.ks.near(r)
				if _, has := s.m[string(k)]; !has {
					if v, ch, ok := s.t.GetProof(k); ok {
						c.Violate("proof-absent", "GetProof(%x) of an absent key gave %v %s; %s", k, v, ch, s.hist())
					}
				}
			}
			if len(chains) == 0 {
				return
			}
			for n := 0; n < 12; n++ {
				x := r.Intn(len(chains))
				k := keys[x]
				vh := s.f.vh([]byte(k), s.m[k])
				// wrong hashes against a genuine chain
				var bad common.Hash
				switch r.Intn(4) {
				case 0:
					bad = randHash(r)
				case 1:
					bad = vh
					bad[r.Intn(32)] ^= byte(1 + r.Intn(255))
				case 2:
					k2 := keys[r.Intn(len(keys))]
					bad = s.f.vh([]byte(k2), s.m[k2])
				default:
					bad = s.f.vh([]byte(k), s.m[k]+"'")
				}
				if bad != vh && trie.VerifyProofChain(bad, chains[x], root) {
					c.Violate("wrong-hash", "proof of %x verifies for hash %x, the stored value hashes to %x; %s", k, bad[:], vh[:], s.hist())
				}
				c.Count("wrong_hashes", 1)
				m, what, strict := mutateChain(r, chains[x], chains[r.Intn(len(chains))])
				if m == nil || len(m) == 0 {
					continue
				}
				c.Count("mutants", 1)
				if strict && trie.VerifyProofChain(vh, m, root) {
					c.Violate("mutant-verifies", "proof of %x still verifies after: %s; %s; %s", k, what, m, s.hist())
				}
				if m[0] != nil && m[0].PType.IsProofValue() && bad != vh && trie.VerifyProofChain(bad, m, root) {
					// only acceptable if the mutation turned it into the genuine proof of another key
					okOther := false
					for y := range chains {
						if m.Equal(chains[y]) && s.f.vh([]byte(keys[y]), s.m[keys[y]]) == bad {
							okOther = true
						}
					}
					if !okOther {
						c.Violate("forged", "mutated proof (%s) of %x verifies for hash %x; %s", what, k, bad[:], s.hist())
					}
				}
				c.Case(len(chains[x]) >= 2, fmt.Sprintf("%s key %x: %s %s", st, k, what, opsKey(s)))
			}
			// after the value of a key changes, its old proof and value no longer verify
			x := r.Intn(len(chains))
			oldVH := s.f.vh([]byte(keys[x]), s.m[keys[x]])
			s.put(r, []byte(keys[x]))
			if nr := rootOf(s.t); s.f.vh([]byte(keys[x]), s.m[keys[x]]) != oldVH && trie.VerifyProofChain(oldVH, chains[x], nr) {
				c.Violate("stale-proof", "the proof of %x's old value under root %x verifies under %x", keys[x], root, nr)
			}
		})
	})
}

// existenceFaults: storage that does not deliver a record is an error, it says nothing about the key.
func existenceFaults(c *mon.Ctx, r *rand.Rand) {
	fd := newFaultDB()
	s := newTsim(c, r, pickFlavor(r), fd)
	fill(s, r, 25)
	root := s.commit()
	it := trie.ITrie(s.f.open(mon.Clone(root), s.na, s.va))
	if r.Intn(4) == 0 {
		it = &trie.RevertableTrie{Origin: it.(*trie.Trie)}
	}
	var log []string
	for op := 0; op < 15; op++ {
		k := s.ks.pick(r)
		if r.Intn(4) == 0 {
			k = s.ks.near(r)
		}
		if len(k) == 0 {
			continue
		}
		_, has := s.m[string(k)]
		at := int64(1 + r.Intn(6))
		to := at
		if r.Intn(3) == 0 {
			to = 1 << 40
		}
		fd.cutGet = r.Intn(2) == 0
		fd.armGet(at, to)
		log = append(log, fmt.Sprintf("%x@%d-%d(cut %v)", k, at, to, fd.cutGet))
		var ex bool
		var ch trie.ProofChain
		var err error
		panicked := doesPanic(func() { ex, ch, err = it.GetExistenceProof(k) })
		hit := fd.gets >= at
		fd.disarm()
		hist := fmt.Sprintf("reads failing %v; %s", log, s.hist())
		if panicked {
			c.Violate("existence-fault-panic", "GetExistenceProof(%x) panicked over failing storage; %s", k, hist)
			return
		}
		if hit {
			c.Count("read_faults", 1)
			if err != nil {
				c.Count("read_faults_reported", 1)
			}
		} else if err != nil {
			c.Violate("existence-error", "GetExistenceProof(%x): %v; %s", k, err, hist)
			return
		}
		if err != nil {
			continue
		}
		if !c.Check(ex == has, "existence-fault", "GetExistenceProof(%x) exist=%v without an error, want %v; %s", k, ex, has, hist) {
			return
		}
		h, err := ch.ExistenceHash()
		got, err2 := ch.IsExist(k)
		c.Check(err == nil && err2 == nil && got == has && bytes.Equal(h, root), "existence-fault-proof",
			"existence proof of %x says %v,%v under %x,%v; stored %v under %x; %s", k, got, err2, h, err, has, root, hist)
	}
	c.Case(len(s.m) > 2, fmt.Sprintf("%v of %s", log, opsKey(s)))
}

func runT07(c *mon.Ctx) {
	c.Section("storage", func(_ *rand.Rand) {
		c.Cases("s", c.N2(2500, 30000), func(i int, r *rand.Rand) { existenceFaults(c, r) })
	})
	c.Section("existence", func(_ *rand.Rand) {
		c.Cases("e", c.N2(2500, 30000), func(i int, r *rand.Rand) {
			s := newTsim(c, r, pickFlavor(r), db.NewMemDB())
			if r.Intn(30) > 0 {
				fill(s, r, 25)
			}
			st := residency(s, r)
			root := rootOf(s.t)
			var probes [][]byte
			probes = append(probes, s.ks.pool...)
			for n := 0; n < 15; n++ {
				probes = append(probes, s.ks.near(r))
			}
			if len(probes) > 70 {
				r.Shuffle(len(probes), func(i, j int) { probes[i], probes[j] = probes[j], probes[i] })
				probes = probes[:70]
			}
			type ep struct {
				k  []byte
				ch trie.ProofChain
			}
			var eps []ep
			for _, k := range probes {
				if len(k) == 0 {
					continue
				}
				_, has := s.m[string(k)]
				ex, ch, err := s.t.GetExistenceProof(k)
				if err != nil {
					c.Violate("existence-error", "GetExistenceProof(%x): %v (%s); %s", k, err, st, s.hist())
					continue
				}
				if has {
					c.Count("present", 1)
				} else {
					c.Count("absent", 1)
				}
				c.Check(ex == has, "existence-flag", "GetExistenceProof(%x) exist=%v want %v (%s); %s", k, ex, has, st, s.hist())
				h, err := ch.ExistenceHash()
				if err != nil || !bytes.Equal(h, root) {
					c.Violate("existence-root", "existence proof of %x hashes to %x,%v, root %x (%s); %s", k, h, err, root, st, s.hist())
				}
				got, err := ch.IsExist(k)
				if err != nil || got != has {
					c.Violate("existence-verdict", "proof of %x says present=%v,%v, stored=%v (%s); %s", k, got, err, has, st, s.hist())
				}
				if vh, err := ch.Exist(nibbles(k)); err == nil && vh != nil && has {
					want := s.f.vh(k, s.m[string(k)])
					c.Check(*vh == want, "existence-valuehash", "existence proof of %x carries value hash %x, stored %x", k, vh[:], want[:])
				}
				pr := trie.Proof{Proofs: ch}
				if vh, err := pr.Exist(nibbles(k)); err != nil || (vh != nil) != has {
					c.Violate("existence-struct", "Proof.Exist(%x)=%v,%v stored=%v", k, vh, err, has)
				}
				if r.Intn(10) == 0 {
					encodings(c, ch, s.hist())
				}
				eps = append(eps, ep{k, ch})
				c.Case(true, fmt.Sprintf("%s %x of %s", st, k, opsKey(s)))
			}
			c.Check(bytes.Equal(root, rootOf(s.t)), "existence-changes-root", "GetExistenceProof changed the root; %s", s.hist())
			// genuine proofs and mutants probed with other keys: never a wrong verdict under the right root
			if len(eps) == 0 {
				return
			}
			judge := func(ch trie.ProofChain, k []byte, what string, orig []byte) {
				h, err := ch.ExistenceHash()
				if err != nil || !bytes.Equal(h, root) {
					return
				}
				c.Count("verdicts_under_root", 1)
				got, err := ch.IsExist(k)
				if err != nil {
					return
				}
				if _, has := s.m[string(k)]; got != has {
					c.Violate("forged-verdict", "%s of the proof of %x verifies under root %x and claims present=%v for %x, stored=%v; %s; %s", what, orig, root, got, k, has, ch, s.hist())
				}
			}
			for n := 0; n < 25; n++ {
				e := eps[r.Intn(len(eps))]
				judge(e.ch, eps[r.Intn(len(eps))].k, "genuine use", e.k)
			}
			for n := 0; n < 25; n++ {
				e := eps[r.Intn(len(eps))]
				m, what, _ := mutateChain(r, e.ch, eps[r.Intn(len(eps))].ch)
				if len(m) == 0 {
					continue
				}
				c.Count("mutants", 1)
				if h, err := m.ExistenceHash(); err != nil || !bytes.Equal(h, root) {
					continue
				}
				c.Count("mutants_still_verifying", 1)
				judge(m, e.k, what, e.k)
				for q := 0; q < 12; q++ {
					judge(m, eps[r.Intn(len(eps))].k, what, e.k)
				}
				// keys that follow the path the mutant now spells
				p := chainPath(m)
				if len(p)%2 == 1 {
					p = append(p, byte(r.Intn(16)))
				}
				k := make([]byte, len(p)/2)
				for x := range k {
					k[x] = p[2*x]<<4 | p[2*x+1]&15
				}
				if len(k) > 0 {
					judge(m, k, what, e.k)
				}
			}
		})
	})
}

// ---- independent merkle definitions ----

func kk(a, b []byte) []byte { return keccak(a, b) }

func refComplete(leaves [][]byte) [][][]byte {
	n := 2
	for n < len(leaves) {
		n *= 2
	}
	l := make([][]byte, n)
	for i := range l {
		if i < len(leaves) {
			l[i] = leaves[i]
		} else {
			l[i] = common.NilHashSlice
		}
	}
	levels := [][][]byte{l}
	for len(l) > 1 {
		var nx [][]byte
		for i := 0; i < len(l); i += 2 {
			nx = append(nx, kk(l[i], l[i+1]))
		}
		levels = append(levels, nx)
		l = nx
	}
	return levels
}

func refPacked(leaves [][]byte) [][][]byte {
	n, depth := 2, 1
	for n < len(leaves) {
		n *= 2
		depth++
	}
	l := append([][]byte{}, leaves...)
	var levels [][][]byte
	for d := 0; d < depth; d++ {
		if len(l)%2 == 1 {
			l = append(l, common.NilHashSlice)
		}
		levels = append(levels, l)
		var nx [][]byte
		for i := 0; i < len(l); i += 2 {
			nx = append(nx, kk(l[i], l[i+1]))
		}
		l = nx
	}
	return append(levels, l)
}

func checkMerkleProof(c *mon.Ctx, what string, mp *common.MerkleProofs, levels [][][]byte, idx int, r *rand.Rand) {
	root := levels[len(levels)-1][0]
	leaf := common.BytesToHash(levels[0][idx])
	got, err := mp.Proof(leaf)
	if err != nil || !bytes.Equal(got, root) {
		c.Violate(what+"-proof", "%s of %d leaves index %d: proof gives %x,%v, root %x; %s", what, len(levels[0]), idx, got, err, root, mp)
		return
	}
	depth := len(levels) - 1
	if mp.Len() != depth {
		c.Violate(what+"-len", "%s proof length %d, depth %d", what, mp.Len(), depth)
		return
	}
	key := new(big.Int)
	pos := mp.BigKey(key, 0)
	c.Check(pos == depth && key.Cmp(big.NewInt(int64(idx))) == 0, what+"-bigkey", "%s proof of index %d spells key %s at %d", what, idx, key, pos)
	off := 3
	key2 := new(big.Int)
	c.Check(mp.BigKey(key2, off) == depth+off && new(big.Int).Rsh(key2, uint(off)).Cmp(key) == 0, what+"-bigkey-offset", "BigKey at offset: %s vs %s", key2, key)
	items, err := mp.ToItems()
	if err != nil || len(items) != depth {
		c.Violate(what+"-items", "ToItems: %d,%v", len(items), err)
		return
	}
	x := idx
	for d := 0; d < depth; d++ {
		sib := levels[d][x^1]
		left := x&1 == 1
		h, order, err := mp.Get(d)
		if err != nil || !bytes.Equal(h[:], sib) || order != left {
			c.Violate(what+"-get", "%s %d leaves idx %d: Get(%d)=%x,%v,%v want %x,%v", what, len(levels[0]), idx, d, h[:], order, err, sib, left)
		}
		if !bytes.Equal(items[d].Val[:], sib) || items[d].Order != left || mp.Order(d) != left {
			c.Violate(what+"-item", "%s item %d wrong", what, d)
		}
		x >>= 1
	}
	if len(mp.Repeats) > 0 {
		c.Count("repeats", 1)
		c.Check(mp.Repeats.IsValid(), "repeats-valid", "repeats %v of a genuine proof reported invalid", mp.Repeats)
		for _, m := range mp.Repeats {
			if tm, ok := mp.Repeats.Find(m.Index); !ok || tm != m.Times {
				c.Violate("repeats-find", "Find(%d)=%d,%v want %d", m.Index, tm, ok, m.Times)
			}
		}
	}
	stopped(c, r, what+"-stopped", mp.Iterate)
	// wrong leaf
	bad := leaf
	bad[r.Intn(32)] ^= byte(1 + r.Intn(255))
	if g, err := mp.Proof(bad); err == nil && bytes.Equal(g, root) {
		c.Violate(what+"-wrong-leaf", "proof verifies for a different leaf")
	}
	// encodings, any chunking
	var buf bytes.Buffer
	if err := mp.Serialization(&buf); err != nil {
		c.Violate("mp-serialize", "%v", err)
		return
	}
	enc := mon.Clone(buf.Bytes())
	brokenWriter(c, r, "mp-writer", enc, mp.Serialization)
	brokenWriter(c, r, "mp-writer-nil", []byte{rtl.NilOrFalse}, (*common.MerkleProofs)(nil).Serialization)
	brokenReader(c, r, "mp-reader", enc, func(rd io.Reader) error {
		_, err := new(common.MerkleProofs).Deserialization(rd)
		return err
	})
	for k := 0; k < 2; k++ {
		cr := &chunkReader{b: append(mon.Clone(enc), 0xee, 0xff), r: r, m: []int{1, 2, 3, 7, 40, 1000}[r.Intn(6)]}
		var back common.MerkleProofs
		nilv, err := back.Deserialization(cr)
		if err != nil || nilv || !mp.Equal(&back) || len(cr.b) != 2 {
			c.Violate("mp-decode", "proof decoded through a chunked reader: %v nil=%v equal=%v rest=%d; %x", err, nilv, mp.Equal(&back), len(cr.b), enc)
		}
		c.Count("chunked_decodes", 1)
	}
	// truncated encodings are rejected
	cut := r.Intn(len(enc))
	var tr common.MerkleProofs
	if _, err := tr.Deserialization(bytes.NewReader(enc[:cut])); err == nil {
		c.Violate("mp-truncated", "truncated proof encoding (%d of %d bytes) accepted: %x", cut, len(enc), enc[:cut])
	}
	b, err := rtl.Marshal(mp)
	back := new(common.MerkleProofs)
	if err == nil {
		err = rtl.Unmarshal(b, back)
	}
	c.Check(err == nil && mp.Equal(back), "mp-rtl", "rtl round trip: %v", err)
	j, err := json.Marshal(mp)
	jb := new(common.MerkleProofs)
	if err == nil {
		err = json.Unmarshal(j, jb)
	}
	c.Check(err == nil && mp.Equal(jb), "mp-json", "json round trip: %v %s", err, j)
	cl := mp.Clone()
	c.Check(cl.Equal(mp), "mp-clone", "clone differs")
	if len(cl.Hashs) > 0 {
		cl.Hashs[0][0] ^= 1
		c.Check(!cl.Equal(mp), "mp-clone-alias", "clone shares hashes")
		cl.Hashs[0][0] ^= 1
		cl.Paths.SetBit(cl.Paths, 0, 1-cl.Paths.Bit(0))
		c.Check(!cl.Equal(mp), "mp-clone-alias", "clone shares paths")
	}
	c.Count("proofs", 1)
}

// brokenWriter: an encoder whose writer fails (for good, or only once) must report it.
func brokenWriter(c *mon.Ctx, r *rand.Rand, sig string, enc []byte, f func(w io.Writer) error) {
	fw := &faultWriter{limit: -1, once: 1 + r.Intn(6)}
	if r.Intn(2) == 0 {
		fw = &faultWriter{limit: r.Intn(len(enc))}
	}
	err := f(fw)
	failed := fw.limit >= 0 || fw.calls >= fw.once
	c.Count("broken_writers", 1)
	if failed != (err != nil) {
		c.Violate(sig, "writer failed: %v (limit %d, call %d of %d), reported: %v; %x", failed, fw.limit, fw.once, fw.calls, err, enc)
	}
	if failed && !bytes.HasPrefix(enc, fw.b) || !failed && !bytes.Equal(enc, fw.b) {
		c.Violate(sig+"-bytes", "written %x of %x", fw.b, enc)
	}
}

// brokenReader: a decoder whose reader fails once, going on afterwards, must report it.
func brokenReader(c *mon.Ctx, r *rand.Rand, sig string, enc []byte, f func(rd io.Reader) error) {
	fr := &flakyReader{chunkReader: chunkReader{b: mon.Clone(enc), r: r, m: []int{1, 3, 40, 1000}[r.Intn(4)]}, at: r.Intn(8)}
	err := f(fr)
	if fr.at >= 0 { // it was not reached
		c.Check(err == nil, sig, "decoding %x: %v", enc, err)
		return
	}
	c.Count("broken_readers", 1)
	c.Check(err != nil, sig, "the reader failed, reported: %v; %x", err, enc)
}

type flakyReader struct {
	chunkReader
	at int
}

func (f *flakyReader) Read(p []byte) (int, error) {
	f.at--
	if f.at == -1 {
		return 0, errors.New("broken reader")
	}
	return f.chunkReader.Read(p)
}

func same2(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// stopped: a walk whose callback fails reports it and goes no further.
func stopped(c *mon.Ctx, r *rand.Rand, sig string, walk func(f func(val []byte, order bool) error) error) {
	n := 0
	if err := walk(func([]byte, bool) error { n++; return nil }); err != nil || n == 0 {
		c.Check(err == nil, sig, "walk: %v", err)
		return
	}
	at, calls := r.Intn(n), 0
	err := walk(func([]byte, bool) error {
		calls++
		if calls > at {
			return errors.New("stop")
		}
		return nil
	})
	c.Count("stopped_walks", 1)
	c.Check(err != nil && calls == at+1, sig, "callback %d of %d failed, %d calls made, reported: %v", at+1, n, calls, err)
}

// moreTimes compares a repeat list with its written-out form: the indexes in order, each as many
// times as it is meant to occur.
func moreTimes(c *mon.Ctx, r *rand.Rand) {
	extra := map[int]int{}
	var ms common.MoreTimes
	var log []int
	hi := 0
	for k := r.Intn(12); k > 0; k-- {
		idx := hi + r.Intn(3)
		if r.Intn(8) == 0 { // earlier indexes and negative ones cannot be added any more
			idx = hi - 1 - r.Intn(3)
		}
		log = append(log, idx)
		ms = ms.Append(idx)
		if len(extra) == 0 && idx >= 0 || len(extra) > 0 && idx >= hi {
			extra[idx]++
			hi = idx
		}
	}
	c.Case(len(extra) > 1, fmt.Sprint("repeats ", log))
	c.Count("repeat_lists", 1)
	total, last := 0, -1
	var full []int
	for idx := 0; idx < hi+4; idx++ {
		n, ok := ms.Find(idx)
		c.Check(n == extra[idx] && ok == (extra[idx] > 0), "repeats-find", "after %v index %d repeats %d %v, want %d", log, idx, n, ok, extra[idx])
		total += extra[idx]
		for k := 0; k <= extra[idx]; k++ {
			full = append(full, idx)
		}
	}
	for _, m := range ms {
		c.Check(m.IsValid() && m.Index > last, "repeats-order", "after %v: %v", log, ms)
		last = m.Index
	}
	c.Check(ms.Count() == total && len(ms) == len(extra) && ms.IsValid(), "repeats-count", "after %v: %v counts %d, want %d in %d", log, ms, ms.Count(), total, len(extra))
	for k, idx := range full {
		if g := ms.GetHashsIndex(k); g != idx {
			c.Violate("repeats-index", "after %v position %d is hash %d, want %d", log, k, g, idx)
		}
	}
	cl := ms.Clone()
	c.Check(cl.Equal(ms) && ms.Equal(cl) && (ms == nil) == (cl == nil), "repeats-clone", "clone of %v is %v", ms, cl)
	cl = cl.Append(hi)
	n, _ := ms.Find(hi)
	c.Check(n == extra[hi] && !cl.Equal(ms) && !ms.Equal(cl), "repeats-clone-alias", "adding to the clone gives %v and %v", cl, ms)
	// lists that are not allowed
	if len(ms) > 0 {
		j := r.Intn(len(ms))
		for what := 0; what < 3; what++ {
			bad := ms.Clone()
			switch what {
			case 0:
				bad[j].Times = -r.Intn(2)
			case 1:
				bad[j].Index = -1
			case 2:
				bad = append(bad, common.MoreTime{Index: bad[j].Index, Times: 1})
			}
			c.Check(!bad.IsValid() && !bad.Equal(ms), "repeats-invalid", "%v passes as valid or equal to %v", bad, ms)
		}
	}
	// whole proofs: equal only in every part
	var p common.MerkleProofs
	for k := r.Intn(3); k > 0; k-- {
		p.Hashs = append(p.Hashs, randHash(r))
	}
	p.Paths = big.NewInt(int64(r.Intn(8)))
	p.Repeats = ms
	o := p.Clone()
	var none *common.MerkleProofs
	c.Check(p.Equal(o) && o.Equal(&p) && !p.Equal(nil) && !none.Equal(o) && none.Equal(nil) && none.Clone() == nil && none.Len() == 0, "proofs-equal", "%v and its clone %v", p, o)
	switch r.Intn(4) {
	case 0:
		o.Hashs = append(o.Hashs, randHash(r))
	case 1:
		o.Paths = big.NewInt(o.Paths.Int64() + 1)
	case 2:
		if o.Repeats = o.Repeats.Append(hi + 1); r.Intn(2) == 0 {
			o.Repeats = nil
			if p.Repeats == nil {
				o.Paths = nil
			}
		}
	default:
		if len(o.Hashs) > 0 {
			o.Hashs[r.Intn(len(o.Hashs))][r.Intn(32)] ^= 1
		} else {
			o.Paths = nil
		}
	}
	c.Check(!p.Equal(o) && !o.Equal(&p), "proofs-equal-changed", "%v equals the changed %v", p, o)
	// the key the path spells, laid into a larger one
	if len(p.Hashs) > 0 {
		at := r.Intn(20)
		key := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), 60))
		want := new(big.Int).Set(key)
		for k := 0; k < p.Len(); k++ {
			want.SetBit(want, at+k, p.Paths.Bit(k))
		}
		end := p.BigKey(key, at)
		c.Check(end == at+p.Len() && key.Cmp(want) == 0, "BigKey", "key %x up to %d, want %x up to %d", key, end, want, at+p.Len())
	}
}

func runT08(c *mon.Ctx) {
	c.Section("merkle", func(_ *rand.Rand) {
		maxN := c.N2(40, 140)
		c.Cases("m", maxN*c.N2(30, 60), func(i int, r *rand.Rand) {
			n := i % (maxN + 1)
			mode := r.Intn(5)
			leaves := make([][]byte, n, n+r.Intn(3))
			h0 := randHash(r)
			for k := range leaves {
				switch {
				case mode == 1:
					leaves[k] = mon.Clone(h0[:])
				case mode == 2 && r.Intn(3) == 0:
					leaves[k] = mon.Clone(common.NilHashSlice)
				case mode == 3:
					leaves[k] = mon.Clone(common.NilHashSlice)
				default:
					h := randHash(r)
					leaves[k] = h[:]
				}
			}
			keep := fmt.Sprintf("%x", leaves)
			c.Count("lists", 1)
			if n == 0 {
				for _, f := range []func([][]byte, int, *common.MerkleProofs) ([]byte, error){common.MerkleHash, common.MerkleHashComplete, common.MerkleHashCompleteOld} {
					h, err := f(leaves, -1, nil)
					c.Check(err == nil && bytes.Equal(h, common.NilHashSlice), "empty", "merkle hash of nothing %x %v", h, err)
				}
				return
			}
			lc, lp := refComplete(leaves), refPacked(leaves)
			for _, v := range []struct {
				name string
				f    func([][]byte, int, *common.MerkleProofs) ([]byte, error)
				lv   [][][]byte
			}{{"complete", common.MerkleHashComplete, lc}, {"completeOld", common.MerkleHashCompleteOld, lc}, {"packed", common.MerkleHash, lp}} {
				want := v.lv[len(v.lv)-1][0]
				got, err := v.f(leaves, -1, nil)
				if err != nil || !bytes.Equal(got, want) {
					c.Violate(v.name+"-root", "%s root of %d leaves = %x,%v want %x", v.name, n, got, err, want)
				}
				c.Check(keep == fmt.Sprintf("%x", leaves), v.name+"-mutates", "%s changed its input list", v.name)
				idxs := []int{0, n - 1, r.Intn(n), r.Intn(n)}
				if n <= 9 {
					idxs = nil
					for k := 0; k < n; k++ {
						idxs = append(idxs, k)
					}
				}
				for _, idx := range idxs {
					mp := common.NewMerkleProofs()
					got, err := v.f(leaves, idx, mp)
					if err != nil || !bytes.Equal(got, want) {
						c.Violate(v.name+"-root", "%s root with proof of %d/%d = %x,%v want %x", v.name, idx, n, got, err, want)
					}
					checkMerkleProof(c, v.name, mp, v.lv, idx, r)
				}
				// a different leaf or order gives a different root
				k := r.Intn(n)
				alt := append([][]byte{}, leaves...)
				x := randHash(r)
				alt[k] = x[:]
				if g, _ := v.f(alt, -1, nil); bytes.Equal(g, want) {
					c.Violate(v.name+"-leaf-ignored", "changing leaf %d of %d keeps the root", k, n)
				}
				k2 := r.Intn(n)
				if !bytes.Equal(leaves[k], leaves[k2]) {
					alt = append([][]byte{}, leaves...)
					alt[k], alt[k2] = alt[k2], alt[k]
					if g, _ := v.f(alt, -1, nil); bytes.Equal(g, want) {
						c.Violate(v.name+"-order-ignored", "swapping leaves %d,%d of %d keeps the root", k, k2, n)
					}
				}
			}
			// value helpers
			vals := make([][]byte, n)
			var hs [][]byte
			for k := range vals {
				vals[k] = make([]byte, r.Intn(40))
				r.Read(vals[k])
				if len(vals[k]) == 0 {
					hs = append(hs, common.NilHashSlice)
				} else {
					hs = append(hs, keccak(vals[k]))
				}
			}
			idx := r.Intn(n)
			mp := common.NewMerkleProofs()
			if g, err := common.SlicesMerkleHash(vals, idx, mp); err != nil || !bytes.Equal(g, last3(refPacked(hs))) {
				c.Violate("slices-root", "SlicesMerkleHash %x %v", g, err)
			} else {
				checkMerkleProof(c, "slices", mp, refPacked(hs), idx, r)
			}
			mp = common.NewMerkleProofs()
			if g, err := common.SlicesMerkleHashComplete(vals, idx, mp); err != nil || !bytes.Equal(g, last3(refComplete(hs))) {
				c.Violate("slices-complete-root", "SlicesMerkleHashComplete %x %v", g, err)
			} else {
				checkMerkleProof(c, "slicesComplete", mp, refComplete(hs), idx, r)
			}
			nums := make([]uint64, n)
			hs = nil
			for k := range nums {
				nums[k] = r.Uint64()
				h, err := common.HashObject(nums[k])
				if err != nil {
					c.Violate("hashobject", "%v", err)
				}
				hs = append(hs, h)
			}
			mp = common.NewMerkleProofs()
			if g, err := common.ValuesMerkleHash(nums, idx, mp); err != nil || !bytes.Equal(g, last3(refPacked(hs))) {
				c.Violate("values-root", "ValuesMerkleHash %x %v", g, err)
			} else {
				checkMerkleProof(c, "values", mp, refPacked(hs), idx, r)
			}
			mp = common.NewMerkleProofs()
			if g, err := common.ValuesMerkleTreeHash(nums, idx, mp); err != nil || !bytes.Equal(g, last3(refComplete(hs))) {
				c.Violate("valuestree-root", "ValuesMerkleTreeHash %x %v", g, err)
			} else {
				checkMerkleProof(c, "valuesTree", mp, refComplete(hs), idx, r)
			}
			// what cannot be encoded cannot be hashed, wherever it stands
			odd := make([]interface{}, n)
			for k := range odd {
				odd[k] = nums[k]
			}
			if hs2, err := common.ValuesToHashs(odd); err != nil || !same2(hs2, hs) {
				c.Violate("values-hashes", "ValuesToHashs of %v: %x, %v", odd, hs2, err)
			}
			odd[r.Intn(n)] = make(chan int)
			if hs2, err := common.ValuesToHashs(odd); err == nil {
				c.Violate("values-unhashable", "ValuesToHashs of %v: %x", odd, hs2)
			}
			if g, err := common.ValuesMerkleHash(odd, idx, nil); err == nil {
				c.Violate("values-unhashable", "ValuesMerkleHash of %v: %x", odd, g)
			}
			if g, err := common.ValuesMerkleTreeHash(odd, idx, nil); err == nil {
				c.Violate("values-unhashable", "ValuesMerkleTreeHash of %v: %x", odd, g)
			}
			c.Count("unhashable", 1)
			c.Case(n >= 3, fmt.Sprintf("n=%d mode=%d %s", n, mode, mon.Hex(leaves[0])))
		})
	})
	c.Section("repeats", func(_ *rand.Rand) {
		c.Cases("r", c.N2(3000, 40000), func(i int, r *rand.Rand) { moreTimes(c, r) })
	})
	c.Section("synthetic", func(_ *rand.Rand) {
		// proofs built by Append with long runs of equal hashes
		c.Cases("s", c.N2(3000, 40000), func(i int, r *rand.Rand) {
			mp := common.NewMerkleProofs()
			var hs []common.Hash
			var or []bool
			pal := []common.Hash{randHash(r), randHash(r), common.BytesToHash(common.NilHashSlice)}
			n := 1 + r.Intn(40)
			for k := 0; k < n; k++ {
				h := pal[r.Intn(3)]
				if k > 0 && r.Intn(2) == 0 {
					h = hs[k-1]
				}
				o := r.Intn(2) == 0
				mp.Append(h, o)
				hs, or = append(hs, h), append(or, o)
			}
			c.Check(mp.Len() == n, "append-len", "Len=%d after %d appends", mp.Len(), n)
			c.Check(mp.Repeats.IsValid(), "repeats-valid", "repeats %v of a proof built by Append reported invalid", mp.Repeats)
			key := new(big.Int)
			for k := range hs {
				h, o, err := mp.Get(k)
				if err != nil || h != hs[k] || o != or[k] {
					c.Violate("append-get", "Get(%d)=%x,%v,%v want %x,%v repeats %v", k, h[:], o, err, hs[k][:], or[k], mp.Repeats)
				}
				if or[k] {
					key.SetBit(key, k, 1)
				}
			}
			if _, _, err := mp.Get(n); err == nil {
				c.Violate("get-beyond", "Get(%d) of a proof of length %d gives no error", n, n)
			}
			got := new(big.Int)
			mp.BigKey(got, 0)
			c.Check(got.Cmp(key) == 0, "append-bigkey", "BigKey %s want %s", got, key)
			leaf := randHash(r)
			want := leaf[:]
			for k := range hs {
				if or[k] {
					want = keccak(hs[k][:], want)
				} else {
					want = keccak(want, hs[k][:])
				}
			}
			g, err := mp.Proof(leaf)
			c.Check(err == nil && bytes.Equal(g, want), "append-proof", "Proof=%x,%v want %x", g, err, want)
			var buf bytes.Buffer
			_ = mp.Serialization(&buf)
			var back common.MerkleProofs
			_, err = back.Deserialization(&chunkReader{b: mon.Clone(buf.Bytes()), r: r, m: 1 + r.Intn(40)})
			c.Check(err == nil && back.Equal(mp), "append-decode", "decode %v", err)
			c.Count("chunked_decodes", 1)
			c.Count("repeats", int64(len(mp.Repeats)))
			c.Case(len(mp.Repeats) > 0, fmt.Sprintf("append %d repeats %v", n, mp.Repeats))
		})
	})
}

func last3(l [][][]byte) []byte { return l[len(l)-1][0] }

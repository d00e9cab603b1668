package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"

	"verif/harness/mon"
)

// refHistory is the independent definition of a history tree: a complete binary tree over 64-bit
// heights in which an absent right subtree counts as the nil hash. It keeps, for the last height,
// the complete left siblings on its path.
type refHistory struct {
	first uint64
	next  uint64
	vals  map[uint64][]byte
	left  [64][]byte // complete left sibling at level i of the path of next-1 (meaningful where bit i is 1)
	last  []byte
}

func newRefHistory() *refHistory { return &refHistory{vals: map[uint64][]byte{}} }

func (m *refHistory) clone() *refHistory {
	n := *m
	n.vals = make(map[uint64][]byte, len(m.vals))
	for k, v := range m.vals {
		n.vals[k] = v
	}
	return &n
}

func (m *refHistory) append(v []byte) {
	if m.last != nil {
		// fold the previous last leaf into the left siblings
		k := m.next - 1
		h := m.last
		for i := 0; i < 64; i++ {
			if k>>uint(i)&1 == 0 {
				m.left[i] = h
				break
			}
			h = keccak(m.left[i], h)
		}
	}
	m.vals[m.next] = v
	m.last = v
	m.next++
}

func (m *refHistory) root() []byte {
	if m.last == nil {
		return common.NilHashSlice
	}
	k := m.next - 1
	h := m.last
	for i := 0; i < 64; i++ {
		if k>>uint(i)&1 == 0 {
			h = keccak(h, common.NilHashSlice)
		} else {
			h = keccak(m.left[i], h)
		}
	}
	return h
}

// histSim drives one history tree with its model.
type histSim struct {
	c   *mon.Ctx
	d   db.Database
	t   *trie.HistoryTree
	m   *refHistory
	log []string
}

func (s *histSim) rec(format string, a ...interface{}) {
	s.log = append(s.log, fmt.Sprintf(format, a...))
	if len(s.log) > 200 {
		s.log = append([]string{"…"}, s.log[100:]...)
	}
}
func (s *histSim) hist() string {
	return fmt.Sprintf("first=%d next=%d %v", s.m.first, s.m.next, s.log)
}

var histPrefix = []byte("ht")

func openHist(c *mon.Ctx, d db.Database, root []byte, check bool) *trie.HistoryTree {
	t, err := trie.NewHistoryTree(d, histPrefix, root, check)
	if err != nil {
		c.Violate("open", "NewHistoryTree(%x): %v", root, err)
		return nil
	}
	return t
}

func newHistSim(c *mon.Ctx, d db.Database) *histSim {
	s := &histSim{c: c, d: d, m: newRefHistory()}
	s.t = openHist(c, d, nil, true)
	return s
}

// syntheticHist restores a tree whose only known height is k, with random complete left siblings.
func syntheticHist(c *mon.Ctx, r *rand.Rand, d db.Database, k uint64) *histSim {
	s := &histSim{c: c, d: d, m: newRefHistory()}
	v := randHash(r)
	s.m.first, s.m.next, s.m.last = k, k+1, v[:]
	s.m.vals[k] = v[:]
	mp := common.NewMerkleProofs()
	for i := 0; i < 64; i++ {
		if k>>uint(i)&1 == 0 {
			mp.Append(common.BytesToHash(common.NilHashSlice), false)
		} else {
			h := randHash(r)
			s.m.left[i] = h[:]
			mp.Append(h, true)
		}
	}
	pc := trie.ProofChain{trie.NewMerkleOnlyProof(trie.ProofMerkleOnly, mp)}
	t, err := trie.RestoreTreeFromProofs(d, histPrefix, k, v[:], pc)
	if err != nil {
		c.Violate("restore", "RestoreTreeFromProofs(%d): %v", k, err)
		return nil
	}
	s.t = t
	s.rec("restore(%d)", k)
	return s
}

func (s *histSim) append(r *rand.Rand) {
	v := randHash(r)
	buf := mon.Clone(v[:])
	if err := s.t.Append(s.m.next, buf); err != nil {
		s.c.Violate("append", "Append(%d): %v; %s", s.m.next, err, s.hist())
		return
	}
	for i := range buf {
		buf[i] = 0xee
	}
	s.m.append(v[:])
}

func (s *histSim) get(k uint64) {
	v, ok := s.t.Get(k)
	want, has := s.m.vals[k]
	if !has && k < s.m.first { // dropped or never known here: only a wrong value is wrong
		if ok && v != nil {
			s.c.Count("unknown_low", 1)
		}
		return
	}
	if ok != has || !bytes.Equal(v, want) {
		s.c.Violate("get", "Get(%d)=%x,%v want %x,%v; %s", k, v, ok, want, has, s.hist())
	}
	if s.t.Has(k) != has {
		s.c.Violate("has", "Has(%d)=%v want %v; %s", k, !has, has, s.hist())
	}
	for i := range v { // the returned slice is the caller's
		v[i] ^= 0xff
	}
}

func (s *histSim) checkRoot() {
	h, err := s.t.HashValue()
	if err != nil || !bytes.Equal(h, s.m.root()) {
		s.c.Violate("root", "root %x,%v want %x; %s", h, err, s.m.root(), s.hist())
	}
	for i := range h {
		h[i] ^= 0xff
	}
	if e := s.t.Expecting(); e != s.m.next {
		s.c.Violate("expecting", "Expecting=%d want %d; %s", e, s.m.next, s.hist())
	}
}

func (s *histSim) commit(r *rand.Rand) []byte {
	if r.Intn(2) == 0 {
		if err := s.t.Commit(); err != nil {
			s.c.Violate("commit", "Commit: %v; %s", err, s.hist())
		}
	} else if h, err := s.t.CommitAndHash(); err != nil || !bytes.Equal(h, s.m.root()) {
		s.c.Violate("commit-hash", "CommitAndHash=%x,%v want %x; %s", h, err, s.m.root(), s.hist())
	}
	s.rec("commit@%d", s.m.next)
	return s.m.root()
}

func (s *histSim) reopen(r *rand.Rand) {
	root := s.commit(r)
	t, err := trie.NewHistoryTree(s.d, histPrefix, root, false)
	if err != nil {
		s.c.Violate("reopen", "NewHistoryTree(%x): %v; %s", root, err, s.hist())
		return
	}
	s.t = t
	s.rec("reopen")
}

// someKeys picks heights worth reading.
func (s *histSim) someKeys(r *rand.Rand) []uint64 {
	n := s.m.next
	ks := []uint64{n, n + 1, n + 16, n | 0xff, n << 4, n >> 4, ^uint64(0), s.m.first}
	if n > 0 {
		ks = append(ks, n-1)
	}
	span := n - s.m.first
	for i := 0; i < 8 && span > 0; i++ {
		ks = append(ks, s.m.first+uint64(r.Int63n(int64(span))))
	}
	return ks
}

func boundaryHeight(r *rand.Rand) uint64 {
	sh := uint(4 * (1 + r.Intn(14)))
	base := uint64(1+r.Intn(15)) << sh
	if r.Intn(3) == 0 {
		base |= uint64(r.Int63()) >> (64 - sh) << 4
		base = base &^ 0xf
	}
	if r.Intn(6) == 0 {
		return uint64(r.Int63()) >> uint(r.Intn(60))
	}
	return base - uint64(r.Intn(20)) + uint64(r.Intn(20))
}

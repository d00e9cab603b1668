package checks

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/stephenfire/go-rtl"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "C06",
		Rule:  "seeded histories of adds, removes, clones, sorts, encodings and hashes on chain descriptions with a small pool of nodes, admins and attributes, against plain sets; two descriptions given the same content in different orders compared; non-trivial when an element was added twice or removed after being added",
		Floor: map[string]int64{"ops": 100000, "readds": 2000, "removes": 5000, "hash_pairs": 3000, "clones": 2000}, Run: runC06})
}

// chainModel is what a chain description must hold.
type chainModel struct {
	boots map[common.NodeID]common.Dataserver
	datas map[common.NodeID]bool
}

func fmtChain(ci *common.ChainInfos) string {
	b, _ := json.Marshal(ci)
	return string(b)
}

func runC06(c *mon.Ctx) {
	c.Cases("history", c.N2(2500, 25000), func(i int, r *rand.Rand) { chainHistory(c, r) })
	c.Cases("content", c.N2(2500, 25000), func(i int, r *rand.Rand) { chainContent(c, r) })
	c.Cases("attrs", c.N2(3000, 30000), func(i int, r *rand.Rand) { attrCase(c, r) })
	c.Cases("nodeids", c.N2(3000, 30000), func(i int, r *rand.Rand) { nodeIDSets(c, r) })
	c.Cases("structs", c.N2(500, 5000), func(i int, r *rand.Rand) { chainStructs(c, r) })
}

func nodePool(r *rand.Rand, n int) []common.NodeID {
	p := make([]common.NodeID, n)
	for i := range p {
		r.Read(p[i][:])
		if r.Intn(2) == 0 { // close neighbours
			p[i] = p[r.Intn(i+1)]
			p[i][63-r.Intn(2)] = byte(i)
			p[i][62] ^= byte(r.Intn(2))
		}
	}
	return p
}

func mkServer(r *rand.Rand, chain uint32, id common.NodeID) common.Dataserver {
	return common.Dataserver{ChainID: chain, NodeIDString: hex.EncodeToString(id[:]), IP: fmt.Sprintf("10.0.0.%d", r.Intn(256)),
		BasicPort: uint16(r.Intn(65536)), ConsensusPort0: uint16(r.Intn(65536)), ConsensusPort1: uint16(r.Intn(65536)),
		DataPort0: uint16(r.Intn(65536)), DataPort1: uint16(r.Intn(65536)), DataRpcPort: uint16(r.Intn(65536))}
}

func chainHistory(c *mon.Ctx, r *rand.Rand) {
	chain := uint32(r.Intn(5))
	ci := &common.ChainInfos{ChainStruct: common.ChainStruct{ID: common.ChainID(chain), ParentID: 0, Mode: common.Branch}, Version: uint16(r.Intn(2))}
	m := chainModel{boots: map[common.NodeID]common.Dataserver{}, datas: map[common.NodeID]bool{}}
	pool := nodePool(r, 2+r.Intn(8))
	pool = dedupIDs(pool)
	for _, id := range pool {
		if r.Intn(3) == 0 {
			ci.GenesisDatas = append(ci.GenesisDatas, id)
		}
		if r.Intn(3) == 0 {
			ci.Auditors = append(ci.Auditors, id)
		}
	}
	gen, aud := ci.GenesisDatas.ToMap(), ci.Auditors.ToMap()
	type held struct {
		ci   *common.ChainInfos
		json string
		hash []byte
	}
	var clones []held
	var trace []string
	readd, removed := false, false
	n := 10 + r.Intn(40)
	for k := 0; k < n; k++ {
		id := pool[r.Intn(len(pool))]
		c.Count("ops", 1)
		switch op := r.Intn(10); op {
		case 0, 1:
			s := mkServer(r, chain, id)
			_, had := m.boots[id]
			ok := ci.AddBootNode(s)
			trace = append(trace, fmt.Sprintf("AddBootNode(%x)=%v", id[60:], ok))
			c.Check(ok == !had, "AddBootNode-result", "%v", trace)
			if !had {
				m.boots[id] = s
			} else {
				readd = true
			}
		case 2:
			_, had := m.boots[id]
			empty := len(m.boots) == 0
			ok := ci.RemoveBootNode(id)
			trace = append(trace, fmt.Sprintf("RemoveBootNode(%x)=%v", id[60:], ok))
			if !empty {
				c.Check(ok == had, "RemoveBootNode-result", "%v", trace)
			}
			removed = removed || had
			delete(m.boots, id)
		case 3, 4, 5:
			had := m.datas[id]
			ok := ci.AddDataNode(id)
			trace = append(trace, fmt.Sprintf("AddDataNode(%x)=%v", id[60:], ok))
			c.Check(ok == !had, "AddDataNode-result", "%v", trace)
			m.datas[id] = true
			readd = readd || had
		case 6:
			had := m.datas[id]
			empty := len(m.datas) == 0
			ok := ci.RemoveDataNode(id)
			trace = append(trace, fmt.Sprintf("RemoveDataNode(%x)=%v", id[60:], ok))
			if !empty {
				c.Check(ok == had, "RemoveDataNode-result", "%v", trace)
			}
			removed = removed || had
			delete(m.datas, id)
		case 7:
			ci.Sort()
			trace = append(trace, "Sort")
		case 8:
			before := fmtChain(ci)
			cl := ci.Clone()
			c.Count("clones", 1)
			c.Check(fmtChain(cl) == before && reflect.DeepEqual(cl, ci), "Clone", "clone differs: %s vs %s", fmtChain(cl), before)
			h1, e1 := ci.HashValue()
			h2, e2 := cl.HashValue()
			c.Check(e1 == nil && e2 == nil && bytes.Equal(h1, h2), "Clone-hash", "%v: %x %x", trace, h1, h2)
			clones = append(clones, held{cl, before, h1})
			if r.Intn(2) == 0 { // work on with the clone, the original is the one that must not change
				clones[len(clones)-1].ci = ci
				ci = cl
			}
			trace = append(trace, "Clone")
		case 9:
			b, err := rtl.Marshal(ci)
			d := new(common.ChainInfos)
			if err == nil {
				err = rtl.Unmarshal(b, d)
			}
			c.Check(err == nil && fmtChain(d) == fmtChain(ci), "rtl-roundtrip", "%v: %s became %s (%v)", trace, fmtChain(ci), fmtChain(d), err)
			js, err := json.Marshal(ci)
			d2 := new(common.ChainInfos)
			if err == nil {
				err = json.Unmarshal(js, d2)
			}
			h1, _ := ci.HashValue()
			h2, _ := d2.HashValue()
			h3, _ := d.HashValue()
			c.Check(err == nil && fmtChain(d2) == fmtChain(ci) && bytes.Equal(h1, h2), "json-roundtrip", "%v: %s became %s (%v) hash %x %x", trace, js, fmtChain(d2), err, h1, h2)
			c.Check(bytes.Equal(h1, h3), "rtl-roundtrip-hash", "%v: %x %x", trace, h1, h3)
		}
		// lists and lookups agree with the sets
		got := map[common.NodeID]bool{}
		for _, d := range ci.Datas {
			got[d] = true
		}
		if len(got) != len(ci.Datas) || !reflect.DeepEqual(got, m.datas) {
			c.Violate("data-nodes", "after %v: data nodes %v", trace, ci.Datas)
			return
		}
		if len(ci.BootNodes) != len(m.boots) {
			c.Violate("boot-nodes", "after %v: boot nodes %v", trace, ci.BootNodes)
			return
		}
		for _, b := range ci.BootNodes {
			id, err := b.GetNodeID()
			c.Check(err == nil && m.boots[*id] == b, "boot-node", "after %v: boot node %v", trace, b)
		}
		for _, id := range pool {
			c.Check(ci.HasDataNode(id) == m.datas[id], "HasDataNode", "after %v: HasDataNode(%x)=%v", trace, id[60:], ci.HasDataNode(id))
			idx := ci.Index(id)
			c.Check((idx >= 0) == m.datas[id] && (idx < 0 || idx < len(ci.Datas) && ci.Datas[idx] == id), "Index", "after %v: Index(%x)=%d", trace, id[60:], idx)
			_, g := gen[id]
			c.Check(ci.IsGenesisDataNode(id) == g, "IsGenesisDataNode", "after %v", trace)
		}
		// auditors = genesis + data + auditors, sorted, no duplicates
		if k%4 == 0 {
			w := map[common.NodeID]struct{}{}
			for id := range gen {
				w[id] = struct{}{}
			}
			for id := range aud {
				w[id] = struct{}{}
			}
			for id := range m.datas {
				w[id] = struct{}{}
			}
			ids := ci.GetAuditorIds()
			c.Check(reflect.DeepEqual(ids.ToMap(), w) && len(ids) == len(w) && sort.IsSorted(ids) && reflect.DeepEqual(ci.GetAuditorMap(), w), "auditors", "after %v: %v", trace, ids)
			c.Check(len(ci.GetDataNodes()) == len(m.datas), "GetDataNodes", "after %v", trace)
		}
		for _, h := range clones {
			if fmtChain(h.ci) != h.json {
				c.Violate("clone-changed", "after %v a separate copy changed from %s to %s", trace, h.json, fmtChain(h.ci))
				return
			}
		}
	}
	for _, h := range clones {
		hv, _ := h.ci.HashValue()
		c.Check(bytes.Equal(hv, h.hash), "clone-hash-changed", "after %v a separate copy's hash changed", trace)
	}
	// a description holding the same content, built without that history, hashes the same
	fresh := &common.ChainInfos{ChainStruct: ci.ChainStruct, Version: ci.Version, GenesisDatas: ci.GenesisDatas.Clone(), Auditors: ci.Auditors.Clone()}
	order := r.Perm(len(pool))
	for _, j := range order {
		if m.datas[pool[j]] {
			fresh.AddDataNode(pool[j])
		}
		if b, ok := m.boots[pool[j]]; ok {
			fresh.AddBootNode(b)
		}
	}
	fresh.Sort()
	ci.Sort()
	hf, e1 := fresh.HashValue()
	hc, e2 := ci.HashValue()
	c.Count("hash_pairs", 1)
	c.Check(e1 == nil && e2 == nil && bytes.Equal(hf, hc), "hash-history", "after %v: hash %x, built afresh %x", trace, hc, hf)
	if readd {
		c.Count("readds", 1)
	}
	if removed {
		c.Count("removes", 1)
	}
	c.Count("removes", 3*int64(b2i(removed)))
	c.Case(readd || removed, strings.Join(trace, " "))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func dedupIDs(p []common.NodeID) []common.NodeID {
	seen := map[common.NodeID]bool{}
	var out []common.NodeID
	for _, id := range p {
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

func randChain(r *rand.Rand, pool []common.NodeID) *common.ChainInfos {
	ci := &common.ChainInfos{
		ChainStruct:  common.ChainStruct{ID: common.ChainID(r.Intn(9)), ParentID: common.ChainID(r.Intn(3)), Mode: common.Shard},
		SecondCoinId: common.CoinID(r.Intn(4)), SecondCoinName: strings.Repeat("c", r.Intn(4)), HaveSecondCoin: r.Intn(2) == 0,
		Election: common.ElectionType(r.Intn(4)), ChainVersion: fmt.Sprint(r.Intn(3)), Syncblock: r.Intn(2) == 0, Version: uint16(r.Intn(2)),
	}
	for _, id := range pool {
		id := id
		if r.Intn(2) == 0 {
			ci.Datas = append(ci.Datas, id)
		}
		if r.Intn(2) == 0 {
			ci.GenesisDatas = append(ci.GenesisDatas, id)
		}
		if r.Intn(2) == 0 {
			ci.GenesisCommIds = append(ci.GenesisCommIds, id)
		}
		if r.Intn(2) == 0 && ci.Version > 0 {
			ci.Auditors = append(ci.Auditors, id)
		}
		if r.Intn(2) == 0 {
			ci.BootNodes = append(ci.BootNodes, mkServer(r, uint32(ci.ID), id))
		}
		if r.Intn(2) == 0 {
			ci.AdminPubs = append(ci.AdminPubs, append([]byte{4}, id[:]...))
		}
	}
	for _, a := range []common.ChainAttr{common.AttrPoC, common.AttrReward, common.AttrNoGas} {
		if r.Intn(2) == 0 {
			ci.Attributes = append(ci.Attributes, a)
		}
	}
	return ci
}

func shuffleChain(r *rand.Rand, ci *common.ChainInfos) {
	r.Shuffle(len(ci.Datas), ci.Datas.Swap)
	r.Shuffle(len(ci.GenesisDatas), ci.GenesisDatas.Swap)
	r.Shuffle(len(ci.Auditors), ci.Auditors.Swap)
	r.Shuffle(len(ci.Attributes), ci.Attributes.Swap)
	r.Shuffle(len(ci.AdminPubs), func(a, b int) { ci.AdminPubs[a], ci.AdminPubs[b] = ci.AdminPubs[b], ci.AdminPubs[a] })
	r.Shuffle(len(ci.BootNodes), func(a, b int) { ci.BootNodes[a], ci.BootNodes[b] = ci.BootNodes[b], ci.BootNodes[a] })
}

func idsHex(ids common.NodeIDs) string {
	var s []string
	for _, id := range ids {
		s = append(s, hex.EncodeToString(id[:]))
	}
	return strings.Join(s, ",")
}

func chainContent(c *mon.Ctx, r *rand.Rand) {
	pool := dedupIDs(nodePool(r, 1+r.Intn(7)))
	a := randChain(r, pool)
	b := a.Clone()
	shuffleChain(r, b)
	a.Sort()
	b.Sort()
	ha, e1 := a.HashValue()
	hb, e2 := b.HashValue()
	c.Count("hash_pairs", 2)
	c.Case(len(a.Datas) > 1, fmtChain(a))
	c.Check(e1 == nil && e2 == nil && bytes.Equal(ha, hb) && fmtChain(a) == fmtChain(b), "hash-order", "the same content listed in another order gives %x and %x:\n%s\n%s", ha, hb, fmtChain(a), fmtChain(b))
	ho, err := common.HashObject(a)
	c.Check(err == nil && bytes.Equal(ho, ha), "HashObject", "%x %x", ho, ha)
	// admins
	if len(a.AdminPubs) > 0 {
		p := a.AdminPubs[r.Intn(len(a.AdminPubs))]
		ad, err := common.AddressFromPubSlice(p)
		c.Check(err == nil && a.PubIsAdmin(p) && a.AddrIsAdmin(ad), "admin", "%x", p)
		q := mon.Clone(p)
		q[1+r.Intn(len(q)-1)] ^= 1
		isA := false
		for _, x := range a.AdminPubs {
			isA = isA || bytes.Equal(x, q)
		}
		adq, _ := common.AddressFromPubSlice(q)
		c.Check(a.PubIsAdmin(q) == isA && a.AddrIsAdmin(adq) == isA, "not-admin", "%x", q)
	}
	if len(a.AdminPubs) > 0 {
		// entries that are no public keys make nobody an admin, and hide nobody
		w := a.Clone()
		p, at := a.AdminPubs[r.Intn(len(a.AdminPubs))], r.Intn(len(a.AdminPubs)+1)
		bad := [][]byte{nil, {}, {4}, make([]byte, 20), p[:40], append(mon.Clone(p), 1)}[r.Intn(6)]
		w.AdminPubs = append(append(append(w.AdminPubs[:0:0], a.AdminPubs[:at]...), bad), a.AdminPubs[at:]...)
		ad, err := common.AddressFromPubSlice(p)
		c.Check(err == nil && w.PubIsAdmin(p) && w.AddrIsAdmin(ad) && !w.AddrIsAdmin(common.Address{}) && !w.PubIsAdmin(nil), "admin-malformed", "%x with %x at %d of %x", p, bad, at, a.AdminPubs)
	}
	c.Check(!a.PubIsAdmin(nil) && !a.PubIsAdmin([]byte{}), "nil-admin", "nil is admin")
	c.Check(a.IsPocChain() == a.Attributes.Contains(common.AttrPoC) && a.IsRewardChain() == a.HasAttribute(common.AttrReward) && a.IsMainChain() == (a.ID == 0), "attributes", "%s", a)
	// any single difference in content gives another hash
	d := a.Clone()
	what := ""
	id := pool[r.Intn(len(pool))]
	flip := func(ids common.NodeIDs) common.NodeIDs {
		if ids.Contains(id) {
			var o common.NodeIDs
			for _, x := range ids {
				if x != id {
					o = append(o, x)
				}
			}
			return o
		}
		o := append(ids.Clone(), id)
		sort.Sort(o)
		return o
	}
	switch r.Intn(13) {
	case 0:
		what, d.ID = "ID", d.ID+1
	case 1:
		what, d.ParentID = "ParentID", d.ParentID+1
	case 2:
		what, d.SecondCoinId = "SecondCoinId", d.SecondCoinId+1
	case 3:
		what, d.SecondCoinName = "SecondCoinName", d.SecondCoinName+"c"
	case 4:
		what, d.Election = "Election", d.Election+1
	case 5:
		what, d.Datas = "Datas", flip(d.Datas)
	case 6:
		what, d.GenesisDatas = "GenesisDatas", flip(d.GenesisDatas)
	case 7:
		what, d.GenesisCommIds = "GenesisCommIds", flip(d.GenesisCommIds)
	case 8:
		what, d.Syncblock = "Syncblock", !d.Syncblock
	case 9:
		if len(d.BootNodes) > 0 {
			what = "BootNodes"
			d.BootNodes[r.Intn(len(d.BootNodes))].DataRpcPort++
		}
	case 10:
		if len(d.AdminPubs) > 0 {
			what = "AdminPubs"
			d.AdminPubs[r.Intn(len(d.AdminPubs))][5] ^= 1
		}
	case 11:
		if len(d.Attributes) > 0 {
			what, d.Attributes = "Attributes", d.Attributes[1:]
		}
	case 12:
		if d.Version > 0 {
			what, d.Auditors = "Auditors", flip(d.Auditors)
		}
	}
	if what != "" {
		hd, err := d.HashValue()
		c.Check(err == nil && !bytes.Equal(hd, ha), "hash-ignores-"+what, "hash %x does not depend on %s: %s", ha, what, fmtChain(a))
		h2, _ := a.HashValue()
		c.Check(bytes.Equal(h2, ha), "clone-shares-"+what, "changing %s of a clone changed the original's hash", what)
		c.Count("hash_pairs", 1)
	}
	// boot node records
	if len(a.BootNodes) > 1 {
		x, y := a.BootNodes[r.Intn(len(a.BootNodes))], a.BootNodes[r.Intn(len(a.BootNodes))]
		c.Check(x.Compare(y) == -y.Compare(x) && (x.Compare(y) == 0) == (x == y), "Dataserver.Compare", "%s %s: %d %d", x, y, x.Compare(y), y.Compare(x))
		z := x.Clone()
		z.IP = "changed"
		c.Check(x.IP != "changed" && x.GetRpcAddr() == fmt.Sprintf("%s:%d", x.IP, x.DataRpcPort), "Dataserver", "%s", x)
		for k := r.Intn(3); k > 0; k-- {
			switch r.Intn(6) {
			case 0:
				x.IP = ""
			case 1:
				x.NodeIDString = x.NodeIDString[:r.Intn(len(x.NodeIDString)+1)]
			case 2:
				x.NodeIDString += "00"
			case 3:
				x.BasicPort = 0
			case 4:
				x.ConsensusPort0 = 0
			case 5:
				x.ConsensusPort1 = 0
			}
		}
		ok := x.BasicPort != 0 && x.ConsensusPort0 != 0 && x.ConsensusPort1 != 0 && len(x.NodeIDString) == 2*common.NodeIDBytes && x.IP != ""
		c.Check((x.Validation() == nil) == ok, "Dataserver.Validation", "%s: %v", x, x.Validation())
	}
}

func attrCase(c *mon.Ctx, r *rand.Rand) {
	valid := []common.ChainAttr{common.AttrPoC, common.AttrReward, common.AttrNoGas}
	var as common.ChainAttrs
	set := map[common.ChainAttr]struct{}{}
	var trace []string
	again := false
	for k := 0; k < 8; k++ {
		n := r.Intn(4)
		var add []common.ChainAttr
		var names []string
		bad := false
		for j := 0; j < n; j++ {
			if r.Intn(10) == 0 {
				bad = true
				add = append(add, "NOSUCH")
				names = append(names, "noSuch")
				continue
			}
			a := valid[r.Intn(3)]
			_, had := set[a]
			again = again || had
			add = append(add, a)
			if r.Intn(2) == 0 {
				names = append(names, strings.ToLower(string(a)))
			} else {
				names = append(names, string(a))
			}
		}
		before := as.Clone()
		var err error
		if r.Intn(2) == 0 {
			err = as.Add(add...)
		} else {
			err = as.AddByName(names...)
		}
		trace = append(trace, fmt.Sprint(names, err))
		c.Count("ops", 1)
		c.Check((err != nil) == bad, "attr-add-error", "%v", trace)
		if bad {
			c.Check(reflect.DeepEqual(before, as), "attr-add-partial", "%v: refused addition changed %v to %v", trace, before, as)
			continue
		}
		for _, a := range add {
			set[a] = struct{}{}
		}
		ok := len(as) == len(set) && sort.IsSorted(as)
		for _, a := range valid {
			_, had := set[a]
			ok = ok && as.Contains(a) == had && a.IsValid()
		}
		c.Check(ok, "attr-set", "after %v: %v", trace, as)
		if len(set) > 0 {
			c.Check(reflect.DeepEqual(as.ToMap(), set), "attr-map", "%v", as)
			back := common.ChainAttrs(nil).FromMap(as.ToMap())
			c.Check(reflect.DeepEqual(back, as), "attr-frommap", "%v -> %v", as, back)
			re := make(common.ChainAttrs, 5).FromMap(as.ToMap())
			c.Check(fmt.Sprint(re) == fmt.Sprint(as), "attr-frommap-reuse", "%v -> %v", as, re)
			ss := as.ToStringSlice()
			okS := len(ss) == len(as)
			for j := 0; okS && j < len(ss); j++ {
				okS = ss[j] == string(as[j])
			}
			c.Check(okS, "attr-strings", "%v -> %v", as, ss)
		}
		cl := as.Clone()
		if len(cl) > 0 {
			cl[0] = "X"
			c.Check(as[0] != "X", "attr-clone", "clone shares memory")
		}
	}
	if again {
		c.Count("readds", 1)
	}
	c.Case(again, strings.Join(trace, ";"))
}

func nodeIDSets(c *mon.Ctx, r *rand.Rand) {
	pool := dedupIDs(nodePool(r, 6))
	pick := func() (l common.NodeIDs, s map[common.NodeID]struct{}) {
		s = map[common.NodeID]struct{}{}
		for k := r.Intn(8); k > 0; k-- {
			id := pool[r.Intn(len(pool))]
			l = append(l, id)
			s[id] = struct{}{}
		}
		return
	}
	a, sa := pick()
	b, sb := pick()
	ja, jb := idsHex(a), idsHex(b)
	c.Count("ops", 5)
	c.Case(len(sa) != len(a), ja+jb)
	un, rm := map[common.NodeID]struct{}{}, map[common.NodeID]struct{}{}
	for id := range sa {
		un[id] = struct{}{}
		if _, ok := sb[id]; !ok {
			rm[id] = struct{}{}
		}
	}
	for id := range sb {
		un[id] = struct{}{}
	}
	u, d := a.Union(b), a.Remove(b)
	c.Check(len(u) == len(un) && reflect.DeepEqual(u.ToMap(), un), "NodeIDs.Union", "%x + %x = %x", a, b, u)
	c.Check(len(d) == len(rm) && reflect.DeepEqual(d.ToMap(), rm), "NodeIDs.Remove", "%x - %x = %x", a, b, d)
	c.Check(reflect.DeepEqual(a.ToMap(), sa), "NodeIDs.ToMap", "%x", a)
	for _, id := range pool {
		_, in := sa[id]
		c.Check(a.Contains(id) == in && a.IsIn(id) == in, "NodeIDs.Contains", "%x in %x", id, a)
		var hs []common.Hash
		for _, x := range a {
			hs = append(hs, x.Hash())
		}
		c.Check(common.IsNodeIDIn(hs, id) == in, "IsNodeIDIn", "%x", id)
	}
	c.Check(a.Equal(a.Clone()) && a.Equal(b) == (ja == jb), "NodeIDs.Equal", "%x %x", a, b)
	c.Check(idsHex(a) == ja && idsHex(b) == jb, "NodeIDs-modified", "set operations changed their operands")
}

func chainStructs(c *mon.Ctx, r *rand.Rand) {
	pickID := func() common.ChainID {
		return []common.ChainID{0, 1, 2, 103, common.NilChainID, common.NilChainID + 1, 1 << 31}[r.Intn(7)]
	}
	id, par := pickID(), pickID()
	c.Count("ops", 1)
	c.Case(id.IsNil() || par.IsNil(), fmt.Sprint(id, par))
	cs, err := common.NewChainStruct(id, par)
	switch {
	case id.IsNil(), par.IsNil() && id != 0 && !common.StandAlone:
		c.Check(err != nil, "NewChainStruct-accepted", "(%v,%v) -> %v", id, par, cs)
	case id == 0 && !par.IsNil():
		// not claimed either way: the constructor leaves it to Validate
		if err == nil {
			c.Check(cs.Validate() != nil, "Validate-main", "main chain with parent %v is valid", par)
		}
	default:
		if c.Check(err == nil && cs != nil, "NewChainStruct-refused", "(%v,%v): %v", id, par, err) {
			c.Check(cs.ID == id && cs.ParentID == par && cs.Validate() == nil, "NewChainStruct-valid", "(%v,%v) -> %v, %v", id, par, cs, cs.Validate())
		}
	}
	// what may stand in the tree of chains: the main chain alone on top, branches under it, shards under branches
	for _, m := range []common.ChainMode{common.Root, common.Branch, common.Shard, common.Shard + 1, common.Root - 1, 0} {
		st := common.ChainStruct{ID: id, ParentID: par, Mode: m}
		var ok bool
		switch m {
		case common.Root:
			ok = id == 0 && par.IsNil()
		case common.Branch:
			ok = id != 0 && par == 0
		case common.Shard:
			ok = id != 0 && par != 0 && !par.IsNil()
		}
		err := st.Validate()
		c.Check((err == nil) == ok, "Validate", "%d under %d as %v: %v", id, par, m, err)
	}
	ids := common.ChainIDs{id, par, pickID()}
	cl := ids.Clone()
	c.Check(cl.Equal(ids), "ChainIDs.Clone", "%v", ids)
	cl[0]++
	c.Check(!cl.Equal(ids) && ids[0] == id, "ChainIDs.Clone-alias", "%v", ids)
	sort.Sort(ids)
	for k := 1; k < len(ids); k++ {
		a, b := ids[k-1], ids[k]
		c.Check(a.Compare(b) <= 0 && b.Compare(a) == -a.Compare(b) && (a == b || a.IsNil() || !b.IsNil() && a < b), "ChainIDs.order", "%v", ids)
	}
	ci := &common.ChainInfos{ChainStruct: common.ChainStruct{ID: id, ParentID: par}}
	w := common.ChainID(0)
	if par.IsNil() {
		w = common.NilChainID
	}
	c.Check(ci.ReportTo() == w && bytes.Equal(ci.Key(), id.Bytes()), "ReportTo", "%v", ci.ReportTo())
	// data nodes sort by genesis flag, then identifier, whatever the order they came in
	var ds common.DataNodes
	for k := r.Intn(8); k > 0; k-- {
		var d common.DataNode
		d.IsGenesis = r.Intn(2) == 0
		r.Read(d.NodeID[:2])
		ds = append(ds, d)
	}
	d2 := append(common.DataNodes{}, ds...)
	r.Shuffle(len(d2), d2.Swap)
	sort.Sort(ds)
	sort.Sort(d2)
	for k := range ds {
		c.Check(ds[k] == d2[k], "DataNodes.sort", "%v and %v", ds, d2)
		if k > 0 {
			a, b := ds[k-1], ds[k]
			c.Check(a.IsGenesis && !b.IsGenesis || a.IsGenesis == b.IsGenesis && bytes.Compare(a.NodeID[:], b.NodeID[:]) <= 0, "DataNodes.order", "%v", ds)
		}
	}
	// addresses by the kind of net
	kinds := []common.NetType{common.BasicNet, common.ConsensusNet1, common.ConsensusNet2, common.RootDataNet, common.BranchDataNet}
	addrs := map[common.NetType]string{}
	for k, n := range kinds {
		addrs[n] = ""
		if r.Intn(3) > 0 {
			addrs[n] = fmt.Sprintf("10.0.0.%d:%d", k, r.Intn(65536))
		}
	}
	ni := common.NewNetInfo(&common.NodeID{1}, addrs[kinds[0]], addrs[kinds[1]], addrs[kinds[2]], addrs[kinds[3]], addrs[kinds[4]])
	if k := kinds[r.Intn(5)]; r.Intn(2) == 0 {
		addrs[k] = "10.1.1.1:1"
		ni.AddAddr(k, &common.Endpoint{NetType: "tcp", Address: addrs[k]})
	}
	for _, n := range kinds {
		e := ni.GetAddr(n)
		c.Check((e == nil) == (addrs[n] == "") && (e == nil || e.Address == addrs[n] && e.String() == addrs[n] && e.Network() == "tcp" && !e.IsNil()), "NetInfo", "%v: %v want %q", n, e, addrs[n])
	}
	ep := common.EpochNum(r.Uint64())
	c.Check(common.ChooseConNetByEpoch(ep) != common.ChooseConNetByEpoch(ep+1) && common.ChooseConNetByEpoch(ep) == common.ChooseConNetByEpoch(ep+2) &&
		(common.ChooseConNetByEpoch(ep) == common.ConsensusNet1 || common.ChooseConNetByEpoch(ep) == common.ConsensusNet2), "ChooseConNetByEpoch", "%d", ep)
}

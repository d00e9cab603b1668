package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"time"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/abi"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/hexutil"
	"github.com/ThinkiumGroup/go-common/math"
	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/ThinkiumGroup/go-common/trie"

	"verif/harness/abix"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "P01", Race: true,
		Rule:  "worlds of shared values (an ABI, hash lists, proofs of tries and history trees, chain descriptions, shardings, numbers, encodings) built twice from one seed; every question about them is asked once in sequence of the first, and by up to 8 goroutines in random orders of the second, starting with its first use; non-trivial when a question was being answered by two goroutines at once",
		Floor: map[string]int64{"worlds": 100, "answers": 25000, "questions": 3500, "overlaps": 1500}, Run: runP01})
}

// answer is rendered later: rendering takes locks, which would order the goroutines.
type answer []interface{}

// ask is a question about shared values: its answer depends on nothing but them.
type ask struct {
	name string
	f    func() answer
}

func digest(xs ...interface{}) string {
	h := sha256.New()
	for _, x := range xs {
		switch v := x.(type) {
		case error:
			fmt.Fprintf(h, "%v|", v != nil)
		case []byte:
			fmt.Fprintf(h, "%x|", v)
		case func() string:
			fmt.Fprintf(h, "%s|", v())
		default:
			fmt.Fprintf(h, "%v|", v)
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func raw(xs ...interface{}) answer { return xs }

func showAll(fs []abix.Field, got []interface{}) string {
	var o []interface{}
	for i, f := range fs {
		if i < len(got) {
			if v, err := abix.FromGo(f.Ty, reflect.ValueOf(got[i])); err == nil {
				o = append(o, v.Show())
			} else {
				o = append(o, err)
			}
		}
	}
	return digest(append(o, len(got))...)
}

func sharedWorld(c *mon.Ctx, r *rand.Rand) (asks []ask) {
	add := func(name string, f func() answer) { asks = append(asks, ask{name, f}) }

	// hash lists
	n := 1 + r.Intn(30)
	leaves := make([][]byte, n, n+r.Intn(20))
	for i := range leaves {
		h := randHash(r)
		if i > 0 && r.Intn(4) == 0 {
			copy(h[:], leaves[i-1])
		}
		leaves[i] = h.Bytes()
	}
	for k := 0; k < 2; k++ {
		idx := r.Intn(n+1) - 1
		for name, f := range map[string]func([][]byte, int, *common.MerkleProofs) ([]byte, error){
			"MerkleHash": common.MerkleHash, "MerkleHashCompleteOld": common.MerkleHashCompleteOld, "MerkleHashComplete": common.MerkleHashComplete,
			"SlicesMerkleHash": common.SlicesMerkleHash, "SlicesMerkleHashComplete": common.SlicesMerkleHashComplete} {
			f := f
			add(fmt.Sprintf("%s %d of %d", name, idx, n), func() answer {
				mp := common.NewMerkleProofs()
				root, err := f(leaves, idx, mp)
				return raw(root, err, mp)
			})
		}
	}
	values := common.ChainIDs{}
	for i := 0; i < 5; i++ {
		values = append(values, common.ChainID(r.Uint32()))
	}
	add("ValuesMerkleHash", func() answer { return raw(common.ValuesMerkleHash(values, 2, nil)) })
	add("ValuesMerkleTreeHash", func() answer { return raw(common.ValuesMerkleTreeHash(values, 2, nil)) })
	mp := common.NewMerkleProofs()
	if _, err := common.MerkleHash(leaves, r.Intn(n), mp); err != nil {
		panic(err)
	}
	leaf := randHash(r)
	add("MerkleProofs", func() answer {
		root, err := mp.Proof(leaf)
		items, err2 := mp.ToItems()
		var buf bytes.Buffer
		err3 := mp.Serialization(&buf)
		key := new(big.Int)
		end := mp.BigKey(key, 3)
		cl := mp.Clone()
		return raw(root, err, items, err2, buf.Bytes(), err3, key, end, mp.Equal(cl), mp.Len(), mp, mp.Summary(), mp.InfoString(1))
	})
	add("hashes", func() answer {
		o, err := common.HashPairOrder(true, leaves[0], leaf[:])
		w, err2 := common.Hash256WithError(leaves...)
		e, err3 := common.EncodeAndHash(mp)
		x, err4 := common.HashObject(values)
		return raw(common.Hash256(leaves...), common.HashPair(leaves[0], leaf[:]), o, err, w, err2, e, err3, x, err4, common.HashRipemd160(leaves[0]),
			common.HeaderIndexHash(common.ToHeaderPosHashBuffer(7, 9), 3), common.EncodeHash(values))
	})

	// proofs
	s := newTsim(c, r, pickFlavor(r), db.NewMemDB())
	fill(s, r, 20)
	root := rootOf(s.t)
	var keys []string
	for k := range s.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	chains := func(what string, k []byte, ch trie.ProofChain, vh common.Hash) {
		add("proof "+what, func() answer {
			p, err := ch.Proof(vh)
			items, err2 := ch.ToItems()
			mk, err3 := ch.ToMerkles()
			ex, err4 := ch.IsExist(k)
			eh, err5 := ch.ExistenceHash()
			cl := ch.Clone()
			enc, err6 := common.HashObject(ch)
			return raw(p, err, items, err2, mk, err3, ex, err4, eh, err5, cl.Equal(ch), ch, ch.InfoString(0), trie.VerifyProofChain(vh, ch, root), enc, err6)
		})
	}
	for i, k := range keys {
		if i == 4 {
			break
		}
		_, ch, ok := s.t.GetProof([]byte(k))
		c.Check(ok, "shared-proof", "GetProof(%x) fails; %s", k, s.hist())
		chains(fmt.Sprintf("of %x", k), []byte(k), ch, s.f.vh([]byte(k), s.m[k]))
		if len(k) > 0 {
			if _, ch, err := s.t.GetExistenceProof([]byte(k)); err == nil {
				chains(fmt.Sprintf("of existence of %x", k), []byte(k), ch, leaf)
			}
		}
	}
	ht, err := trie.NewHistoryTree(db.NewMemDB(), []byte("h"), nil, false)
	if err != nil {
		panic(err)
	}
	hn := uint64(1 + r.Intn(40))
	for i := uint64(0); i < hn; i++ {
		if err := ht.Append(i, keccak([]byte{byte(i), byte(n)})); err != nil {
			panic(err)
		}
	}
	at := uint64(r.Int63n(int64(hn)))
	if v, ch, ok := ht.GetProof(at); ok {
		add("history proof", func() answer {
			p, err := ch.HistoryProof(common.Height(at), v)
			_, err2 := ch.HistoryProof(common.Height(at+1), v)
			return raw(p, err, err2, ch.BigKey())
		})
	}

	// an ABI
	in, out := abix.GenFields(r, 1+r.Intn(3), 2), abix.GenFields(r, 1+r.Intn(3), 2)
	efs := abix.GenFields(r, 1+r.Intn(3), 1)
	ej := jArgs(efs)
	for i := range ej {
		if r.Intn(2) == 0 {
			efs[i].Ty = genIndexed(r)
			t, _ := efs[i].Ty.Desc()
			ej[i].Type, ej[i].Components, ej[i].Indexed = t, nil, true
			if cs := jArgs(efs[i : i+1]); len(cs) == 1 {
				ej[i].Components = cs[0].Components
			}
		}
	}
	js, _ := json.Marshal([]jEntry{{Type: "function", Name: "run", Inputs: jArgs(in), Outputs: jArgs(out)}, {Type: "function", Name: "run", Inputs: jArgs(out)},
		{Type: "event", Name: "Ev", Inputs: ej}, {Type: "error", Name: "Bad", Inputs: jArgs(in)}})
	a, err := abi.JSON(bytes.NewReader(js))
	if err != nil {
		panic(err)
	}
	vi, vo := genVals(r, in), genVals(r, out)
	gi, gout := goVals(in, vi), goVals(out, vo)
	wi, wo := abix.EncodeList(tys(in), vi), abix.EncodeList(tys(out), vo)
	show := func(fs []abix.Field, got []interface{}) func() string {
		return func() string { return showAll(fs, got) }
	}
	add("ABI.JSON", func() answer {
		b, err := abi.JSON(bytes.NewReader(js))
		return raw(err, b.Methods["run"].String(), b.Methods["run0"].String(), b.Events["Ev"].String(), len(b.Errors))
	})
	add("ABI.Pack", func() answer { p, err := a.Pack("run", gi...); return raw(p, err) })
	add("ABI.PackReturns", func() answer { p, err := a.PackReturns("run", gout...); return raw(p, err) })
	add("ABI.Unpack", func() answer { v, err := a.Unpack("run", wo); return raw(show(out, v), err) })
	add("ABI.UnpackIntoMap", func() answer {
		m := map[string]interface{}{}
		err := a.UnpackIntoMap(m, "run", wo)
		var v []interface{}
		for _, f := range out {
			v = append(v, m[f.Name])
		}
		return raw(show(out, v), err)
	})
	add("ABI.UnpackIntoInterface", func() answer {
		p := reflect.New(abix.StructOf(out))
		err := a.UnpackIntoInterface(p.Interface(), "run", wo)
		return raw(show(out, structVals(p.Elem())), err)
	})
	add("ABI.UnpackInput", func() answer {
		p := reflect.New(abix.StructOf(in))
		err := a.UnpackInput(p.Interface(), "run", wi)
		return raw(show(in, structVals(p.Elem())), err)
	})
	id, eid := keccak([]byte("run" + canonList(in)))[:4], a.Events["Ev"].ID
	add("ABI.MethodById", func() answer {
		m, err := a.MethodById(id)
		if err != nil {
			return raw(err)
		}
		return raw(m.Name, m.RawName, m.Sig, m.ID, m.String(), m.IsConstant(), m.IsPayable())
	})
	add("ABI.EventByID", func() answer {
		e, err := a.EventByID(eid)
		if err != nil {
			return raw(err)
		}
		return raw(e.Name, e.Sig, e.ID, e.String(), len(e.Inputs.NonIndexed()))
	})
	bad := append(append([]byte{}, keccak([]byte("Bad" + canonList(in)))[:4]...), wi...)
	add("Error.Unpack", func() answer {
		e := a.Errors["Bad"]
		_, err := e.Unpack(bad)
		return raw(e.ID, e.String(), err)
	})
	var q [][]interface{}
	for i, f := range efs {
		if ej[i].Indexed && f.Ty.K < abix.Slice {
			q = append(q, []interface{}{abix.Go(f.Ty, abix.GenVal(r, f.Ty))})
		}
	}
	add("MakeTopics", func() answer { t, err := abi.MakeTopics(q...); return raw(t, err) })
	sel := "f" + canonList(in)
	add("ParseSelector", func() answer { m, err := abi.ParseSelector(sel); return raw(m, err) })
	reason := append(append([]byte{}, 0x08, 0xc3, 0x79, 0xa0), abix.EncodeList([]*abix.Ty{{K: abix.String}}, []*abix.Val{{B: []byte("because")}})...)
	add("UnpackRevert", func() answer { s, err := abi.UnpackRevert(reason); return raw(s, err) })

	// chains, shards, addresses
	pool := dedupIDs(nodePool(r, 5))
	ci := randChain(r, pool)
	var addr common.Address
	r.Read(addr[:])
	add("ChainInfos", func() answer {
		h, err := ci.HashValue()
		m := map[common.NodeID]bool{}
		for id := range ci.GetAuditorMap() {
			m[id] = true
		}
		return raw(h, err, fmtChain(ci), fmtChain(ci.Clone()), ci.HasDataNode(pool[0]), ci.Index(pool[0]), ci.IsPocChain(), ci.IsRewardChain(), ci.IsGenesisDataNode(pool[0]),
			ci.AddrIsAdmin(addr), ci.PubIsAdmin(append([]byte{4}, pool[0][:]...)), ci.Key(), len(m), ci.HasAttribute(common.AttrNoGas), ci.ReportTo())
	})
	ids := common.NodeIDs(pool)
	add("NodeIDs", func() answer {
		return raw(len(ids.ToMap()), ids.Contains(pool[0]), ids.Clone(), len(ids.Union(ids[:1])), len(ids.Remove(ids[:1])), ids.Equal(ids.Clone()), ids.ToBytesSlice(), ids.InfoString(0))
	})
	var list []common.ChainID
	for k := r.Intn(20); k >= 0; k-- {
		list = append(list, common.ChainID(1+r.Intn(40)))
	}
	si := common.NewShardInfo(common.ChainStruct{ID: 0}, 0, list)
	add("ShardInfo", func() answer {
		x := common.NewShardInfo(common.ChainStruct{ID: 0}, 0, list)
		return raw(si.ShardTo(addr), si.ShardTo(&addr), si.Pos(list[0]), si.AllIDs(), si.GetMaskBits(), si.Clone().ShardTo(addr), x.ShardTo(addr), x.AllIDs())
	})
	height := common.Height(r.Uint64() >> uint(r.Intn(60)))
	add("basics", func() answer {
		t, err := addr.MarshalText()
		var b common.Address
		err2 := b.UnmarshalText(t)
		e, bl := height.Split()
		return raw(t, err, b == addr, err2, addr.String(), addr.Hex(), addr.IsReserved(), addr.IsNoGas(), addr.NoCheck(), addr.IsSystemContract(), leaf.String(), leaf.Hex(), e, bl, height.Hash(), height.Slice(), height.IsFirstOfEpoch(),
			common.Bytes2Hex(leaves[0]), common.FromHex(addr.Hex()), common.PrintBytesSlice(leaves, 3), common.ForPrint(leaves[0]), common.CopyBytesSlice(leaves), common.BytesSliceEqual(leaves, leaves))
	})

	// numbers and encodings
	x, y := edgeInt(r, 300, true), edgeInt(r, 300, true)
	rat := big.NewRat(r.Int63n(1000)+1, r.Int63n(1000)+1)
	bx := math.NewBigInt(x)
	pos := new(big.Int).Abs(x)
	dec := pos.String()
	add("numbers", func() answer {
		pb, ok := math.ParseBig256(dec)
		return raw(math.BigMax(x, y), math.BigMin(x, y), math.CompareBigInt(x, y), math.PaddedBigBytes(pos, 40), math.Byte(pos, 32, 3), math.FirstBitSet(pos), math.S256(new(big.Int).And(pos, big.NewInt(1<<40))),
			math.BigPow(3, 70), pb, ok, math.BigIntForPrint(x), math.BigForPrint(x), math.Int64MulRat(1<<40, rat), math.CopyBigInt(x), math.U256Bytes(new(big.Int).Set(x)))
	})
	add("BigInt", func() answer {
		return raw(bx.Clone().AddInt(y), bx.Clone().SubInt(y), bx.Clone().MulInt(y), bx.Clone().MulRat(rat), bx.CompareInt(y), bx.String(), bx.Sign(), bx.IsZero())
	})
	type rec struct {
		A uint64
		B *big.Int
		C [][]byte
		D common.Address
		E []common.Hash `rlp:"optional"`
	}
	v := &rec{A: r.Uint64(), B: pos, C: leaves, D: addr, E: []common.Hash{leaf}}
	enc, err := rlp.EncodeToBytes(v)
	if err != nil {
		panic(err)
	}
	add("rlp", func() answer {
		e, err := rlp.EncodeToBytes(v)
		var w rec
		err2 := rlp.DecodeBytes(enc, &w)
		k, content, rest, err3 := rlp.Split(enc)
		cnt, err4 := rlp.CountValues(content)
		return raw(e, err, fmt.Sprintf("%v", w), err2, k, content, rest, err3, cnt, err4)
	})
	add("hex", func() answer {
		d, err := hexutil.Decode(hexutil.Encode(leaves[0]))
		b, err2 := hexutil.DecodeBig(hexutil.EncodeBig(pos))
		t, err3 := hexutil.Bytes(leaves[0]).MarshalText()
		j, err4 := json.Marshal((*hexutil.Big)(pos))
		return raw(d, err, b, err2, t, err3, j, err4)
	})
	return asks
}

func runP01(c *mon.Ctx) {
	c.Section("shared", func(_ *rand.Rand) {
		for i := 0; i < c.N2(120, 1600); i++ {
			name := fmt.Sprintf("world/%d", i)
			first := sharedWorld(c, c.Rand(name))
			sort.SliceStable(first, func(a, b int) bool { return first[a].name < first[b].name })
			want := map[string]string{}
			for _, a := range first {
				want[a.name] = digest(a.f()...)
			}
			asks := sharedWorld(c, c.Rand(name))
			sort.SliceStable(asks, func(a, b int) bool { return asks[a].name < asks[b].name })
			r := c.Rand(name + "/orders")
			g := 2 + r.Intn(7)
			// all of them together, or few at a time: what other questions do in between may order the goroutines
			all, per := r.Perm(len(asks)), []int{len(asks), 1, 3}[i%3]
			var groups [][][]int
			for from := 0; from < len(all); from += per {
				part := all[from:min(from+per, len(all))]
				orders := make([][]int, g)
				for k := range orders {
					orders[k] = append([]int(nil), part...)
					if r.Intn(2) == 0 { // otherwise the same order: the same first uses at the same time
						r.Shuffle(len(part), func(a, b int) { orders[k][a], orders[k][b] = orders[k][b], orders[k][a] })
					}
				}
				groups = append(groups, orders)
			}
			overl := make([]int64, g)
			got := make([][]answer, g)
			rounds := 1 + r.Intn(3)
			spans := make([][][2]int64, g)
			for w := range got {
				got[w] = make([]answer, len(asks)*rounds)
			}
			for _, orders := range groups {
				mon.Parallel(g, func(w int) {
					for k := 0; k < rounds; k++ {
						for _, q := range orders[w] {
							from := time.Now().UnixNano()
							got[w][k*len(asks)+q] = asks[q].f()
							spans[w] = append(spans[w], [2]int64{from, time.Now().UnixNano()})
							if q%5 == w%5 {
								runtime.Gosched()
							}
						}
					}
				})
			}
			for w := range got {
				for k, got := range got[w] {
					s := digest(got...)
					a := asks[k%len(asks)]
					if s != want[a.name] {
						c.Violate("shared-answer", "%s: asked by %d goroutines at once the answer is another one than asked by one", a.name, g)
						break
					}
				}
				j := 0
				for _, sp := range spans[w] {
					other := spans[(w+1)%g]
					for j < len(other) && other[j][1] < sp[0] {
						j++
					}
					if j < len(other) && other[j][0] < sp[1] {
						overl[w]++
					}
				}
				c.Count("overlaps", overl[w])
				c.Count("answers", int64(len(got[w])))
			}
			for _, a := range asks { // and nothing has changed
				if digest(a.f()...) != want[a.name] {
					c.Violate("shared-changed", "%s: the answer has changed after being asked by %d goroutines", a.name, g)
				}
			}
			c.Count("worlds", 1)
			c.Count("questions", int64(len(asks)))
			c.Case(overl[0] > 0, name)
		}
	})
}

package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/stephenfire/go-rtl"

	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "C03",
		Rule:  "seeded identifier values (zero, all-ones, leading zeros, random) through bytes, hex, text, JSON, RLP and the native codec and back; mutations of every valid encoding (length, prefix, alphabet, truncation, extension) decoded; non-trivial when the value has leading zero bytes or the encoding was damaged",
		Floor: map[string]int64{"roundtrips": 100000, "malformed": 50000, "object_hashes": 5000, "compares": 50000}, Run: runC03})
}

func edgeBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(6) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		r.Read(b[r.Intn(n+1):])
	case 3:
		if n > 0 {
			b[r.Intn(n)] = byte(1 << uint(r.Intn(8)))
		}
	default:
		r.Read(b)
	}
	return b
}

// codec describes one fixed-size identifier type for the table-driven part.
type idType struct {
	name string
	size int
	mk   func(b []byte) interface{} // value type from exactly size bytes (by array conversion)
	raw  func(v interface{}) []byte // bytes of a pointer to it
	ptr  func() interface{}         // new zero pointer
	text bool
}

var idTypes = []idType{
	{"Hash", 32, func(b []byte) interface{} { return common.Hash(*(*[32]byte)(b)) }, func(v interface{}) []byte { return v.(*common.Hash)[:] }, func() interface{} { return new(common.Hash) }, true},
	{"Address", 20, func(b []byte) interface{} { return common.Address(*(*[20]byte)(b)) }, func(v interface{}) []byte { return v.(*common.Address)[:] }, func() interface{} { return new(common.Address) }, true},
	{"NodeID", 64, func(b []byte) interface{} { return common.NodeID(*(*[64]byte)(b)) }, func(v interface{}) []byte { return v.(*common.NodeID)[:] }, func() interface{} { return new(common.NodeID) }, true},
	{"Seed", 20, func(b []byte) interface{} { return common.Seed(*(*[20]byte)(b)) }, func(v interface{}) []byte { return v.(*common.Seed)[:] }, func() interface{} { return new(common.Seed) }, false},
}

func padLeft(b []byte, n int) []byte {
	if len(b) >= n {
		return mon.Clone(b[len(b)-n:])
	}
	return append(make([]byte, n-len(b)), b...)
}

// noPanic runs a decoder on a damaged encoding: any answer but a crash is looked at by the caller.
func tryErr(f func() error) (err error, crash interface{}) {
	defer func() { crash = recover() }()
	err = f()
	return
}

func runC03(c *mon.Ctx) {
	c.Cases("codecs", c.N2(2000, 30000), func(i int, r *rand.Rand) {
		for _, t := range idTypes {
			b := edgeBytes(r, t.size)
			v := t.mk(b)
			lead := b[0] == 0
			c.Case(lead, fmt.Sprintf("%s %x", t.name, b))
			// RLP and native codec
			enc, err := rlp.EncodeToBytes(v)
			p := t.ptr()
			if err == nil {
				err = rlp.DecodeBytes(enc, p)
			}
			c.Check(err == nil && bytes.Equal(t.raw(p), b), t.name+"-rlp", "%x -> %x -> %x, %v", b, enc, t.raw(p), err)
			enc2, err := rtl.Marshal(v)
			p = t.ptr()
			if err == nil {
				err = rtl.Unmarshal(enc2, p)
			}
			c.Check(err == nil && bytes.Equal(t.raw(p), b), t.name+"-rtl", "%x -> %x -> %x, %v", b, enc2, t.raw(p), err)
			c.Count("roundtrips", 2)
			// damaged RLP: another length, a truncation, an extension
			for k := 0; k < 3; k++ {
				var bad []byte
				switch r.Intn(4) {
				case 0:
					bad, _ = rlp.EncodeToBytes(append(mon.Clone(b), 7))
				case 1:
					bad, _ = rlp.EncodeToBytes(b[:r.Intn(t.size)])
				case 2:
					bad = enc[:r.Intn(len(enc))]
				case 3:
					bad = append(mon.Clone(enc), byte(r.Intn(256)))
				}
				p = t.ptr()
				err, cr := tryErr(func() error { return rlp.DecodeBytes(bad, p) })
				c.Check(err != nil && cr == nil, t.name+"-rlp-malformed", "%x decoded to %x (%v, panic %v)", bad, t.raw(p), err, cr)
				cut := r.Intn(len(enc2))
				p = t.ptr()
				err, cr = tryErr(func() error { return rtl.Unmarshal(enc2[:cut], p) })
				if cut > 0 { // an empty buffer is the codec's notion of no value
					c.Check(err != nil && cr == nil, t.name+"-rtl-truncated", "%x decoded to %x (panic %v)", enc2[:cut], t.raw(p), cr)
				}
				c.Count("malformed", 2)
			}
			if t.text {
				txt, err := v.(interface{ MarshalText() ([]byte, error) }).MarshalText()
				c.Check(err == nil && string(txt) == "0x"+hex.EncodeToString(b), t.name+"-text", "%x as text: %q %v", b, txt, err)
				um := func(s string, p interface{}) error {
					return p.(interface{ UnmarshalText([]byte) error }).UnmarshalText([]byte(s))
				}
				p = t.ptr()
				s := string(txt)
				if r.Intn(2) == 0 {
					s = strings.ToUpper(s[2:])
					s = []string{"0x", "0X"}[r.Intn(2)] + s
				}
				err = um(s, p)
				c.Check(err == nil && bytes.Equal(t.raw(p), b), t.name+"-text-roundtrip", "%q -> %x, %v", s, t.raw(p), err)
				js, err := json.Marshal(v)
				c.Check(err == nil && string(js) == `"`+string(txt)+`"`, t.name+"-json", "%x as JSON: %s %v", b, js, err)
				p = t.ptr()
				err = json.Unmarshal(js, p)
				c.Check(err == nil && bytes.Equal(t.raw(p), b), t.name+"-json-roundtrip", "%s -> %x, %v", js, t.raw(p), err)
				// as a map key and as a struct field
				mv := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(v), reflect.TypeOf(0)))
				mv.SetMapIndex(reflect.ValueOf(v), reflect.ValueOf(3))
				mj, err := json.Marshal(mv.Interface())
				back := reflect.New(mv.Type())
				if err == nil {
					err = json.Unmarshal(mj, back.Interface())
				}
				c.Check(err == nil && reflect.DeepEqual(back.Elem().Interface(), mv.Interface()), t.name+"-json-key", "%s: %v", mj, err)
				c.Count("roundtrips", 4)
				for k := 0; k < 4; k++ {
					bad := string(txt)
					switch r.Intn(7) {
					case 0:
						bad = bad[2:] // no prefix
					case 1:
						bad += "0"
					case 2:
						bad += "00"
					case 3:
						bad = bad[:len(bad)-1-r.Intn(4)]
					case 4:
						x := []byte(bad)
						x[2+r.Intn(len(x)-2)] = "gG xX-\n"[r.Intn(7)]
						bad = string(x)
					case 5:
						bad = "0x"
					case 6:
						bad = " " + bad[:len(bad)-1]
					}
					c.Count("malformed", 2)
					c.Case(true, t.name+bad)
					p = t.ptr()
					copy(t.raw(p), b)
					err, cr := tryErr(func() error { return um(bad, p) })
					c.Check(err != nil && cr == nil, t.name+"-text-malformed", "%q decoded to %x (panic %v)", bad, t.raw(p), cr)
					c.Check(bytes.Equal(t.raw(p), b), t.name+"-text-partial", "a rejected decode of %q changed the value from %x to %x", bad, b, t.raw(p))
					q, _ := json.Marshal(bad)
					err, cr = tryErr(func() error { return json.Unmarshal(q, p) })
					c.Check(err != nil && cr == nil, t.name+"-json-malformed", "%s decoded to %x (panic %v)", q, t.raw(p), cr)
				}
				for _, bad := range []string{"", "0", "x", "0x", "0X", " ", "null", "0x0x", `""`} {
					p = t.ptr()
					copy(t.raw(p), b)
					err, cr := tryErr(func() error { return um(bad, p) })
					c.Check(err != nil && cr == nil && bytes.Equal(t.raw(p), b), t.name+"-text-short", "%q decoded to %x (was %x, %v, panic %v)", bad, t.raw(p), b, err, cr)
					q, _ := json.Marshal(bad)
					err, cr = tryErr(func() error { return json.Unmarshal(q, p) })
					c.Check(err != nil && cr == nil && bytes.Equal(t.raw(p), b), t.name+"-json-short", "%s decoded to %x (was %x, %v, panic %v)", q, t.raw(p), b, err, cr)
				}
				for _, bad := range []string{"12", "true", "[]", "{}", `[1,2]`} {
					p = t.ptr()
					err, cr := tryErr(func() error { return json.Unmarshal([]byte(bad), p) })
					c.Check(err != nil && cr == nil, t.name+"-json-type", "%s decoded to %x (panic %v)", bad, t.raw(p), cr)
				}
			}
		}
	})
	c.Cases("bytes", c.N2(2000, 30000), func(i int, r *rand.Rand) {
		in := edgeBytes(r, randLen(r))
		g := append(mon.Clone(in), 9)[:len(in)]
		c.Count("roundtrips", 12)
		c.Case(len(in) == 0 || in[0] == 0, fmt.Sprintf("%x", in))
		h32, a20, n64, s20 := padLeft(in, 32), padLeft(in, 20), padLeft(in, 64), padLeft(in, 20)
		eq := func(what string, got, want []byte) {
			c.Check(bytes.Equal(got, want), what, "%s of %x = %x want %x", what, in, got, want)
		}
		eq("BytesToHash", common.BytesToHash(g).Bytes(), h32)
		eq("BytesToHashP", common.BytesToHashP(g).Slice(), h32)
		eq("BytesToAddress", common.BytesToAddress(g).Bytes(), a20)
		eq("BytesToAddressP", common.BytesToAddressP(g).Slice(), a20)
		id := common.BytesToNodeID(g)
		eq("BytesToNodeID", id.Bytes(), n64)
		eq("BytesToNodeIDP", common.BytesToNodeIDP(g).Bytes(), n64)
		sd := common.BytesToSeed(g)
		eq("BytesToSeed", sd.Slice(), s20)
		eq("BytesToSeedP", common.BytesToSeedP(g).Slice(), s20)
		pn, err := common.ParseNodeIDBytes(g)
		if err == nil {
			eq("ParseNodeIDBytes", pn.Bytes(), n64)
		}
		// SetBytes replaces the whole previous value
		dh, da, dn, ds := new(common.Hash), new(common.Address), new(common.NodeID), new(common.Seed)
		for _, x := range [][]byte{dh[:], da[:], dn[:], ds[:]} {
			r.Read(x)
		}
		dh.SetBytes(g)
		da.SetBytes(g)
		dn.SetBytes(g)
		ds.SetBytes(g)
		eq("Hash.SetBytes", dh[:], h32)
		eq("Address.SetBytes", da[:], a20)
		eq("NodeID.SetBytes", dn[:], n64)
		eq("Seed.SetBytes", ds[:], s20)
		// values do not share memory with the bytes they came from
		g2 := mon.Clone(in)
		hv, av, nv := common.BytesToHash(g2), common.BytesToAddress(g2), common.BytesToNodeID(g2)
		hp, ap := common.BytesToHashP(g2), common.BytesToAddressP(g2)
		scribble(g2)
		eq("Hash-alias", hv[:], h32)
		eq("Address-alias", av[:], a20)
		eq("NodeID-alias", nv[:], n64)
		eq("HashP-alias", hp[:], h32)
		eq("AddressP-alias", ap[:], a20)
		// clones are independent
		ch, ca, cn, cs, cc := hp.Clone(), ap.Clone(), nv.Clone(), sd.Clone(), av.Copy()
		scribble(ch[:], ca[:], cn[:], cs[:], cc[:], av.Bytes(), hv.Bytes())
		eq("Hash.Clone", hp[:], h32)
		eq("Address.Clone", ap[:], a20)
		eq("NodeID.Clone", nv[:], n64)
		eq("Seed.Clone", sd[:], s20)
		eq("Address.Copy", av[:], a20)
		// numbers
		eq("Hash.Big", padLeft(hv.Big().Bytes(), 32), h32)
		eq("BigToHash", common.BigToHash(new(big.Int).SetBytes(in)).Bytes(), h32)
		eq("BigToAddress", common.BigToAddress(new(big.Int).SetBytes(in)).Bytes(), a20)
		eq("Address.Big", padLeft(av.Big().Bytes(), 20), a20)
		// hex
		eq("HexToHash", common.HexToHash(hex.EncodeToString(in)).Bytes(), h32)
		eq("HexToHash-0x", common.HexToHash(hv.Hex()).Bytes(), h32)
		eq("HexToAddress", common.HexToAddress("0x"+hex.EncodeToString(in)).Bytes(), a20)
		eq("HexToAddress-checksummed", common.HexToAddress(av.Hex()).Bytes(), a20)
		eq("Address.String", mustHex(av.String()), a20)
		c.Check(common.IsHexAddress(av.Hex()) && common.IsHexAddress(av.String()), "IsHexAddress", "%s", av.Hex())
		pi, err := common.ParseNodeID(hex.EncodeToString(n64))
		c.Check(err == nil && bytes.Equal(pi[:], n64), "ParseNodeID", "%x", n64)
		_, err = common.ParseNodeID("0g" + hex.EncodeToString(n64)[2:])
		c.Check(err != nil, "ParseNodeID-malformed", "bad hex accepted")
		if len(in) == 32 {
			eq("NewHash", common.NewHash(g)[:], h32)
		}
		// checksum letter case as EIP-55 defines it
		low := hex.EncodeToString(a20)
		kh := hex.EncodeToString(keccak([]byte(low)))
		want := []byte("0x" + low)
		for j := range low {
			if low[j] >= 'a' && kh[j] >= '8' {
				want[j+2] -= 32
			}
		}
		c.Check(av.Hex() == string(want), "Address.Hex", "%s want %s", av.Hex(), want)
		// derived addresses
		nonce := edgeU64(r)
		rl := append([]byte{0x94}, a20...)
		nb := bytes.TrimLeft(new(big.Int).SetUint64(nonce).Bytes(), "\x00")
		switch {
		case len(nb) == 0:
			rl = append(rl, 0x80)
		case len(nb) == 1 && nb[0] < 0x80:
			rl = append(rl, nb[0])
		default:
			rl = append(append(rl, byte(0x80+len(nb))), nb...)
		}
		rl = append([]byte{byte(0xc0 + len(rl))}, rl...)
		eq("CreateAddress", common.CreateAddress(av, nonce).Bytes(), keccak(rl)[12:])
		var salt [32]byte
		r.Read(salt[:])
		eq("CreateAddress2", common.CreateAddress2(av, salt, in).Bytes(), keccak([]byte{0xff}, a20, salt[:], in)[12:])
		pub := append([]byte{4}, in...)
		pa, err := common.AddressFromPubSlice(pub)
		c.Check(err == nil && bytes.Equal(pa[:], keccak(in)[12:]), "AddressFromPubSlice", "%x -> %x %v", pub, pa, err)
		if len(in) > 0 && in[0] != 4 {
			_, err = common.AddressFromPubSlice(in)
			c.Check(err != nil, "AddressFromPubSlice-malformed", "%x accepted", in)
		}
		_, err = common.AddressFromPubSlice(nil)
		c.Check(err != nil, "AddressFromPubSlice-nil", "nil accepted")
		// hashes
		eq("NodeID.Hash", nv.Hash().Bytes(), keccak(n64))
		eq("Hash256", common.Hash256(in, n64).Bytes(), keccak(in, n64))
		hs, _ := common.Hash256s(in)
		eq("Hash256s", hs, keccak(in))
		// whatever can be encoded is hashed by its encoding
		for _, x := range []interface{}{in, string(in), nonce, n64, salt, uint8(nonce), nonce%2 == 0, []uint64{nonce}, struct {
			A uint64
			B []byte
		}{nonce, in}, map[string]uint64{"a": nonce}} {
			enc, err := rtl.Marshal(x)
			if err != nil {
				continue
			}
			o, err1 := common.HashObject(x)
			e, err2 := common.EncodeAndHash(x)
			c.Check(err1 == nil && err2 == nil, "object-hash", "hash of %T %v: %v, %v", x, x, err1, err2)
			eq("HashObject", o, keccak(enc))
			eq("EncodeAndHash", e, keccak(enc))
			eq("EncodeHash", common.EncodeHash(x).Bytes(), keccak(enc))
			c.Count("object_hashes", 1)
		}
		if _, err := common.HashObject(make(chan int)); err == nil {
			c.Violate("object-hash-refused", "a channel is hashed")
		}
		if _, err := common.EncodeAndHash(make(chan int)); err == nil {
			c.Violate("object-hash-refused", "a channel is encoded and hashed")
		}
		eq("Hash256NoError", common.Hash256NoError(in), keccak(in))
		eq("Hash256p", common.Hash256p(in)[:], keccak(in))
		eq("SystemHash256", common.SystemHash256(in, nil, n64), keccak(in, n64))
		eq("CipherHash256", common.CipherHash256(common.SystemHashProvider, in), keccak(in))
		eq("HashPair", common.HashPair(in, n64), keccak(in, n64))
		for _, order := range []bool{true, false} {
			w := keccak(in, n64)
			if !order {
				w = keccak(n64, in)
			}
			hp, err := common.HashPairOrder(order, in, n64)
			c.Check(err == nil && bytes.Equal(hp, w), "HashPairOrder", "HashPairOrder(%v,%x,%x)=%x,%v", order, in, n64, hp, err)
		}
		for k, x := range common.SlicesToHashs([][]byte{in, nil, n64, {}}) {
			w := [][]byte{keccak(in), common.NilHashSlice, keccak(n64), common.NilHashSlice}[k]
			if k == 0 && len(in) == 0 {
				w = common.NilHashSlice
			}
			c.Check(bytes.Equal(x, w), "SlicesToHashs", "hash %d of %x is %x", k, in, x)
		}
		c.Check(common.IsNilHash(in) == (len(in) == 0 || bytes.Equal(in, keccak())), "IsNilHash", "%x", in)
		c.Check(!common.InvalidHash(keccak(in)) == (len(in) != 0) && (len(in) >= 32 || common.InvalidHash(in)), "InvalidHash", "%x", in)
		ids := common.IdentifiersToNodeIDs([]common.NodeIdentifier{nodeIdent(nv), nil, nodeIdent(nv)})
		c.Check(len(ids) == 2 && ids[0] == nv && ids[1] == nv, "IdentifiersToNodeIDs", "%v", ids)
		rp := common.HashRipemd160(in)
		c.Check(len(rp) == 20, "HashRipemd160-length", "%x", rp)
		rp2 := common.HashRipemd160(append(mon.Clone(in), 0))
		c.Check(!bytes.Equal(rp, rp2), "HashRipemd160-collision", "%x and with a zero appended", in)
		c.Check(bytes.Equal(g, in) && g[:len(in)+1][len(in)] == 9, "argument-modified", "%x became %x", in, g)
	})
	c.Section("vectors", func(r *rand.Rand) {
		c.Check(common.IdentifiersToNodeIDs(nil) == nil && common.IsNilHash(common.NilHashSlice) && common.InvalidHash(common.NilHashSlice) && common.InvalidHash(make([]byte, 32)) && common.InvalidHash(common.EmptyNodeHashSlice), "special-hashes", "special hashes")
		for b := 0; b < 256; b++ {
			w := strings.IndexByte("0123456789abcdefABCDEF", byte(b)) >= 0
			c.Check(common.IsHexCharacter(byte(b)) == w && common.IsHex(string([]byte{byte(b), '0'})) == w && common.IsHex(string([]byte{'0', byte(b)})) == w, "IsHexCharacter", "character %d", b)
		}
		for in, want := range map[string]string{"": "9c1185a5c5e9fc54612808977ee8f548b2258d31", "abc": "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc", "message digest": "5d0689ef49d2fae572b881b123a85ffa21595f36"} {
			c.Check(hex.EncodeToString(common.HashRipemd160([]byte(in))) == want, "HashRipemd160", "%q -> %x", in, common.HashRipemd160([]byte(in)))
		}
		c.Check(hex.EncodeToString(common.Hash256NoError([]byte("abc"))) == "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45", "Hash256-vector", "keccak(abc)")
	})
	c.Cases("numbers", c.N2(2000, 30000), func(i int, r *rand.Rand) {
		for k := 0; k < 10; k++ {
			id := common.ChainID(uint32(edgeU64(r)))
			if r.Intn(5) == 0 {
				id = common.ChainID(uint32(1<<20 + r.Intn(3) - 1))
			}
			c.Count("roundtrips", 6)
			c.Case(id>>24 == 0, fmt.Sprintf("cid %d", id))
			ib := id.Bytes()
			c.Check(len(ib) == 4 && common.BytesToChainID(ib) == id && id.FromFormalize(id.Formalize()) == id, "ChainID-bytes", "%d -> %x", id, ib)
			c.Check(common.BytesToChainID(append([]byte{9, 9}, ib...)) == id && common.BytesToChainID(bytes.TrimLeft(ib, "\x00")) == id, "BytesToChainID", "%x", ib)
			bi := edgeInt(r, 40, true)
			if r.Intn(3) == 0 {
				bi = big.NewInt(int64(id))
			}
			got, ok := id.FromBig(bi)
			in := bi.Sign() >= 0 && bi.BitLen() <= 32
			c.Check(ok == in && (!ok && got.IsNil() || ok && big.NewInt(int64(got)).Cmp(bi) == 0), "ChainID.FromBig", "%s -> %d %v", bi, got, ok)
			c.Check(id.IsReserved() == (id < 1<<20) && id.IsNil() == (id == 1<<20) && id.IsUserDefined() == (id > 1<<20) && id.IsMain() == (id == 0) && id.IsSub() == (id != 0 && id != 1<<20), "ChainID-class", "%d", id)
			for what, v := range map[string]interface{}{"ChainID": id, "Height": common.Height(edgeU64(r)), "EpochNum": common.EpochNum(edgeU64(r)), "BlockNum": common.BlockNum(uint32(edgeU64(r))), "Version": common.Version(edgeU64(r)), "CoinID": common.CoinID(uint16(edgeU64(r)))} {
				for enc, f := range map[string]func(v interface{}, p interface{}) ([]byte, error){
					"rtl": func(v, p interface{}) ([]byte, error) {
						b, err := rtl.Marshal(v)
						if err == nil {
							err = rtl.Unmarshal(b, p)
						}
						return b, err
					},
					"rlp": func(v, p interface{}) ([]byte, error) {
						b, err := rlp.EncodeToBytes(v)
						if err == nil {
							err = rlp.DecodeBytes(b, p)
						}
						return b, err
					},
					"json": func(v, p interface{}) ([]byte, error) {
						b, err := json.Marshal(v)
						if err == nil {
							err = json.Unmarshal(b, p)
						}
						return b, err
					},
				} {
					p := reflect.New(reflect.TypeOf(v))
					b, err := f(v, p.Interface())
					c.Check(err == nil && reflect.DeepEqual(p.Elem().Interface(), v), what+"-"+enc, "%d -> %x -> %d, %v", v, b, p.Elem().Interface(), err)
				}
			}
			ma, mi, pa := uint64(r.Intn(1003)), uint64(r.Intn(1003)), uint64(r.Intn(1003))
			ver, err := common.NewNodeVersion(ma, mi, pa)
			if ma > 999 || mi > 999 || pa > 999 {
				c.Check(err != nil, "Version-range", "%d.%d.%d accepted", ma, mi, pa)
			} else {
				c.Check(err == nil && ver.Major() == ma && ver.Minor() == mi && ver.Patch() == pa && ver.String() == fmt.Sprintf("%d.%d.%d", ma, mi, pa), "Version", "%d.%d.%d -> %s %v", ma, mi, pa, ver, err)
			}
		}
	})
	c.Cases("compare", c.N2(1500, 20000), func(i int, r *rand.Rand) {
		for k := 0; k < 10; k++ {
			mk := func(n int) []byte {
				b := make([]byte, n)
				if r.Intn(3) == 0 {
					r.Read(b)
				}
				b[r.Intn(n)] ^= byte(r.Intn(2))
				return b
			}
			hb, hb2, ab, ab2, nb, nb2 := mk(32), mk(32), mk(20), mk(20), mk(64), mk(64)
			h, h2 := common.BytesToHashP(hb), common.BytesToHashP(hb2)
			a, a2 := common.BytesToAddressP(ab), common.BytesToAddressP(ab2)
			n, n2 := common.BytesToNodeIDP(nb), common.BytesToNodeIDP(nb2)
			s, s2 := common.BytesToSeedP(ab), common.BytesToSeedP(ab2)
			c.Count("compares", 8)
			c.Case(bytes.Equal(hb, hb2), fmt.Sprintf("%x%x", hb, hb2))
			c.Check(h.Equal(h2) == bytes.Equal(hb, hb2) && h.SliceEqual(hb) && h.SliceEqual(hb2) == bytes.Equal(hb, hb2) && common.HashLess(*h, *h2) == (bytes.Compare(hb, hb2) < 0), "Hash-compare", "%x %x", hb, hb2)
			c.Check(a.Equal(a2) == bytes.Equal(ab, ab2) && a.Cmp(a2) == bytes.Compare(ab, ab2) && a2.Cmp(a) == -a.Cmp(a2), "Address-compare", "%x %x", ab, ab2)
			c.Check(n.Compare(n2) == bytes.Compare(nb, nb2), "NodeID-compare", "%x %x", nb, nb2)
			c.Check(s.Equal(s2) == bytes.Equal(ab, ab2) && s.Equals(s2) == bytes.Equal(ab, ab2) && !s.Equals(3) && !s.Equals(nil), "Seed-compare", "%x %x", ab, ab2)
			var nh *common.Hash
			var na *common.Address
			var nn *common.NodeID
			var ns *common.Seed
			c.Check(nh.Equal(nil) && !nh.Equal(h) && !h.Equal(nil) && na.Equal(nil) && !na.Equal(a) && !a.Equal(nil) && ns.Equal(nil) && !ns.Equal(s) && !s.Equal(nil) &&
				na.Cmp(a) == -1 && a.Cmp(nil) == 1 && na.Cmp(nil) == 0 && nn.Compare(n) == -1 && n.Compare(nil) == 1 && nn.Compare(nil) == 0, "nil-compare", "nil ordering")
			// nil and the nil hash are one value to the helpers that say so
			nilh := common.NilHash
			c.Check(common.HashEquals(nil, &nilh) && common.HashEquals(&nilh, nil) && common.HashEquals(h, h2) == bytes.Equal(hb, hb2) && (common.HashEquals(h, nil) == h.IsNil()) &&
				common.HashSliceEquals(nil, nilh[:]) && common.HashSliceEquals(hb, hb2) == bytes.Equal(hb, hb2) && common.HashSliceEquals(hb, nil) == h.IsNil(), "HashEquals", "%x %x", hb, hb2)
			sx := make([]byte, r.Intn(36))
			r.Read(sx)
			sy := mon.Clone(sx)
			switch r.Intn(4) {
			case 0:
				sy = append(sy, 0)
			case 1:
				if len(sy) > 0 {
					sy[r.Intn(len(sy))] ^= 1
				}
			case 2:
				sy = sy[:r.Intn(len(sy)+1)]
			}
			c.Check(common.HashSliceEquals(sx, sy) == bytes.Equal(sx, sy) && common.HashSliceEquals(sy, sx) == bytes.Equal(sx, sy), "HashSliceEquals", "%x %x", sx, sy)
			l1, l2 := []common.Hash{*h, *h2}, []common.Hash{*h2, *h}
			c.Check(common.HashsEquals(l1, l2) == bytes.Equal(hb, hb2) && common.HashsEquals(l1, common.CopyHashs(l1)) && !common.HashsEquals(l1, l1[:1]), "HashsEquals", "%x %x", hb, hb2)
			cp := common.CopyHashs(l1)
			cp[0][0] ^= 1
			c.Check(l1[0] == *h, "CopyHashs", "copy shares memory")
			// optional values in RLP
			fh, fa := h.ForRLP(), a.ForRLP()
			bh, ba := fh.FromRLP(), fa.FromRLP()
			if !h.IsEmpty() {
				c.Check(bh.Equal(h), "Hash.ForRLP", "%x", hb)
			}
			if *a != (common.Address{}) {
				c.Check(ba.Equal(a), "Address.ForRLP", "%x", ab)
			}
			c.Check(nh.ForRLP().FromRLP() == nil && na.ForRLP().FromRLP() == nil, "ForRLP-nil", "nil did not survive")
			fh[0]++
			fa[0]++
			c.Check(bytes.Equal(h[:], hb) && bytes.Equal(a[:], ab), "ForRLP-alias", "%x", hb)
			rb := common.BytesForRLP(ab)
			rb[0]++
			c.Check(bytes.Equal(ab, a[:]) && common.BytesForRLP(nil) != nil, "BytesForRLP", "%x", ab)
			x := edgeInt(r, 100, true)
			y := common.BigIntForRLP(x)
			c.Check(y != x && y.Cmp(x) == 0 && common.BigIntForRLP(nil).Sign() == 0, "BigIntForRLP", "%s", x)
			// node id lists
			cnt := r.Intn(5)
			var ids common.NodeIDs
			for j := 0; j < cnt; j++ {
				ids = append(ids, common.BytesToNodeID(mk(64)))
			}
			pk := common.PackNodeIdsToBytes(ids)
			back, err := common.ParseBytesToNodeIds(pk)
			c.Check(err == nil && ids.Equal(back) && len(pk) == 64*cnt, "PackNodeIds", "%d ids: %v", cnt, err)
			bb, err := common.ParseBytesToNodeIdBytes(pk)
			okb := err == nil && len(bb) == cnt
			for j := 0; okb && j < cnt; j++ {
				okb = bytes.Equal(bb[j], ids[j][:])
			}
			c.Check(okb, "ParseBytesToNodeIdBytes", "%d ids", cnt)
			_, err = common.ParseBytesToNodeIds(append(mon.Clone(pk), make([]byte, 1+r.Intn(63))...))
			c.Check(err != nil, "ParseBytesToNodeIds-length", "accepted")
			var strs []string
			var ap common.NodeIDs
			for _, id := range ids {
				strs = append(strs, hex.EncodeToString(id[:]))
				c.Check(ap.AppendByHex(hex.EncodeToString(id[:])) == nil, "AppendByHex", "%x", id)
			}
			si, err := common.StringsToNodeIDs(strs)
			c.Check(err == nil && ids.Equal(si) && ids.Equal(ap), "StringsToNodeIDs", "%d ids %v", cnt, err)
			if cnt > 0 {
				strs[r.Intn(cnt)] += "z"
				_, err = common.StringsToNodeIDs(strs)
				c.Check(err != nil, "StringsToNodeIDs-malformed", "accepted %v", strs)
				for enc, f := range map[string]func(p *common.NodeIDs) error{
					"rtl":  func(p *common.NodeIDs) error { b, _ := rtl.Marshal(ids); return rtl.Unmarshal(b, p) },
					"rlp":  func(p *common.NodeIDs) error { b, _ := rlp.EncodeToBytes(ids); return rlp.DecodeBytes(b, p) },
					"json": func(p *common.NodeIDs) error { b, _ := json.Marshal(ids); return json.Unmarshal(b, p) },
				} {
					var p common.NodeIDs
					err := f(&p)
					c.Check(err == nil && p.Equal(ids), "NodeIDs-"+enc, "%d ids: %v", cnt, err)
				}
				cl := ids.Clone()
				cl[0][3] ^= 1
				c.Check(!cl.Equal(ids) && ids.Equal(back), "NodeIDs.Clone", "clone shares memory")
			}
		}
	})
	c.Cases("copies", c.N2(1500, 20000), func(i int, r *rand.Rand) {
		rnd := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
		hb, ab, nb, sb := rnd(32), rnd(20), rnd(64), rnd(20)
		h, a, n, s := common.BytesToHashP(hb), common.BytesToAddressP(ab), common.BytesToNodeIDP(nb), common.BytesToSeedP(sb)
		era := common.EraNum(edgeU64(r))
		c.Count("copies", 5)
		c.Case(true, fmt.Sprintf("%x", hb))
		// a copy is equal, and its own
		hc, ac, ac2, nc, nc2, sc, ec := h.Clone(), a.Clone(), a.Copy(), n.Clone(), n.New(), s.Clone(), era.Clone()
		c.Check(*hc == *h && *ac == *a && *ac2 == *a && *nc == *n && *nc2 == *n && *sc == *s && *ec == era, "Clone", "%x %x %x %x %d", hb, ab, nb, sb, era)
		hc[r.Intn(32)]++
		ac[r.Intn(20)]++
		ac2[r.Intn(20)]++
		nc[r.Intn(64)]++
		nc2[r.Intn(64)]++
		sc[r.Intn(20)]++
		*ec++
		c.Check(bytes.Equal(h[:], hb) && bytes.Equal(a[:], ab) && bytes.Equal(n[:], nb) && bytes.Equal(s[:], sb), "Clone-alias", "a copy shares memory with %x", hb)
		bs := [][]byte{h.Bytes(), a.Bytes(), n.Bytes(), h.Slice(), a.Slice(), s.Slice(), s.Byte()}
		for k, w := range [][]byte{hb, ab, nb, hb, ab, sb, sb} {
			c.Check(bytes.Equal(bs[k], w), "Slice", "form %d of %x: %x", k, w, bs[k])
		}
		v := a.Value()
		v[0]++
		c.Check(bytes.Equal(a[:], ab), "Value-alias", "%x", ab)
		eb := make([]byte, 8)
		binary.BigEndian.PutUint64(eb, uint64(era))
		c.Check(bytes.Equal(era.Bytes(), eb) && bytes.Equal(era.Slice(), eb) && era.Value() == era && era.Hash() == common.EncodeHash(&era), "EraNum", "%d", era)
		c.Check(bytes.Equal(common.BlockNum(uint32(era)).Bytes(), eb[4:]), "BlockNum.Bytes", "%d", era)
		// a hash is its own hash value, the identifier's hash values agree
		hv, err := h.HashValue()
		c.Check(err == nil && bytes.Equal(hv, hb), "Hash.HashValue", "%x", hb)
		nv, err := n.HashValue()
		nh := n.Hash()
		c.Check(err == nil && bytes.Equal(nv, nh[:]) && bytes.Equal(nv, keccak(nb)), "NodeID.HashValue", "%x", nb)
		sh := s.Hash()
		c.Check(bytes.Equal(sh[:], keccak(sb)), "Seed.Hash", "%x", sb)
		ah := a.Hash()
		c.Check(bytes.Equal(ah[:12], make([]byte, 12)) && bytes.Equal(ah[12:], ab), "Address.Hash", "%x -> %x", ab, ah[:])
		id := common.ChainID(uint32(edgeU64(r)))
		iv, err := id.HashValue()
		c.Check(err == nil && bytes.Equal(iv, keccak(id.Bytes())), "ChainID.HashValue", "%d", id)
		we, err := common.Hash256WithError(hb, nb)
		c.Check(err == nil && bytes.Equal(we[:], keccak(hb, nb)), "Hash256WithError", "%x", hb)
		// special values
		for _, x := range []common.Hash{*h, common.NilHash, common.EmptyHash, common.EmptyNodeHash} {
			c.Check(x.IsNil() == (x == common.NilHash) && x.IsEmpty() == (x == common.EmptyHash) && x.IsEmptyNode() == (x == common.EmptyNodeHash) &&
				x.Invalid() == (x == common.NilHash || x == common.EmptyHash || x == common.EmptyNodeHash), "Hash-special", "%x", x[:])
		}
		c.Check((&common.Seed{}).IsZero() && (s.IsZero() == (bytes.Equal(sb, make([]byte, 20)))), "Seed.IsZero", "%x", sb)
		var pe, pe2 *common.EraNum
		e2 := era
		c.Check(era.Equal(&e2) && !era.Equal(nil) && pe.Equal(pe2) && !pe.Equal(&era) && pe.Hash() == common.NilHash && pe.Slice() == nil && pe.Clone() == nil && pe.Value() == common.NilEra, "EraNum-nil", "%d", era)
		var ph *common.Hash
		var pa *common.Address
		var pn *common.NodeID
		var ps *common.Seed
		c.Check(ph.Clone() == nil && pa.Clone() == nil && pn.Clone() == nil && ps.Clone() == nil && ph.Slice() == nil && pa.Slice() == nil && ps.Slice() == nil && pa.Value() == common.Address{} &&
			ps.Hash() == common.NilHash && ph.SliceEqual(nil) && !ph.SliceEqual(hb) && !h.SliceEqual(nil), "nil-copies", "nil")
		// texts and lists of texts
		ts := []string{string(ab), string(nb), ""}
		tl := common.StringsToAddresses(ts)
		c.Check(len(tl) == 3 && bytes.Equal(tl[0][:], ab) && bytes.Equal(tl[1][:], nb[44:]) && tl[2] == common.Address{} && common.StringsToAddresses(nil) == nil, "StringsToAddresses", "%x", tl)
		// generated ones differ
		var g1, g2 common.Address
		var s1, s2 common.Seed
		n1, n2 := common.GenerateNodeID(), common.GenerateNodeID()
		c.Check(g1.Generate() == nil && g2.Generate() == nil && s1.Generate() == nil && s2.Generate() == nil && g1 != g2 && s1 != s2 && *n1 != *n2 &&
			g1 != common.Address{} && s1 != common.Seed{} && *n1 != common.NodeID{}, "Generate", "%x %x", g1[:], g2[:])
		c.Check(!bytes.Equal(n1[56:], make([]byte, 8)) && !bytes.Equal(n1[:8], make([]byte, 8)) && !bytes.Equal(g1[12:], make([]byte, 8)), "Generate-short", "%x", n1[:])
		rb := common.RandomByteSlices(3, 17)
		c.Check(len(rb) == 3 && len(rb[0]) == 17 && len(rb[2]) == 17 && !bytes.Equal(rb[0], rb[1]) && len(common.RandomBytes(i%40)) == i%40 && len(common.RandomByteSlices(0, 5)) == 0, "RandomBytes", "%x", rb)
		// election types by their names
		t := common.ElectionType(r.Intn(10))
		known := t == common.ETNone || t == common.ETVrf || t == common.ETManagedCommittee
		bt, ok := common.StringToElectionType(t.Name())
		c.Check(t.IsValid() == known && ok && (bt == t || t != common.ETVrf && t != common.ETManagedCommittee && bt == common.ETVrf) && !(t.IsVrf() && t.IsManaged()) && t.IsManaged() == (t == common.ETManagedCommittee), "ElectionType", "%d is called %s, which is %d", t, t.Name(), bt)
		_, ok = common.StringToElectionType(t.Name() + "x")
		c.Check(!ok, "ElectionType-name", "%sx", t.Name())
	})
}

func mustHex(s string) []byte { b, _ := hex.DecodeString(s); return b }

type nodeIdent common.NodeID

func (n nodeIdent) Priv() []byte            { return nil }
func (n nodeIdent) Pub() []byte             { return n[:] }
func (n nodeIdent) NodeID() common.NodeID   { return common.NodeID(n) }
func (n nodeIdent) NodeIDP() *common.NodeID { x := common.NodeID(n); return &x }

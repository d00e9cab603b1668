package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"strings"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/abi"

	"verif/harness/abix"
	"verif/harness/mon"
)

func init() {
	mon.Register(&mon.Check{ID: "A01",
		Rule:  "random argument lists (nested tuples, arrays, slices) and values packed, compared with the reference encoder, unpacked into lists, maps, structs and through a parsed ABI; ill-typed variants of the same values; non-trivial when the list has a composite type",
		Floor: map[string]int64{"packed": 3000, "unpacked_list": 3000, "unpacked_struct": 1000, "unpacked_map": 1000, "ill_typed": 2000, "abi_calls": 1000, "refused_calls": 5000, "misfits": 2000, "types": 1000, "converted": 20000}, Run: runA01})
	mon.Register(&mon.Check{ID: "A02",
		Rule:  "valid encodings of random types cut at every length and damaged word by word, unpacked next to a lenient reference decoder; non-trivial when the damaged bytes differ from the valid ones",
		Floor: map[string]int64{"accepted": 3000, "rejected": 10000, "truncations": 5000, "entry_points": 5000, "destinations": 5000, "cut_reverts": 1000, "refused_errors": 1500}, Run: runA02})
	mon.Register(&mon.Check{ID: "A03",
		Rule:  "random events with indexed arguments at any position, topics and data made from random values, parsed back into maps and structs; non-trivial when an indexed argument follows one that is not",
		Floor: map[string]int64{"topics": 5000, "events": 2000, "mixed_order": 500, "composite": 500, "negative": 500, "foreign_read": 1000, "foreign_rejected": 300, "refused_events": 3000, "bad_topics": 500, "misfits": 3000}, Run: runA03})
	mon.Register(&mon.Check{ID: "A04",
		Rule:  "random ABI descriptions with overloaded names parsed and looked up, type strings and selectors from and next to the grammar; non-trivial when a name is overloaded or the string is malformed",
		Floor: map[string]int64{"descriptions": 500, "methods": 1500, "overloads": 300, "types_valid": 2000, "types_malformed": 2000, "selectors_valid": 1000, "selectors_malformed": 2000, "mutated_json": 2000, "kinds": 2000, "kinds_bad": 500, "bad_arguments": 300}, Run: runA04})
}

// abiArgs makes the library's argument list for the fields.
func abiArgs(c *mon.Ctx, fs []abix.Field) abi.Arguments {
	var args abi.Arguments
	for _, f := range fs {
		s, comps := f.Ty.Desc()
		t, err := abi.NewType(s, "", comps)
		if err != nil {
			c.Violate("new-type", "NewType(%q) of %s: %v", s, f.Ty.Canon(), err)
			return nil
		}
		args = append(args, abi.Argument{Name: f.Name, Type: t})
	}
	return args
}

func canonList(fs []abix.Field) string {
	t := abix.Ty{K: abix.Tuple, Fields: fs}
	return t.Canon()
}

func tys(fs []abix.Field) (ts []*abix.Ty) {
	for _, f := range fs {
		ts = append(ts, f.Ty)
	}
	return
}

func genVals(r *rand.Rand, fs []abix.Field) (vs []*abix.Val) {
	for _, f := range fs {
		vs = append(vs, abix.GenVal(r, f.Ty))
	}
	return
}

func goVals(fs []abix.Field, vs []*abix.Val) (out []interface{}) {
	for i, f := range fs {
		out = append(out, abix.Go(f.Ty, vs[i]))
	}
	return
}

func showVals(vs []*abix.Val) string {
	var s []string
	for _, v := range vs {
		s = append(s, v.Show())
	}
	return trim1(strings.Join(s, ", "))
}

// sameVals compares what the library produced with the values.
func sameVals(c *mon.Ctx, how string, fs []abix.Field, vs []*abix.Val, got []interface{}, err error, data []byte) {
	if err != nil {
		c.Violate(how+"-error", "%s of %s %s from %s: %v", how, canonList(fs), showVals(vs), hexs(data), err)
		return
	}
	if len(got) != len(vs) {
		c.Violate(how+"-count", "%s of %s gave %d values", how, canonList(fs), len(got))
		return
	}
	for i, f := range fs {
		v, err := abix.FromGo(f.Ty, reflect.ValueOf(got[i]))
		if err != nil {
			c.Violate(how+"-type", "%s of %s, argument %d: %v", how, canonList(fs), i, err)
		} else if !abix.Equal(v, vs[i]) {
			c.Violate(how+"-value", "%s of %s, argument %d (%s): got %s, want %s (data %s)", how, canonList(fs), i, f.Ty.Canon(), trim1(v.Show()), trim1(vs[i].Show()), hexs(data))
		}
	}
}

func structVals(x reflect.Value) (out []interface{}) {
	for i := 0; i < x.NumField(); i++ {
		out = append(out, x.Field(i).Interface())
	}
	return
}

func hasComposite(fs []abix.Field) bool {
	for _, f := range fs {
		if f.Ty.K >= abix.Slice {
			return true
		}
	}
	return false
}

// variant: the same value in another accepted Go shape: behind pointers, in a struct with reordered, tagged or extra fields.
func variant(r *rand.Rand, t *abix.Ty, v *abix.Val) interface{} {
	x := abix.Go(t, v)
	if t.K == abix.Tuple && r.Intn(2) == 0 {
		var sf []reflect.StructField
		perm := r.Perm(len(t.Fields))
		for j, i := range perm {
			f := t.Fields[i]
			n := reflect.StructField{Name: abix.Camel(f.Name), Type: f.Ty.GoType()}
			if r.Intn(2) == 0 {
				n.Name, n.Tag = fmt.Sprintf("Other%d", j), reflect.StructTag(`abi:"`+f.Name+`"`)
			}
			sf = append(sf, n)
		}
		if r.Intn(2) == 0 {
			sf = append(sf, reflect.StructField{Name: "Unrelated", Type: reflect.TypeOf(0)})
		}
		s := reflect.New(reflect.StructOf(sf)).Elem()
		for j, i := range perm {
			abix.ToGo(t.Fields[i].Ty, v.L[i], s.Field(j))
		}
		x = s.Interface()
	}
	if k := reflect.TypeOf(x).Kind(); k != reflect.Ptr && r.Intn(2) == 0 {
		p := reflect.New(reflect.TypeOf(x))
		p.Elem().Set(reflect.ValueOf(x))
		x = p.Interface()
		if r.Intn(3) == 0 {
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			x = pp.Interface()
		}
	}
	return x
}

// illTyped returns a Go value that is not a value of t: one leaf or one array length differs.
func illTyped(r *rand.Rand, t *abix.Ty) interface{} {
	var mut func(t *abix.Ty) *abix.Ty
	mut = func(t *abix.Ty) *abix.Ty {
		n := *t
		switch t.K {
		case abix.Slice:
			n.Elem = mut(t.Elem)
		case abix.Array:
			if r.Intn(2) == 0 {
				n.Size += 1 + r.Intn(2)
			} else {
				n.Elem = mut(t.Elem)
			}
		case abix.Tuple:
			n.Fields = append([]abix.Field{}, t.Fields...)
			i := r.Intn(len(n.Fields))
			n.Fields[i].Ty = mut(n.Fields[i].Ty)
		default:
			for {
				n = *abix.GenElem(r)
				a, b := t.GoType(), n.GoType()
				if a.Kind() == b.Kind() && a != b && (a.Kind() == reflect.Array) || a.Kind() != b.Kind() {
					break
				}
			}
		}
		return &n
	}
	m := mut(t)
	var full func(t *abix.Ty) *abix.Val // no empty slices: their elements could not be ill-typed
	full = func(t *abix.Ty) *abix.Val {
		v := &abix.Val{}
		switch t.K {
		case abix.Slice:
			for k := r.Intn(2); k >= 0; k-- {
				v.L = append(v.L, full(t.Elem))
			}
		case abix.Array:
			for k := 0; k < t.Size; k++ {
				v.L = append(v.L, full(t.Elem))
			}
		case abix.Tuple:
			for _, f := range t.Fields {
				v.L = append(v.L, full(f.Ty))
			}
		default:
			return abix.GenVal(r, t)
		}
		return v
	}
	return abix.Go(m, full(m))
}

func runA01(c *mon.Ctx) {
	c.Section("pack", func(r0 *rand.Rand) {
		c.Cases("types", c.N2(12500, 240000), func(_ int, r *rand.Rand) {
			fs := abix.GenFields(r, r.Intn(5), 1+r.Intn(3))
			args := abiArgs(c, fs)
			if len(args) != len(fs) {
				return
			}
			c.Count("types", 1)
			c.Case(hasComposite(fs), canonList(fs))
			for k := 0; k < 3; k++ {
				vs := genVals(r, fs)
				want := abix.EncodeList(tys(fs), vs)
				gv := goVals(fs, vs)
				c.Guard("pack "+canonList(fs)+" "+showVals(vs), func() {
					got, err := args.Pack(gv...)
					if err != nil || !bytes.Equal(got, want) {
						c.Violate("pack", "Pack of %s %s: %s err %v, want %s", canonList(fs), showVals(vs), hexs(got), err, hexs(want))
					}
					c.Count("packed", 1)
					for i, f := range fs {
						if v, err := abix.FromGo(f.Ty, reflect.ValueOf(gv[i])); err != nil || !abix.Equal(v, vs[i]) {
							c.Violate("pack-changes-argument", "Pack of %s %s changed argument %d", canonList(fs), showVals(vs), i)
						}
					}
					if got, err = args.PackValues(gv); err != nil || !bytes.Equal(got, want) {
						c.Violate("pack-values", "PackValues of %s %s: %s err %v, want %s", canonList(fs), showVals(vs), hexs(got), err, hexs(want))
					}
					vv := make([]interface{}, len(fs))
					for i, f := range fs {
						vv[i] = variant(r, f.Ty, vs[i])
					}
					if got, err = args.Pack(vv...); err != nil || !bytes.Equal(got, want) {
						c.Violate("pack-variant", "Pack of %s %s given as %T: %s err %v, want %s", canonList(fs), showVals(vs), vv, hexs(got), err, hexs(want))
					}
					if _, err := args.Pack(append(append([]interface{}{}, gv...), 1)...); err == nil {
						c.Violate("pack-count", "Pack of %s accepts %d values", canonList(fs), len(gv)+1)
					}
				})
				c.Guard("unpack "+canonList(fs)+" "+showVals(vs), func() { unpackAll(c, fs, args, vs, want) })
				if len(fs) > 0 {
					i := r.Intn(len(fs))
					bad := append([]interface{}{}, gv...)
					bad[i] = illTyped(r, fs[i].Ty)
					switch r.Intn(12) {
					case 0:
						bad[i] = nil
					case 1:
						bad[i] = reflect.Zero(reflect.PtrTo(fs[i].Ty.GoType())).Interface()
					case 2:
						if reflect.TypeOf(gv[i]).Kind() == reflect.Ptr {
							bad[i] = (*big.Int)(nil)
						}
					case 3:
						if fs[i].Ty.K == abix.Address || fs[i].Ty.K == abix.FixedBytes {
							bad[i] = reflect.New(reflect.ArrayOf(reflect.TypeOf(gv[i]).Len(), reflect.TypeOf(uint32(0)))).Elem().Interface()
						}
					}
					c.Guard(fmt.Sprintf("ill-typed %T for %s", bad[i], fs[i].Ty.Canon()), func() {
						got, err := args.Pack(bad...)
						c.Count("ill_typed", 1)
						if err == nil {
							c.Violate("ill-typed", "Pack of %s accepts %T %v for argument %d (%s): %s", canonList(fs), bad[i], bad[i], i, fs[i].Ty.Canon(), hexs(got))
						}
					})
				}
			}
		})
	})
	c.Section("abi", func(r0 *rand.Rand) {
		c.Cases("abis", c.N2(3500, 60000), func(_ int, r *rand.Rand) { abiCalls(c, r) })
	})
	c.Section("shapes", func(r0 *rand.Rand) {
		c.Cases("shapes", c.N2(5000, 80000), func(_ int, r *rand.Rand) { abiShapes(c, r) })
	})
}

// shaped is a struct for the fields that is not laid out like them: other order, some fields found by
// their tag, fields of its own in between. at[i] is the position of field i.
func shaped(r *rand.Rand, fs []abix.Field) (t reflect.Type, at []int, own []int) {
	at = make([]int, len(fs))
	var sf []reflect.StructField
	pad := func() {
		for r.Intn(3) == 0 {
			own = append(own, len(sf))
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("Own%dField", len(sf)), Type: reflect.TypeOf(int(0))})
		}
	}
	for _, i := range r.Perm(len(fs)) {
		pad()
		at[i] = len(sf)
		f := reflect.StructField{Name: abix.Camel(fs[i].Name), Type: fs[i].Ty.GoType()}
		switch r.Intn(3) {
		case 0:
			f.Name, f.Tag = fmt.Sprintf("Tagged%dField", len(sf)), reflect.StructTag(`json:"x" abi:"`+fs[i].Name+`"`)
		case 1:
			f.Tag = reflect.StructTag(`abi:"` + fs[i].Name + `"`)
		}
		sf = append(sf, f)
	}
	pad()
	return reflect.StructOf(sf), at, own
}

// abiShapes: destinations and arguments of other shapes than the one the type prescribes.
func abiShapes(c *mon.Ctx, r *rand.Rand) {
	fs := abix.GenFields(r, 1+r.Intn(4), 1)
	args := abiArgs(c, fs)
	if len(args) != len(fs) {
		return
	}
	vs := genVals(r, fs)
	data := abix.EncodeList(tys(fs), vs)
	c.Case(len(fs) > 1, canonList(fs))
	st, at, own := shaped(r, fs)
	what := canonList(fs) + " and " + st.String()
	pick := func(p reflect.Value) (out []interface{}) {
		for i := range fs {
			out = append(out, p.Elem().Field(at[i]).Interface())
		}
		return
	}
	fill := func() reflect.Value {
		p := reflect.New(st)
		for _, k := range own {
			p.Elem().Field(k).SetInt(int64(k) + 77)
		}
		return p
	}
	kept := func(how string, p reflect.Value) {
		for _, k := range own {
			if p.Elem().Field(k).Int() != int64(k)+77 {
				c.Violate(how+"-own", "%s of %s changed field %s", how, what, st.Field(k).Name)
			}
		}
	}
	c.Guard("shapes "+what, func() {
		if len(fs) > 1 {
			p := fill()
			err := args.UnpackIntoInterface(p.Interface(), data)
			sameVals(c, "unpack-shaped", fs, vs, pick(p), err, data)
			kept("unpack-shaped", p)
			c.Count("shaped", 1)
			// a list: array of interfaces, longer slices, pointers as elements
			ap := reflect.New(reflect.ArrayOf(len(fs)+r.Intn(2), reflect.TypeOf((*interface{})(nil)).Elem()))
			err = args.UnpackIntoInterface(ap.Interface(), data)
			var av []interface{}
			for i := range fs {
				av = append(av, ap.Elem().Index(i).Interface())
			}
			sameVals(c, "unpack-array", fs, vs, av, err, data)
			l := make([]interface{}, len(fs)+r.Intn(2))
			ptrs := make([]reflect.Value, len(fs))
			for i, f := range fs {
				ptrs[i] = reflect.New(f.Ty.GoType())
				l[i] = ptrs[i].Interface()
			}
			err = args.UnpackIntoInterface(&l, data)
			for i := range fs {
				av[i] = ptrs[i].Elem().Interface()
			}
			sameVals(c, "unpack-pointers", fs, vs, av, err, data)
			short := make([]interface{}, len(fs)-1)
			if err := args.UnpackIntoInterface(&short, data); err == nil {
				c.Violate("unpack-short-list", "unpacking %s into %d elements succeeds", canonList(fs), len(short))
			}
		}
		// a tuple made from such a struct
		p := fill()
		for i, f := range fs {
			abix.ToGo(f.Ty, vs[i], p.Elem().Field(at[i]))
		}
		tup := []abix.Field{{Name: "t", Ty: &abix.Ty{K: abix.Tuple, Fields: fs}}}
		if ta := abiArgs(c, tup); len(ta) == 1 {
			want := abix.EncodeList(tys(tup), []*abix.Val{{L: vs}})
			got, err := ta.Pack(p.Elem().Interface())
			if err != nil || !bytes.Equal(got, want) {
				c.Violate("pack-shaped", "packing %s: %s err %v, want %s", what, hexs(got), err, hexs(want))
			}
			got, err = ta.Pack(p.Interface())
			if err != nil || !bytes.Equal(got, want) {
				c.Violate("pack-shaped", "packing a pointer to %s: %s err %v, want %s", what, hexs(got), err, hexs(want))
			}
			kept("pack-shaped", p)
		}
		// arguments nobody named
		js := jArgs(fs)
		for i := range js {
			js[i].Name = ""
		}
		desc, _ := json.Marshal([]jEntry{{Type: "function", Name: "run", Inputs: js, Outputs: js}, {Type: "error", Name: "Er", Inputs: js}})
		a, err := abi.JSON(bytes.NewReader(desc))
		if err != nil {
			c.Violate("json", "JSON(%s): %v", desc, err)
			return
		}
		got, err := a.Unpack("run", data)
		sameVals(c, "unpack-unnamed", fs, vs, got, err, data)
		p2, err := a.PackInputWithoutID("run", goVals(fs, vs)...)
		if err != nil || !bytes.Equal(p2, data) {
			c.Violate("pack-unnamed", "packing %s: %s err %v, want %s", desc, hexs(p2), err, hexs(data))
		}
		if len(fs) > 1 {
			l := make([]interface{}, len(fs))
			err = a.UnpackIntoInterface(&l, "run", data)
			sameVals(c, "unpack-unnamed-list", fs, vs, l, err, data)
		} else if fs[0].Ty.K != abix.Tuple {
			p := reflect.New(fs[0].Ty.GoType())
			err = a.UnpackReturns(p.Interface(), "run", data)
			sameVals(c, "unpack-unnamed-one", fs, vs, []interface{}{p.Elem().Interface()}, err, data)
		}
		er := a.Errors["Er"]
		x, err := er.Unpack(append(append([]byte{}, er.ID[:4]...), data...))
		xs, _ := x.([]interface{})
		sameVals(c, "unpack-revert-data", fs, vs, xs, err, data)
		if _, err := er.Unpack(append([]byte{er.ID[0] ^ 1, er.ID[1], er.ID[2], er.ID[3]}, data...)); err == nil {
			c.Violate("unpack-foreign-error", "the data of another error is taken for %s", er.Sig)
		}
		for i, in := range er.Inputs {
			c.Check(in.Name == fmt.Sprintf("arg%d", i), "unnamed-name", "argument %d of the error %s is called %q", i, desc, in.Name)
		}
		// names nobody declared
		v := reflect.New(abix.StructOf(fs)).Interface()
		for i, f := range []func() error{
			func() error { _, e := a.Pack("gone", goVals(fs, vs)...); return e },
			func() error { _, e := a.PackInputWithoutID("gone", goVals(fs, vs)...); return e },
			func() error { _, e := a.PackReturns("gone", goVals(fs, vs)...); return e },
			func() error { _, e := a.PackEventArgs("gone", goVals(fs, vs)...); return e },
			func() error { _, e := a.Unpack("gone", data); return e },
			func() error { return a.UnpackIntoInterface(v, "gone", data) },
			func() error { return a.UnpackIntoMap(map[string]interface{}{}, "gone", data) },
			func() error { return a.InputUnpack(map[string]interface{}{}, "gone", data) },
			func() error { return a.UnpackInput(v, "gone", data) },
			func() error { return a.UnpackInputObject(v, "gone", append(make([]byte, 4), data...)) },
			func() error { return a.UnpackReturnsMap(map[string]interface{}{}, "gone", data) },
			func() error { return a.UnpackReturns(v, "gone", data) },
			func() error { return a.UnpackInputObject(v, "run", a.Methods["run"].ID[:3]) },
			func() error { return a.InputUnpack(map[string]interface{}{}, "run", nil) },
			func() error { return a.UnpackReturns(v, "run", data[:len(data)-1]) },
			func() error { return a.UnpackReturnsMap(map[string]interface{}{}, "run", data[:len(data)-1]) },
			func() error { _, e := a.ReturnsString(a.Methods["run"].ID[:3], data); return e },
			func() error { _, e := a.MethodString(a.Methods["run"].ID[:3]); return e },
		} {
			if err := f(); err == nil {
				c.Violate("unknown-name", "call %d with a name or input that does not exist succeeds; %s", i, desc)
			}
		}
	})
}

// untagged is the type with the tags of its structs left out.
func untagged(t reflect.Type) reflect.Type {
	switch {
	case t.Name() != "":
		return t
	case t.Kind() == reflect.Slice:
		return reflect.SliceOf(untagged(t.Elem()))
	case t.Kind() == reflect.Array:
		return reflect.ArrayOf(t.Len(), untagged(t.Elem()))
	case t.Kind() == reflect.Struct:
		var sf []reflect.StructField
		for i := 0; i < t.NumField(); i++ {
			sf = append(sf, reflect.StructField{Name: t.Field(i).Name, Type: untagged(t.Field(i).Type)})
		}
		return reflect.StructOf(sf)
	}
	return t
}

// oddDest makes a destination for the fields that rarely fits them.
func oddDest(r *rand.Rand, fs []abix.Field) interface{} {
	other := func(t *abix.Ty) reflect.Type {
		switch r.Intn(9) {
		case 0, 1, 2:
			return t.GoType()
		case 3:
			return reflect.PtrTo(t.GoType())
		case 4:
			return reflect.SliceOf(t.GoType())
		case 5:
			return reflect.TypeOf((*interface{})(nil)).Elem()
		case 6:
			return []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{}{}), reflect.TypeOf(big.Int{}), reflect.TypeOf([3]uint16{}), reflect.TypeOf([]string{})}[r.Intn(7)]
		case 7:
			return abix.Gen(r, 1).GoType()
		}
		return reflect.TypeOf(illTyped(r, t))
	}
	switch r.Intn(8) {
	case 0:
		return reflect.New(other(fs[0].Ty)).Interface()
	case 1:
		return reflect.Zero(reflect.PtrTo(abix.StructOf(fs))).Interface() // nil pointer
	case 2:
		return reflect.Zero(abix.StructOf(fs)).Interface() // no pointer
	case 3:
		l := make([]interface{}, r.Intn(len(fs)+2))
		for i := range l {
			if i < len(fs) && r.Intn(2) == 0 {
				l[i] = reflect.New(other(fs[i].Ty)).Interface()
			}
		}
		return &l
	}
	var sf []reflect.StructField
	for _, f := range fs {
		if r.Intn(6) > 0 {
			sf = append(sf, reflect.StructField{Name: abix.Camel(f.Name), Type: other(f.Ty)})
		}
	}
	return reflect.New(reflect.StructOf(sf)).Interface()
}

func unpackAll(c *mon.Ctx, fs []abix.Field, args abi.Arguments, vs []*abix.Val, data []byte) {
	in := append([]byte{}, data...)
	got, err := args.Unpack(data)
	sameVals(c, "unpack", fs, vs, got, err, data)
	c.Count("unpacked_list", 1)
	m := map[string]interface{}{}
	err = args.UnpackIntoMap(m, data)
	var mv []interface{}
	for _, f := range fs {
		mv = append(mv, m[f.Name])
	}
	if err == nil && len(m) != len(fs) {
		c.Violate("map-keys", "UnpackIntoMap of %s: %d keys", canonList(fs), len(m))
	}
	sameVals(c, "unpack-map", fs, vs, mv, err, data)
	c.Count("unpacked_map", 1)
	if len(fs) > 0 {
		p := reflect.New(abix.StructOf(fs))
		err = args.UnpackIntoInterface(p.Interface(), data)
		sameVals(c, "unpack-struct", fs, vs, structVals(p.Elem()), err, data)
		c.Count("unpacked_struct", 1)
	}
	if len(fs) > 1 {
		l := make([]interface{}, len(fs))
		err = args.UnpackIntoInterface(&l, data)
		sameVals(c, "unpack-slice", fs, vs, l, err, data)
	} else if len(fs) == 1 && fs[0].Ty.K != abix.Tuple {
		p := reflect.New(fs[0].Ty.GoType())
		err = args.UnpackIntoInterface(p.Interface(), data)
		sameVals(c, "unpack-atomic", fs, vs, []interface{}{p.Elem().Interface()}, err, data)
	}
	for i, f := range fs {
		if i >= len(got) || got[i] == nil || f.Ty.K < abix.Slice {
			continue
		}
		// into the caller's own types: a value of such a type, or a pointer to one
		for _, ptr := range []bool{false, true} {
			own := f.Ty.GoType()
			if !ptr {
				own = untagged(reflect.TypeOf(got[i]))
			}
			dst := reflect.New(own)
			proto := dst.Interface()
			if !ptr {
				proto = dst.Elem().Interface()
			}
			res := abi.ConvertType(got[i], proto)
			v := reflect.ValueOf(res)
			if ptr {
				if res != proto {
					c.Violate("convert-type", "ConvertType into a pointer to %s gives another object (%T)", f.Ty.Canon(), res)
					continue
				}
				v = v.Elem()
			} else if v.Type() != own {
				c.Violate("convert-type", "ConvertType into %s gives a %T", f.Ty.Canon(), res)
				continue
			}
			w, err := abix.FromGo(f.Ty, v)
			if err != nil || !abix.Equal(w, vs[i]) {
				c.Violate("convert-type", "ConvertType of %s (pointer: %v): %v, %v, want %s", f.Ty.Canon(), ptr, w.Show(), err, trim1(vs[i].Show()))
			}
			c.Count("converted", 1)
		}
	}
	if !bytes.Equal(in, data) {
		c.Violate("unpack-changes-data", "unpacking %s changed the data", canonList(fs))
	}
}

// misfit is the struct of the fields with one of them, possibly inside of a tuple or an array,
// of a type that holds no ABI value.
func misfit(r *rand.Rand, fs []abix.Field) reflect.Type {
	wrong := reflect.TypeOf((chan int)(nil))
	var of func(t *abix.Ty) reflect.Type
	str := func(fs []abix.Field) reflect.Type {
		at := r.Intn(len(fs))
		var sf []reflect.StructField
		for i := 0; i < abix.StructOf(fs).NumField(); i++ {
			f := abix.StructOf(fs).Field(i)
			if i == at {
				f.Type = of(fs[i].Ty)
			}
			f.Offset, f.Index = 0, nil
			sf = append(sf, f)
		}
		return reflect.StructOf(sf)
	}
	of = func(t *abix.Ty) reflect.Type {
		switch {
		case r.Intn(4) == 0:
		case t.K == abix.Tuple && len(t.Fields) > 0:
			return str(t.Fields)
		case t.K == abix.Array && t.Size > 0:
			return reflect.ArrayOf(t.Size, of(t.Elem))
		}
		return wrong
	}
	return str(fs)
}

type jArg struct {
	Name       string `json:"name"`
	Type       string `json:"type"`
	Components []jArg `json:"components,omitempty"`
	Indexed    bool   `json:"indexed,omitempty"`
}

type jEntry struct {
	Type    string `json:"type"`
	Name    string `json:"name,omitempty"`
	Inputs  []jArg `json:"inputs"`
	Outputs []jArg `json:"outputs,omitempty"`
	Anon    bool   `json:"anonymous,omitempty"`
}

func jArgs(fs []abix.Field) []jArg {
	out := []jArg{}
	var conv func(cs []abi.ArgumentMarshaling) []jArg
	conv = func(cs []abi.ArgumentMarshaling) (o []jArg) {
		for _, x := range cs {
			o = append(o, jArg{Name: x.Name, Type: x.Type, Components: conv(x.Components)})
		}
		return
	}
	for _, f := range fs {
		s, cs := f.Ty.Desc()
		out = append(out, jArg{Name: f.Name, Type: s, Components: conv(cs)})
	}
	return out
}

// abiCalls packs and unpacks through a parsed ABI.
func abiCalls(c *mon.Ctx, r *rand.Rand) {
	in, out, con := abix.GenFields(r, r.Intn(4), 2), abix.GenFields(r, 1+r.Intn(3), 2), abix.GenFields(r, r.Intn(3), 2)
	js, _ := json.Marshal([]jEntry{{Type: "function", Name: "run", Inputs: jArgs(in), Outputs: jArgs(out)}, {Type: "constructor", Inputs: jArgs(con)}})
	c.Guard("abi "+string(js), func() {
		a, err := abi.JSON(bytes.NewReader(js))
		if err != nil {
			c.Violate("json", "JSON(%s): %v", js, err)
			return
		}
		c.Case(true, canonList(in)+canonList(out))
		id := keccak([]byte("run" + canonList(in)))[:4]
		vi, vo, vc := genVals(r, in), genVals(r, out), genVals(r, con)
		wi, wo, wc := abix.EncodeList(tys(in), vi), abix.EncodeList(tys(out), vo), abix.EncodeList(tys(con), vc)
		exp := func(what string, got []byte, err error, want []byte) {
			c.Count("abi_calls", 1)
			if err != nil || !bytes.Equal(got, want) {
				c.Violate(what, "%s of %s: %s err %v, want %s", what, js, hexs(got), err, hexs(want))
			}
		}
		full := append(append([]byte{}, id...), wi...)
		p1, err := a.Pack("run", goVals(in, vi)...)
		exp("ABI.Pack", p1, err, full)
		p2, err := a.Pack("run", goVals(in, vi)...)
		exp("ABI.Pack", p2, err, full)
		// what a caller does with one result is not seen in the other, nor in the method
		q1, q2 := append(p1, "first"...), append(p2, "secnd"...)
		if string(q1[len(full):]) != "first" || string(q2[len(full):]) != "secnd" {
			c.Violate("pack-shares-memory", "two results of Pack(%q) share memory: appending to one changed the other", "run"+canonList(in))
		}
		for i := range q1 {
			q1[i] = 0xEE
		}
		for i := range p1 {
			p1[i] = 0xEE
		}
		if m := a.Methods["run"]; !bytes.Equal(m.ID, id) {
			c.Violate("pack-shares-memory", "writing to the result of Pack changed the method's ID to %x", m.ID)
			return
		}
		p, err := a.Pack("", goVals(con, vc)...)
		exp("Pack-constructor", p, err, wc)
		p, err = a.PackInputWithoutID("run", goVals(in, vi)...)
		exp("PackInputWithoutID", p, err, wi)
		p, err = a.PackReturns("run", goVals(out, vo)...)
		exp("PackReturns", p, err, wo)
		got, err := a.Unpack("run", wo)
		sameVals(c, "ABI.Unpack", out, vo, got, err, wo)
		st := func(how string, fs []abix.Field, vs []*abix.Val, data []byte, f func(v interface{}) error) {
			p := reflect.New(abix.StructOf(fs))
			err := f(p.Interface())
			sameVals(c, how, fs, vs, structVals(p.Elem()), err, data)
		}
		st("ABI.UnpackIntoInterface", out, vo, wo, func(v interface{}) error { return a.UnpackIntoInterface(v, "run", wo) })
		st("ABI.UnpackReturns", out, vo, wo, func(v interface{}) error { return a.UnpackReturns(v, "run", wo) })
		if len(in) > 0 {
			st("ABI.UnpackInput", in, vi, wi, func(v interface{}) error { return a.UnpackInput(v, "run", wi) })
			st("ABI.UnpackInputObject", in, vi, wi, func(v interface{}) error { return a.UnpackInputObject(v, "run", full) })
		}
		mp := func(how string, fs []abix.Field, vs []*abix.Val, data []byte, f func(v map[string]interface{}) error) {
			m := map[string]interface{}{}
			err := f(m)
			var mv []interface{}
			for _, f := range fs {
				mv = append(mv, m[f.Name])
			}
			sameVals(c, how, fs, vs, mv, err, data)
		}
		mp("ABI.UnpackIntoMap", out, vo, wo, func(m map[string]interface{}) error { return a.UnpackIntoMap(m, "run", wo) })
		mp("ABI.UnpackReturnsMap", out, vo, wo, func(m map[string]interface{}) error { return a.UnpackReturnsMap(m, "run", wo) })
		if len(in) > 0 {
			mp("ABI.InputUnpack", in, vi, wi, func(m map[string]interface{}) error { return a.InputUnpack(m, "run", wi) })
		}
		wrong := append([]byte{}, full...)
		wrong[r.Intn(4)] ^= 1
		if err := a.UnpackInputObject(&struct{}{}, "run", wrong); err == nil {
			c.Violate("foreign-id", "UnpackInputObject accepts input for another method")
		}
		if _, err := a.Pack("nothere"); err == nil {
			c.Violate("unknown-method", "Pack of an unknown method succeeds")
		}
		// a refusal of the arguments or of the data comes through every entry point
		spoil := func(fs []abix.Field, vs []*abix.Val) []interface{} {
			g := goVals(fs, vs)
			switch x := r.Intn(3); {
			case x == 0 || len(g) == 0:
				return append(g, 1)
			case x == 1:
				return g[:r.Intn(len(g))]
			default:
				i := r.Intn(len(g))
				g[i] = illTyped(r, fs[i].Ty)
				return g
			}
		}
		refused := func(what string, fs []abix.Field, vs []*abix.Val, f func(...interface{}) ([]byte, error)) {
			g := spoil(fs, vs)
			c.Count("refused_calls", 1)
			if got, err := f(g...); err == nil {
				c.Violate("accepts-"+what, "%s of %s accepts %v: %s", what, js, g, hexs(got))
			}
		}
		named := func(f func(string, ...interface{}) ([]byte, error), name string) func(...interface{}) ([]byte, error) {
			return func(x ...interface{}) ([]byte, error) { return f(name, x...) }
		}
		refused("Pack", in, vi, named(a.Pack, "run"))
		refused("Pack-constructor", con, vc, named(a.Pack, ""))
		refused("PackInputWithoutID", in, vi, named(a.PackInputWithoutID, "run"))
		refused("PackReturns", out, vo, named(a.PackReturns, "run"))
		short := func(what string, fs []abix.Field, enc []byte, f func(data []byte) error) {
			cut := enc[:r.Intn(len(enc)+1)/32*32]
			if _, rerr := (&abix.Decoder{}).List(tys(fs), cut); rerr == nil || rerr == abix.ErrWork || len(fs) == 0 {
				return
			}
			c.Count("refused_calls", 1)
			if err := f(cut); err == nil {
				c.Violate("accepts-short-"+what, "%s of %s accepts %d of %d bytes: %s", what, js, len(cut), len(enc), hexs(cut))
			}
		}
		so := func() interface{} { return reflect.New(abix.StructOf(out)).Interface() }
		si := func() interface{} { return reflect.New(abix.StructOf(in)).Interface() }
		mm := map[string]interface{}{}
		misfits := func(what string, fs []abix.Field, f func(v interface{}) error) {
			if len(fs) == 0 {
				return
			}
			p := reflect.New(misfit(r, fs))
			c.Count("misfits", 1)
			if err := f(p.Interface()); err == nil {
				c.Violate("misfit-"+what, "%s of %s fills %s", what, js, p.Elem().Type())
			}
			if len(fs) > 1 {
				l := reflect.New(reflect.SliceOf(reflect.TypeOf((chan int)(nil))))
				l.Elem().Set(reflect.MakeSlice(l.Elem().Type(), len(fs), len(fs)))
				if err := f(l.Interface()); err == nil {
					c.Violate("misfit-"+what, "%s of %s fills %s", what, js, l.Elem().Type())
				}
			}
		}
		misfits("UnpackIntoInterface", out, func(v interface{}) error { return a.UnpackIntoInterface(v, "run", wo) })
		misfits("UnpackReturns", out, func(v interface{}) error { return a.UnpackReturns(v, "run", wo) })
		misfits("UnpackInput", in, func(v interface{}) error { return a.UnpackInput(v, "run", wi) })
		misfits("UnpackInputObject", in, func(v interface{}) error { return a.UnpackInputObject(v, "run", full) })
		short("Unpack", out, wo, func(d []byte) error { _, err := a.Unpack("run", d); return err })
		short("UnpackIntoInterface", out, wo, func(d []byte) error { return a.UnpackIntoInterface(so(), "run", d) })
		short("UnpackReturns", out, wo, func(d []byte) error { return a.UnpackReturns(so(), "run", d) })
		short("UnpackIntoMap", out, wo, func(d []byte) error { return a.UnpackIntoMap(mm, "run", d) })
		short("UnpackReturnsMap", out, wo, func(d []byte) error { return a.UnpackReturnsMap(mm, "run", d) })
		short("UnpackInput", in, wi, func(d []byte) error { return a.UnpackInput(si(), "run", d) })
		short("MethodString", in, wi, func(d []byte) error {
			_, err := a.MethodString(append(append([]byte{}, id...), d...))
			return err
		})
		short("ReturnsString", out, wo, func(d []byte) error { _, err := a.ReturnsString(id, d); return err })
		short("InputUnpack", in, wi, func(d []byte) error { return a.InputUnpack(mm, "run", d) })
		short("UnpackInputObject", in, wi, func(d []byte) error {
			return a.UnpackInputObject(si(), "run", append(append([]byte{}, id...), d...))
		})
	})
}

func runA02(c *mon.Ctx) {
	one := func(r *rand.Rand, fs []abix.Field, args abi.Arguments, in []byte, how string) {
		d := &abix.Decoder{}
		want, rerr := d.List(tys(fs), in)
		keep := append([]byte{}, in...)
		c.Guard(fmt.Sprintf("unpacking %s as %s", hexs(in), canonList(fs)), func() {
			var got []interface{}
			var err error
			if way := r.Intn(5); way == 0 {
				p := reflect.New(abix.StructOf(fs))
				if err = args.UnpackIntoInterface(p.Interface(), in); err == nil {
					got = structVals(p.Elem())
				}
			} else if way == 1 {
				m := map[string]interface{}{}
				if err = args.UnpackIntoMap(m, in); err == nil {
					for _, f := range fs {
						got = append(got, m[f.Name])
					}
				}
			} else {
				got, err = args.Unpack(in)
			}
			if rerr == abix.ErrWork {
				return
			}
			if rerr != nil {
				c.Count("rejected", 1)
				if err == nil {
					c.Violate("accepts-"+strings.ReplaceAll(rerr.Error(), " ", "-"), "%s %s unpacks as %s to %v although the reference finds: %v", how, hexs(in), canonList(fs), trim1(fmt.Sprint(got)), rerr)
				}
				return
			}
			if d.Dirty {
				// not prescribed: an error, or values of the documented types
				if err == nil {
					for i, f := range fs {
						if _, e := abix.FromGo(f.Ty, reflect.ValueOf(got[i])); e != nil {
							c.Violate("unpack-type", "%s %s as %s, argument %d: %v", how, hexs(in), canonList(fs), i, e)
						}
					}
				}
				c.Count("dirty", 1)
				return
			}
			c.Count("accepted", 1)
			sameVals(c, "hostile-unpack", fs, want, got, err, in)
		})
		if !bytes.Equal(in, keep) {
			c.Violate("unpack-changes-data", "unpacking %s as %s changed the data", hexs(keep), canonList(fs))
		}
	}
	c.Section("hostile", func(r0 *rand.Rand) {
		c.Cases("inputs", c.N2(12500, 240000), func(_ int, r *rand.Rand) {
			fs := abix.GenFields(r, 1+r.Intn(3), 1+r.Intn(3))
			args := abiArgs(c, fs)
			if len(args) != len(fs) {
				return
			}
			vs := genVals(r, fs)
			base := abix.EncodeList(tys(fs), vs)
			one(r, fs, args, base, "valid")
			if len(base) > 4000 {
				c.Count("large", 1)
				for k := 0; k < 6; k++ {
					n := r.Intn(len(base))
					one(r, fs, args, base[:n:n], "truncated")
					one(r, fs, args, abix.Mutate(r, base), "mutated")
				}
				return
			}
			step := 1 + len(base)/40
			for n := 0; n < len(base); n += step {
				one(r, fs, args, base[:n:n], "truncated")
				c.Count("truncations", 1)
			}
			for k := 0; k < 20; k++ {
				in := abix.Mutate(r, base)
				c.Case(!bytes.Equal(in, base), hexs(in)+canonList(fs))
				one(r, fs, args, in, "mutated")
			}
			junk := make([]byte, r.Intn(200))
			r.Read(junk)
			one(r, fs, args, junk, "random")
		})
	})
	c.Section("destinations", func(r0 *rand.Rand) {
		c.Cases("destinations", c.N2(7500, 160000), func(_ int, r *rand.Rand) {
			fs := abix.GenFields(r, 1+r.Intn(3), 1+r.Intn(2))
			args := abiArgs(c, fs)
			if len(args) != len(fs) {
				return
			}
			vs := genVals(r, fs)
			data := abix.EncodeList(tys(fs), vs)
			for k := 0; k < 6; k++ {
				dst := oddDest(r, fs)
				c.Case(true, fmt.Sprintf("%T", dst)+canonList(fs))
				c.Guard(fmt.Sprintf("unpacking %s as %s into %T", hexs(data), canonList(fs), dst), func() {
					err := args.UnpackIntoInterface(dst, data)
					c.Count("destinations", 1)
					if err != nil {
						c.Count("destinations_refused", 1)
					}
				})
			}
		})
	})
	c.Section("entry", func(r0 *rand.Rand) {
		c.Cases("entry", c.N2(2000, 32000), func(_ int, r *rand.Rand) {
			in, out, ev, er := abix.GenFields(r, r.Intn(3), 2), abix.GenFields(r, 1+r.Intn(2), 2), abix.GenFields(r, 1+r.Intn(3), 1), abix.GenFields(r, r.Intn(3), 2)
			je := jArgs(ev)
			for i := range je {
				je[i].Indexed = r.Intn(2) == 0
			}
			js, _ := json.Marshal([]jEntry{{Type: "function", Name: "run", Inputs: jArgs(in), Outputs: jArgs(out)}, {Type: "event", Name: "ev", Inputs: je}, {Type: "error", Name: "er", Inputs: jArgs(er)}})
			a, err := abi.JSON(bytes.NewReader(js))
			if err != nil {
				c.Violate("json", "JSON(%s): %v", js, err)
				return
			}
			id := a.Methods["run"].ID
			eid := a.Errors["er"].ID
			for k := 0; k < 15; k++ {
				src := []*[]abix.Field{&in, &out, &ev, &er}[r.Intn(4)]
				data := abix.Mutate(r, abix.EncodeList(tys(*src), genVals(r, *src)))
				topics := []common.Hash{a.Events["ev"].ID}
				for j := r.Intn(5); j > 0; j-- {
					var h common.Hash
					if r.Intn(2) == 0 {
						r.Read(h[:])
					} else {
						h[31] = byte(r.Intn(3))
					}
					topics = append(topics, h)
				}
				c.Guard(fmt.Sprintf("%s on %s, topics %v", js, hexs(data), topics), func() {
					pre := append(append([]byte{}, id...), data...)
					_, _ = a.MethodString(pre)
					_, _ = a.MethodString(data)
					_, _ = a.ReturnsString(id, data)
					_, _ = a.EventString(topics, data)
					_, _ = a.EventString(topics[1:], data)
					_ = a.UnpackEvent(reflect.New(abix.StructOf(ev)).Interface(), topics, data)
					_ = a.UnpackInputObject(reflect.New(abix.StructOf(in)).Interface(), "run", pre)
					_ = a.UnpackInput(reflect.New(abix.StructOf(in)).Interface(), "run", data)
					_ = a.UnpackReturns(reflect.New(abix.StructOf(out)).Interface(), "run", data)
					_ = a.InputUnpack(map[string]interface{}{}, "run", data)
					_ = a.UnpackReturnsMap(map[string]interface{}{}, "run", data)
					_, _ = a.Unpack("run", data)
					_, _ = a.Unpack("ev", data)
					e := a.Errors["er"]
					_, _ = e.Unpack(data)
					_, _ = e.Unpack(append(append([]byte{}, eid[:4]...), data...))
					_, _ = abi.UnpackRevert(data)
					_, _ = abi.UnpackRevert(append(append([]byte{}, keccak([]byte("Error(string)"))[:4]...), data...))
					_, _ = a.MethodById(data)
					c.Count("entry_points", 18)
				})
			}
		})
		// revert reasons
		c.Cases("revert", c.N2(2500, 20000), func(_ int, r *rand.Rand) {
			fs := []abix.Field{{Name: "reason", Ty: &abix.Ty{K: abix.String}}}
			vs := genVals(r, fs)
			data := append(append([]byte{}, keccak([]byte("Error(string)"))[:4]...), abix.EncodeList(tys(fs), vs)...)
			if s, err := abi.UnpackRevert(data); err != nil || s != string(vs[0].B) {
				c.Violate("revert", "UnpackRevert(%s) = %q, %v, want %q", hexs(data), s, err, vs[0].B)
			}
			cut := data[:4+r.Intn(len(data)-3)/32*32]
			if r.Intn(3) == 0 {
				cut = data[:r.Intn(4)]
			}
			if len(cut) >= 4 {
				if _, rerr := (&abix.Decoder{}).List(tys(fs), cut[4:]); rerr == nil || rerr == abix.ErrWork {
					return
				}
			}
			c.Count("cut_reverts", 1)
			if s, err := abi.UnpackRevert(cut); err == nil {
				c.Violate("revert-cut", "UnpackRevert of %d of %d bytes = %q: %s", len(cut), len(data), s, hexs(data))
			}
		})
		// declared errors
		c.Cases("errors", c.N2(2500, 20000), func(_ int, r *rand.Rand) {
			fs := abix.GenFields(r, r.Intn(4), 2)
			desc, _ := json.Marshal([]jEntry{{Type: "error", Name: "er", Inputs: jArgs(fs)}})
			a, err := abi.JSON(bytes.NewReader(desc))
			if err != nil {
				c.Violate("json", "JSON(%s): %v", desc, err)
				return
			}
			e := a.Errors["er"]
			vs := genVals(r, fs)
			id := keccak([]byte("er" + canonList(fs)))[:4]
			data := append(mon.Clone(id), abix.EncodeList(tys(fs), vs)...)
			x, err := e.Unpack(data)
			got, _ := x.([]interface{})
			sameVals(c, "Error.Unpack", fs, vs, got, err, data)
			c.Count("declared_errors", 1)
			for k := 0; k < 3; k++ {
				in := data[:r.Intn(len(data))]
				if k == 1 {
					in = data[:4+r.Intn(len(data)-3)/32*32]
				}
				if k == 2 {
					in = mon.Clone(data)
					in[r.Intn(4)] ^= byte(1 + r.Intn(255))
				} else if len(in) >= 4 {
					if _, rerr := (&abix.Decoder{}).List(tys(fs), in[4:]); rerr == nil || rerr == abix.ErrWork || len(fs) == 0 {
						continue
					}
				}
				c.Count("refused_errors", 1)
				if x, err := e.Unpack(in); err == nil {
					c.Violate("error-cut", "%s unpacks %s (of %s) as %v", desc, hexs(in), hexs(data), x)
				}
			}
		})
	})
}

// indexable types: those MakeTopics can make a topic of.
func genIndexed(r *rand.Rand) *abix.Ty {
	if r.Intn(5) == 0 {
		if t := abix.Gen(r, 1); t.K != abix.Function { // function topics are excluded
			return t
		}
	}
	return abix.GenElem(r)
}

// hashed: the topic of an indexed value of the type is a hash.
func hashed(t *abix.Ty) bool { return t.K >= abix.Slice || t.K == abix.String || t.K == abix.Bytes }

func topicOf(t *abix.Ty, v *abix.Val) common.Hash {
	var b []byte
	if t.K == abix.String || t.K == abix.Bytes {
		b = keccak(v.B)
	} else {
		b = abix.Encode(t, v)
	}
	var h common.Hash
	copy(h[:], b)
	return h
}

func runA03(c *mon.Ctx) {
	c.Section("events", func(r0 *rand.Rand) {
		c.Cases("events", c.N2(15000, 240000), func(_ int, r *rand.Rand) {
			n := r.Intn(6)
			fs := abix.GenFields(r, n, 1)
			idx := make([]bool, n)
			nidx, mixed := 0, false
			for i := range fs {
				if r.Intn(2) == 0 {
					idx[i] = true
					nidx++
					fs[i].Ty = genIndexed(r)
				} else {
					fs[i].Ty = abix.Gen(r, 1)
				}
				if i > 0 && idx[i] && !idx[i-1] {
					mixed = true
				}
			}
			if mixed {
				c.Count("mixed_order", 1)
			}
			js := jArgs(fs)
			unnamed := r.Intn(4) == 0
			for i := range js {
				js[i].Indexed = idx[i]
				if unnamed && r.Intn(2) == 0 { // called by its position
					js[i].Name, fs[i].Name = "", fmt.Sprintf("arg%d", i)
				}
			}
			desc, _ := json.Marshal([]jEntry{{Type: "event", Name: "Ev", Inputs: js}})
			c.Case(mixed, string(desc))
			c.Guard(string(desc), func() {
				a, err := abi.JSON(bytes.NewReader(desc))
				if err != nil {
					c.Violate("json", "JSON(%s): %v", desc, err)
					return
				}
				c.Count("events", 1)
				ev := a.Events["Ev"]
				for k := 0; k < 3; k++ {
					eventCase(c, r, a, ev, fs, idx, string(desc))
				}
			})
		})
		c.Cases("foreign", c.N2(8000, 100000), func(_ int, r *rand.Rand) {
			// topics nobody made: an error, or exactly what they hold
			var fs []abix.Field
			var args abi.Arguments
			for _, f := range abix.GenFields(r, 1+r.Intn(3), 1) {
				for f.Ty = abix.GenElem(r); f.Ty.K == abix.Function; {
					f.Ty = abix.GenElem(r)
				}
				fs = append(fs, f)
			}
			if args = abiArgs(c, fs); len(args) != len(fs) {
				return
			}
			var topics []common.Hash
			var want []*abix.Val
			var es []abix.Field
			dirty, bad := false, false
			for i, f := range fs {
				args[i].Indexed = true
				h := topicOf(f.Ty, abix.GenVal(r, f.Ty))
				switch r.Intn(4) {
				case 0:
					h = randHash(r)
				case 1:
					copy(h[:], abix.Mutate(r, h[:]))
				case 2:
					h[r.Intn(32)] ^= byte(1 + r.Intn(255))
				}
				topics = append(topics, h)
				if hashed(f.Ty) {
					es, want = append(es, abix.Field{Name: f.Name, Ty: &abix.Ty{K: abix.FixedBytes, Size: 32}}), append(want, &abix.Val{B: h[:]})
					continue
				}
				d := &abix.Decoder{}
				v, err := d.List([]*abix.Ty{f.Ty}, h[:])
				dirty, bad = dirty || d.Dirty, bad || err != nil
				es = append(es, f)
				want = append(want, append(v, nil)[0])
			}
			var sf []reflect.StructField
			for i, f := range es {
				t := f.Ty.GoType()
				if hashed(fs[i].Ty) {
					t = reflect.TypeOf(common.Hash{})
				} else if f.Ty.K == abix.Address {
					t = reflect.TypeOf(common.Address{})
				}
				sf = append(sf, reflect.StructField{Name: abix.Camel(f.Name), Type: t})
			}
			c.Case(true, fmt.Sprintf("foreign %s %x", canonList(fs), topics))
			c.Guard(fmt.Sprintf("topics %x as %s", topics, canonList(fs)), func() {
				m := map[string]interface{}{}
				p := reflect.New(reflect.StructOf(sf))
				errM, errP := abi.ParseTopicsIntoMap(m, args, topics), abi.ParseTopics(p.Interface(), args, topics)
				if (errM == nil) != (errP == nil) {
					c.Violate("foreign-topics-disagree", "topics %x as %s: map %v, struct %v", topics, canonList(fs), errM, errP)
				}
				switch {
				case bad:
					c.Count("foreign_rejected", 1)
					c.Check(errM != nil, "foreign-topic-accepted", "topics %x are read as %s: %v", topics, canonList(fs), m)
				case !dirty:
					c.Count("foreign_read", 1)
					var mv []interface{}
					for _, f := range fs {
						mv = append(mv, m[f.Name])
					}
					sameVals(c, "foreign-topics-map", es, want, mv, errM, nil)
					sameVals(c, "foreign-topics", es, want, structVals(p.Elem()), errP, nil)
				}
			})
		})
		c.Cases("oversized", 50, func(i int, r *rand.Rand) {
			c.Guard("MakeTopics of oversized values", func() {
				for _, x := range []interface{}{new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Lsh(big.NewInt(-1), 256), new(big.Int).Lsh(big.NewInt(1), uint(256+r.Intn(300))), (*big.Int)(nil), [33]byte{}, [64]byte{1}, struct{}{}, []string{"a"}, nil} {
					if _, err := abi.MakeTopics([]interface{}{x}); err == nil {
						c.Violate("topic-oversized", "MakeTopics accepts %T %v", x, x)
					}
				}
			})
		})
	})
}

func eventCase(c *mon.Ctx, r *rand.Rand, a abi.ABI, ev abi.Event, fs []abix.Field, idx []bool, desc string) {
	vs := genVals(r, fs)
	var q [][]interface{}
	var ifs, dfs []abix.Field
	var ivs, dvs []*abix.Val
	var iargs abi.Arguments
	topics := []common.Hash{ev.ID}
	var es []abix.Field // the expected values: hashes for indexed dynamic types
	var evs []*abix.Val
	printable, hasTuple := true, false
	for i, f := range fs {
		if f.Ty.K == abix.Int && vs[i].N.Sign() < 0 && idx[i] {
			c.Count("negative", 1)
		}
		if !idx[i] {
			dfs, dvs = append(dfs, f), append(dvs, vs[i])
			es, evs = append(es, f), append(evs, vs[i])
			if f.Ty.K >= abix.Slice || f.Ty.K == abix.Function {
				printable = false
			}
			continue
		}
		ifs, ivs = append(ifs, f), append(ivs, vs[i])
		iargs = append(iargs, ev.Inputs[i])
		var h common.Hash
		if f.Ty.K >= abix.Slice { // some hash, MakeTopics does not make it
			r.Read(h[:])
			q = append(q, []interface{}{h})
			hasTuple = hasTuple || f.Ty.K == abix.Tuple
			c.Count("composite", 1)
		} else {
			h = topicOf(f.Ty, vs[i])
			x := abix.Go(f.Ty, vs[i])
			if f.Ty.K == abix.Address {
				x = common.BytesToAddress(vs[i].B)
			}
			q = append(q, []interface{}{x})
		}
		topics = append(topics, h)
		if hashed(f.Ty) {
			es, evs = append(es, abix.Field{Name: f.Name, Ty: &abix.Ty{K: abix.FixedBytes, Size: 32}}), append(evs, &abix.Val{B: h[:]})
		} else {
			es, evs = append(es, f), append(evs, vs[i])
		}
	}
	got, err := abi.MakeTopics(q...)
	if err != nil || len(got) != len(q) {
		c.Violate("make-topics", "MakeTopics(%s) for %s: %v", showVals(ivs), desc, err)
		return
	}
	for i := range got {
		c.Count("topics", 1)
		if len(got[i]) != 1 || got[i][0] != topics[i+1] {
			c.Violate("topic-value", "MakeTopics of %s %s = %x, want %x", ifs[i].Ty.Canon(), ivs[i].Show(), got[i], topics[i+1])
		}
		// a big number that fits is as good as the sized one
		if k := ifs[i].Ty.K; k == abix.Uint || k == abix.Int {
			n := new(big.Int).Set(ivs[i].N)
			g, err := abi.MakeTopics([]interface{}{n})
			if err != nil || g[0][0] != topics[i+1] {
				c.Violate("topic-big", "MakeTopics of *big.Int %v = %x err %v, want %x", ivs[i].N, g, err, topics[i+1])
			}
			if n.Cmp(ivs[i].N) != 0 {
				c.Violate("topic-changes-argument", "MakeTopics changed %v to %v", ivs[i].N, n)
			}
		}
	}
	// a query: any number of alternatives for each argument
	var alt [][]interface{}
	var wantAlt [][]common.Hash
	for i := range q {
		var a []interface{}
		var w []common.Hash
		for k := r.Intn(4); k > 0; k-- {
			a, w = append(a, q[(i+k)%len(q)]...), append(w, topics[1+(i+k)%len(q)])
		}
		alt, wantAlt = append(alt, a), append(wantAlt, w)
	}
	got, err = abi.MakeTopics(alt...)
	if err != nil || len(got) != len(alt) || len(alt) > 0 && fmt.Sprint(got) != fmt.Sprint(wantAlt) {
		c.Violate("topic-alternatives", "MakeTopics(%v) = %x, %v, want %x", alt, got, err, wantAlt)
	}
	var expI []abix.Field
	var expV []*abix.Val
	for i := range fs {
		if idx[i] {
			expI, expV = append(expI, es[i]), append(expV, evs[i])
		}
	}
	m := map[string]interface{}{}
	err = abi.ParseTopicsIntoMap(m, iargs, topics[1:])
	var mv []interface{}
	for _, f := range ifs {
		mv = append(mv, m[f.Name])
	}
	if hasTuple {
		if err == nil {
			c.Violate("parse-topics-tuple", "ParseTopicsIntoMap for %s accepts an indexed tuple", desc)
		}
	} else {
		sameVals(c, "parse-topics-map", expI, expV, mv, err, nil)
	}
	// ParseTopics requires the exact types of the fields
	var sf []reflect.StructField
	for _, f := range expI {
		t := f.Ty.GoType()
		if f.Ty.K == abix.Address {
			t = reflect.TypeOf(common.Address{})
		}
		sf = append(sf, reflect.StructField{Name: abix.Camel(f.Name), Type: t})
	}
	for i := range sf {
		if hashed(ifs[i].Ty) {
			sf[i].Type = reflect.TypeOf(common.Hash{})
		}
	}
	p := reflect.New(reflect.StructOf(sf))
	err = abi.ParseTopics(p.Interface(), iargs, topics[1:])
	if !hasTuple {
		sameVals(c, "parse-topics", expI, expV, structVals(p.Elem()), err, nil)
	}
	if err := abi.ParseTopicsIntoMap(map[string]interface{}{}, iargs, topics); err == nil {
		c.Violate("topic-count", "ParseTopicsIntoMap accepts %d topics for %d fields", len(topics), len(iargs))
	}
	data := abix.EncodeList(tys(dfs), dvs)
	if len(dfs) > 0 {
		if pd, err := a.PackEventArgs("Ev", goVals(dfs, dvs)...); err != nil || !bytes.Equal(pd, data) {
			c.Violate("pack-event-args", "PackEventArgs for %s of %s: %s err %v, want %s", desc, showVals(dvs), hexs(pd), err, hexs(data))
		}
	}
	gotD, err := a.Unpack("Ev", data)
	sameVals(c, "event-data", dfs, dvs, gotD, err, data)
	dm := map[string]interface{}{}
	err = a.UnpackIntoMap(dm, "Ev", data)
	var dmv []interface{}
	for _, f := range dfs {
		dmv = append(dmv, dm[f.Name])
	}
	sameVals(c, "event-data-map", dfs, dvs, dmv, err, data)
	if err == nil && len(dm) != len(dfs) {
		c.Violate("event-data-map", "UnpackIntoMap for %s sets %v, want the %d values not indexed", desc, dm, len(dfs))
	}
	if len(dfs) > 0 {
		e := reflect.New(abix.StructOf(dfs))
		err = a.UnpackIntoInterface(e.Interface(), "Ev", data)
		sameVals(c, "event-data-struct", dfs, dvs, structVals(e.Elem()), err, data)
		if len(dfs) > 1 {
			l := make([]interface{}, len(dfs))
			err = a.UnpackIntoInterface(&l, "Ev", data)
			sameVals(c, "event-data-list", dfs, dvs, l, err, data)
		}
	}
	if len(fs) > 0 {
		e := reflect.New(abix.StructOf(es))
		err = a.UnpackEvent(e.Interface(), topics, data)
		sameVals(c, "unpack-event", es, evs, structVals(e.Elem()), err, data)
		if len(fs) > 1 {
			l := make([]interface{}, len(fs))
			err = a.UnpackEvent(&l, topics, data)
			sameVals(c, "unpack-event-list", es, evs, l, err, data)
		}
		if len(fs) > 1 {
			ap := reflect.New(reflect.ArrayOf(len(fs)+r.Intn(2), reflect.TypeOf((*interface{})(nil)).Elem()))
			err = a.UnpackEvent(ap.Interface(), topics, data)
			var av []interface{}
			for i := range fs {
				av = append(av, ap.Elem().Index(i).Interface())
			}
			sameVals(c, "unpack-event-array", es, evs, av, err, data)
			short := make([]interface{}, len(fs)-1)
			if err := a.UnpackEvent(&short, topics, data); err == nil {
				c.Violate("unpack-event-short-list", "UnpackEvent for %s fills %d elements", desc, len(short))
			}
			st, at, own := shaped(r, es)
			sp := reflect.New(st)
			for _, k := range own {
				sp.Elem().Field(k).SetInt(77)
			}
			err = a.UnpackEvent(sp.Interface(), topics, data)
			var sv []interface{}
			for i := range es {
				sv = append(sv, sp.Elem().Field(at[i]).Interface())
			}
			sameVals(c, "unpack-event-shaped", es, evs, sv, err, data)
			for _, k := range own {
				if sp.Elem().Field(k).Int() != 77 {
					c.Violate("unpack-event-own", "UnpackEvent for %s changed a field of the struct's own", desc)
				}
			}
		}
		for _, bad := range []interface{}{e.Elem().Interface(), reflect.Zero(e.Type()).Interface(), nil, 7} {
			if err := a.UnpackEvent(bad, topics, data); err == nil {
				c.Violate("unpack-event-nowhere", "UnpackEvent for %s into %T succeeds", desc, bad)
			}
		}
		foreign := append([]common.Hash{}, topics...)
		foreign[0][r.Intn(32)] ^= 1
		if err := a.UnpackEvent(e.Interface(), foreign, data); err == nil {
			c.Violate("foreign-event", "UnpackEvent for %s accepts another event's topic", desc)
		}
		if err := a.UnpackEvent(e.Interface(), nil, data); err == nil {
			c.Violate("foreign-event", "UnpackEvent for %s accepts no topics", desc)
		}
		if _, err := a.EventString(foreign, data); err == nil {
			c.Violate("foreign-event", "EventString for %s accepts another event's topic", desc)
		}
		if len(topics) > 1 {
			if err := a.UnpackEvent(e.Interface(), topics[:len(topics)-1], data); err == nil {
				c.Violate("missing-topic", "UnpackEvent for %s accepts %d of %d topics", desc, len(topics)-1, len(topics))
			}
		}
	}
	// cut data, and arguments that do not fit, are refused by every entry point
	if cut := data[:r.Intn(len(data)+1)/32*32]; len(dfs) > 0 {
		if _, rerr := (&abix.Decoder{}).List(tys(dfs), cut); rerr != nil && rerr != abix.ErrWork {
			c.Count("refused_events", 1)
			l := make([]interface{}, len(a.Events["Ev"].Inputs))
			if err := a.UnpackEvent(&l, topics, cut); err == nil {
				c.Violate("event-short-data", "UnpackEvent for %s accepts %d of %d bytes", desc, len(cut), len(data))
			}
			if g, err := a.EventString(topics, cut); err == nil {
				c.Violate("event-string-short", "EventString for %s accepts %d of %d bytes: %q", desc, len(cut), len(data), g)
			}
		}
		g := goVals(dfs, dvs)
		if i := r.Intn(len(g) + 1); i == len(g) {
			g = g[:r.Intn(len(g))]
		} else {
			g[i] = illTyped(r, dfs[i].Ty)
		}
		if pd, err := a.PackEventArgs("Ev", g...); err == nil {
			c.Violate("pack-event-accepts", "PackEventArgs for %s accepts %v: %s", desc, g, hexs(pd))
		}
	}
	// a struct with a field that can hold no such value
	if len(fs) > 1 {
		p := reflect.New(misfit(r, fs))
		c.Count("misfits", 1)
		if err := a.UnpackEvent(p.Interface(), topics, data); err == nil {
			c.Violate("misfit-event", "UnpackEvent for %s fills %s", desc, p.Elem().Type())
		}
	}
	// a topic that is none of its argument's type is one for all the readers, or for none
	if len(topics) > 1 {
		dirty := append([]common.Hash{}, topics...)
		h := &dirty[1+r.Intn(len(topics)-1)]
		h[[]int{0, 11, 12, 31, r.Intn(32)}[r.Intn(5)]] ^= byte(1 + r.Intn(255))
		var idx abi.Arguments
		tuple := false
		for _, in := range a.Events["Ev"].Inputs {
			if in.Indexed {
				idx = append(idx, in)
				tuple = tuple || in.Type.T == abi.TupleTy
			}
		}
		g, e2 := a.EventString(dirty, data)
		e0 := e2
		if !tuple { // which ParseTopics does not read at all
			e0 = abi.ParseTopicsIntoMap(map[string]interface{}{}, idx, dirty[1:])
		}
		l := make([]interface{}, len(a.Events["Ev"].Inputs))
		e1 := e0
		if len(l) > 1 { // a single argument goes to a variable of its own type
			e1 = a.UnpackEvent(&l, dirty, data)
		}
		if e0 != nil {
			c.Count("bad_topics", 1)
		}
		if (e0 == nil) != (e1 == nil) || (e0 == nil) != (e2 == nil) {
			c.Violate("topic-readers-disagree", "topics %v of %s: ParseTopicsIntoMap %v, UnpackEvent %v, EventString %q %v", dirty, desc, e0, e1, g, e2)
		}
	}
	if len(topics) > 1 {
		if g, err := a.EventString(topics[:len(topics)-1], data); err == nil {
			c.Violate("missing-topic", "EventString for %s accepts %d of %d topics: %q", desc, len(topics)-1, len(topics), g)
		}
	}
	s, err := a.EventString(topics, data)
	if err != nil {
		c.Violate("event-string-error", "EventString for %s %s: %v", desc, showVals(vs), err)
	} else if printable {
		var parts []string
		for i, f := range es {
			parts = append(parts, f.Name+":"+showArg(f.Ty, evs[i]))
		}
		if w := "Ev(" + strings.Join(parts, ", ") + ")"; s != w {
			c.Violate("event-string", "EventString for %s: %q, want %q", desc, s, w)
		}
	}
}

func showArg(t *abix.Ty, v *abix.Val) string {
	switch t.K {
	case abix.Uint, abix.Int:
		return v.N.String()
	case abix.Bool:
		return fmt.Sprint(v.N.Sign() != 0)
	case abix.String:
		return string(v.B)
	}
	return fmt.Sprintf("0x%x", v.B)
}

// ---- A04

var typeGrammar = regexp.MustCompile(`^(uint|int|bytes|bool|address|string|function)([0-9]*)((\[[0-9]*\])*)$`)

// validType: the type strings of the specification (uint and int need a size here, arrays at least one element).
func validType(s string) bool {
	m := typeGrammar.FindStringSubmatch(s)
	if m == nil {
		return false
	}
	num := func(s string) (int, bool) {
		if s == "" || s[0] == '0' || len(s) > 9 {
			return 0, false
		}
		var n int
		fmt.Sscan(s, &n)
		return n, true
	}
	switch m[1] {
	case "uint", "int":
		n, ok := num(m[2])
		if !ok || n > 256 {
			return false
		}
	case "bytes":
		if m[2] != "" {
			if n, ok := num(m[2]); !ok || n > 32 {
				return false
			}
		}
	default:
		if m[2] != "" {
			return false
		}
	}
	for _, d := range regexp.MustCompile(`[0-9]+`).FindAllString(m[3], -1) {
		if _, ok := num(d); !ok {
			return false
		}
	}
	return true
}

func zeroLen(s string) bool { return strings.Contains(s, "[0]") }

// validSelector follows the grammar in the source: name(type,...), tuples in parentheses with at most one [] behind.
func validSelector(s string) bool {
	isA := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	i := 0
	if i >= len(s) || !(isA(s[i]) || s[i] == '$' || s[i] == '_') {
		return false
	}
	for i < len(s) && (isA(s[i]) || isD(s[i]) || s[i] == '$' || s[i] == '_') {
		i++
	}
	if s[i:] == "()" {
		return true
	}
	var list func() bool
	list = func() bool {
		if i >= len(s) || s[i] != '(' {
			return false
		}
		for {
			i++
			if i < len(s) && s[i] == '(' {
				if !list() {
					return false
				}
				if strings.HasPrefix(s[i:], "[]") {
					i += 2
				}
			} else {
				if i >= len(s) || !isA(s[i]) {
					return false
				}
				for i < len(s) && (isA(s[i]) || isD(s[i])) {
					i++
				}
				for i < len(s) && s[i] == '[' {
					i++
					for i < len(s) && isD(s[i]) {
						i++
					}
					if i >= len(s) || s[i] != ']' {
						return false
					}
					i++
				}
			}
			if i >= len(s) {
				return false
			}
			if s[i] == ')' {
				i++
				return true
			}
			if s[i] != ',' {
				return false
			}
		}
	}
	return list() && i == len(s)
}

// selArgs spells the parsed arguments of a selector.
func selArgs(as []abi.ArgumentMarshaling) string {
	var s []string
	for _, a := range as {
		if strings.HasPrefix(a.Type, "tuple") {
			s = append(s, "("+selArgs(a.Components)+")"+a.Type[5:])
		} else {
			s = append(s, a.Type)
		}
	}
	return strings.Join(s, ",")
}

func mutStr(r *rand.Rand, s string, alphabet string) string {
	b := []byte(s)
	for k := r.Intn(2); k >= 0; k-- {
		p := r.Intn(len(b) + 1)
		ch := alphabet[r.Intn(len(alphabet))]
		switch r.Intn(4) {
		case 0:
			b = append(b[:p:p], append([]byte{ch}, b[p:]...)...)
		case 1:
			if p < len(b) {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 2:
			if p < len(b) {
				b[p] = ch
			}
		default:
			b = b[:p]
		}
	}
	return string(b)
}

func runA04(c *mon.Ctx) {
	c.Section("json", func(r0 *rand.Rand) {
		c.Cases("descriptions", c.N2(10000, 80000), func(_ int, r *rand.Rand) {
			names := []string{"foo", "bar", "foo0", "transfer", "Foo", "_x", "$y", "bar1", "tést"}
			var es []jEntry
			sigs := map[string][]string{}
			type item struct {
				kind, raw, sig string
				in             []abix.Field
			}
			var items []item
			seenErr := map[string]bool{}
			for k := 1 + r.Intn(7); k > 0; k-- {
				in := abix.GenFields(r, r.Intn(4), 2)
				nm := names[r.Intn(len(names))]
				kind := []string{"function", "function", "event", "error"}[r.Intn(4)]
				if kind == "error" {
					if seenErr[nm] {
						continue
					}
					seenErr[nm] = true
				}
				e := jEntry{Type: kind, Name: nm, Inputs: jArgs(in)}
				if kind == "function" {
					e.Outputs = jArgs(abix.GenFields(r, r.Intn(3), 1))
				}
				es = append(es, e)
				sig := nm + canonList(in)
				items = append(items, item{kind, nm, sig, in})
				sigs[kind] = append(sigs[kind], sig)
			}
			js, _ := json.Marshal(es)
			c.Guard("JSON "+string(js), func() {
				a, err := abi.JSON(bytes.NewReader(js))
				if err != nil {
					c.Violate("json", "JSON(%s): %v", js, err)
					return
				}
				c.Count("descriptions", 1)
				over := false
				count := map[string]int{}
				byRaw := map[string]int{}
				for _, it := range items {
					count[it.kind]++
					byRaw[it.kind+it.raw]++
					if byRaw[it.kind+it.raw] > 1 {
						over = true
						c.Count("overloads", 1)
					}
					id := keccak([]byte(it.sig))
					switch it.kind {
					case "function":
						c.Count("methods", 1)
						n := 0
						for key, m := range a.Methods {
							if m.Sig == it.sig && m.RawName == it.raw && m.Name == key && bytes.Equal(m.ID, id[:4]) && len(m.Inputs) == len(it.in) {
								n++
							}
						}
						if n == 0 {
							c.Violate("method", "%s: no method with signature %s and ID %x", js, it.sig, id[:4])
						}
						m, err := a.MethodById(append(append([]byte{}, id[:4]...), 1, 2, 3))
						if err != nil || m == nil || m.Sig != it.sig {
							c.Violate("method-by-id", "%s: MethodById(%x) = %v, %v, want %s", js, id[:4], m, err, it.sig)
						}
					case "event":
						n := 0
						for key, m := range a.Events {
							if m.Sig == it.sig && m.RawName == it.raw && m.Name == key && bytes.Equal(m.ID[:], id) && len(m.Inputs) == len(it.in) {
								n++
							}
						}
						if n == 0 {
							c.Violate("event", "%s: no event with signature %s and ID %x", js, it.sig, id)
						}
						m, err := a.EventByID(common.BytesToHash(id))
						if err != nil || m == nil || m.Sig != it.sig {
							c.Violate("event-by-id", "%s: EventByID(%x) = %v, %v", js, id, m, err)
						}
					default:
						m, ok := a.Errors[it.raw]
						if !ok || m.Sig != it.sig || !bytes.Equal(m.ID[:], id) {
							c.Violate("error", "%s: error %s has signature %s and ID %x", js, it.raw, m.Sig, m.ID)
						}
					}
				}
				c.Case(over, string(js))
				if len(a.Methods) != count["function"] || len(a.Events) != count["event"] || len(a.Errors) != count["error"] {
					c.Violate("lost-entry", "%s: %d methods, %d events, %d errors", js, len(a.Methods), len(a.Events), len(a.Errors))
				}
				var none [4]byte
				r.Read(none[:])
				if m, err := a.MethodById(none[:]); err == nil && !bytes.Equal(m.ID, none[:]) {
					c.Violate("method-by-id", "MethodById of an unknown ID finds %v", m)
				}
				if _, err := a.MethodById(none[:3]); err == nil {
					c.Violate("method-by-id", "MethodById of 3 bytes succeeds")
				}
			})
			// one argument with a type there is none of, anywhere in the description
			var spoilt []jEntry
			if err := json.Unmarshal(js, &spoilt); err != nil {
				panic(err)
			}
			var all []*jArg
			var walk func(l []jArg)
			walk = func(l []jArg) {
				for i := range l {
					all = append(all, &l[i])
					walk(l[i].Components)
				}
			}
			for i := range spoilt {
				walk(spoilt[i].Inputs)
				walk(spoilt[i].Outputs)
			}
			if len(all) > 0 {
				x := all[r.Intn(len(all))]
				s := []string{"", "uint7", "uint264", "bytes33", "bytes0", "uint256[", "uint256]", "uint8[a]", "uint8[2]x", "mapping", "strings", "Bool", "int256 ", "address[-1]"}[r.Intn(14)]
				if r.Intn(2) == 0 {
					s = mutStr(r, "uint256", "[]0123456789xuintbytes ")
				}
				if x.Components == nil && !validType(s) && !zeroLen(s) && s != "tuple" && !strings.HasPrefix(s, "tuple[") {
					x.Type = s
					bad, _ := json.Marshal(spoilt)
					c.Count("bad_arguments", 1)
					c.Guard("JSON "+string(bad), func() {
						_, err := abi.JSON(bytes.NewReader(bad))
						c.Check(err != nil, "json-bad-type", "a description with the type %q is accepted: %s", s, bad)
					})
				}
			}
			// one field of one argument of the wrong kind
			var loose []interface{}
			if err := json.Unmarshal(js, &loose); err != nil {
				panic(err)
			}
			var objs []map[string]interface{}
			var objects func(l interface{})
			objects = func(l interface{}) {
				xs, _ := l.([]interface{})
				for _, x := range xs {
					o := x.(map[string]interface{})
					if _, ok := o["name"]; ok {
						objs = append(objs, o)
					}
					objects(o["components"])
				}
			}
			for _, e := range loose {
				e := e.(map[string]interface{})
				objects(e["inputs"])
				objects(e["outputs"])
			}
			if len(objs) > 0 {
				o := objs[r.Intn(len(objs))]
				switch r.Intn(4) {
				case 0:
					o["name"] = []interface{}{5, true, []int{1}, map[string]int{"a": 1}}[r.Intn(4)]
				case 1:
					o["indexed"] = []interface{}{"true", 1, []bool{true}}[r.Intn(3)]
				case 2:
					o["components"] = []interface{}{"x", 1, map[string]int{"a": 1}, []int{1}}[r.Intn(4)]
				default:
					o["type"] = []interface{}{5, true, []string{"uint256"}, map[string]int{"a": 1}}[r.Intn(4)]
				}
				bad, _ := json.Marshal(loose)
				c.Count("bad_arguments", 1)
				c.Guard("JSON "+string(bad), func() {
					_, err := abi.JSON(bytes.NewReader(bad))
					c.Check(err != nil, "json-bad-kind", "a description is accepted: %s", bad)
				})
			}
			// damaged descriptions: an error or a description, no crash
			for k := 0; k < 6; k++ {
				var bad string
				if r.Intn(2) == 0 {
					bad = mutStr(r, string(js), `{}[]",:0123456789abtuple()x -`)
				} else {
					bad = strings.Replace(string(js), []string{`"type":"uint`, `"name":"`, `"type":"`, `[`, `]"`, `"inputs":[`, `"components":[`}[r.Intn(7)],
						[]string{`"type":"int`, `"name":"1`, `"type":"tuple`, `[9223372036854775807`, `[4611686018427387904]"`, `"inputs":[{"name":"","type":"tuple","components":[{"name":"","type":"bool"}]},`, `"components":[{"name":"é","type":"uint8[18446744073709551615]"},`}[r.Intn(7)], 1+r.Intn(3))
				}
				c.Count("mutated_json", 1)
				c.Guard("JSON "+bad, func() {
					a, err := abi.JSON(strings.NewReader(bad))
					if err != nil {
						return
					}
					for _, m := range a.Methods {
						_ = m.String()
						if !bytes.Equal(m.ID, keccak([]byte(m.Sig))[:4]) {
							c.Violate("id", "%s: method %s has ID %x", bad, m.Sig, m.ID)
						}
						for _, in := range m.Inputs {
							_ = in.Type.GetType()
						}
					}
				})
			}
		})
	})
	c.Section("kinds", func(r0 *rand.Rand) {
		c.Cases("kinds", c.N2(8000, 80000), func(_ int, r *rand.Rand) {
			type ent struct {
				Type            string `json:"type"`
				Name            string `json:"name,omitempty"`
				Inputs          []jArg `json:"inputs,omitempty"`
				Outputs         []jArg `json:"outputs,omitempty"`
				StateMutability string `json:"stateMutability,omitempty"`
				Constant        bool   `json:"constant,omitempty"`
				Payable         bool   `json:"payable,omitempty"`
				Anonymous       bool   `json:"anonymous,omitempty"`
			}
			var es []ent
			seen := map[string]*ent{}
			bad := ""
			for k := 1 + r.Intn(5); k > 0; k-- {
				e := ent{Type: []string{"function", "constructor", "fallback", "receive", "fallback", "receive", "event"}[r.Intn(7)], StateMutability: []string{"", "pure", "view", "nonpayable", "payable", "payable"}[r.Intn(6)], Constant: r.Intn(4) == 0, Payable: r.Intn(4) == 0}
				switch e.Type {
				case "function":
					e.Name, e.Inputs, e.Outputs = fmt.Sprintf("f%d", k), jArgs(abix.GenFields(r, r.Intn(3), 1)), jArgs(abix.GenFields(r, r.Intn(3), 1))
				case "event":
					e.Name, e.Inputs, e.Anonymous = fmt.Sprintf("e%d", k), jArgs(abix.GenFields(r, r.Intn(3), 1)), r.Intn(2) == 0
				case "constructor":
					if seen[e.Type] != nil {
						continue
					}
					e.Inputs = jArgs(abix.GenFields(r, r.Intn(3), 1))
				case "receive":
					if r.Intn(4) > 0 {
						e.StateMutability = "payable"
					} else if e.StateMutability != "payable" && bad == "" {
						bad = "a receive that is not payable"
					}
				}
				if (e.Type == "fallback" || e.Type == "receive") && seen[e.Type] != nil && bad == "" {
					if r.Intn(2) == 0 {
						continue
					}
					bad = "two of the kind " + e.Type
				}
				es = append(es, e)
				cp := e
				seen[e.Type+e.Name] = &cp
			}
			js, _ := json.Marshal(es)
			c.Case(bad != "" || seen["fallback"] != nil || seen["receive"] != nil, string(js))
			c.Guard("JSON "+string(js), func() {
				a, err := abi.JSON(bytes.NewReader(js))
				c.Count("kinds", 1)
				if bad != "" {
					c.Count("kinds_bad", 1)
					c.Check(err != nil, "kind-accepted", "JSON accepts %s: %s", bad, js)
					c.Check(doesPanic(func() { abi.MustInitAbi("x", string(js)) }), "must-init", "MustInitAbi accepts %s: %s", bad, js)
					return
				}
				if err != nil {
					c.Violate("kind-rejected", "JSON(%s): %v", js, err)
					return
				}
				b := abi.MustInitAbi("x", string(js))
				c.Check(len(b.Methods) == len(a.Methods) && b.HasFallback() == a.HasFallback() && b.HasReceive() == a.HasReceive(), "must-init", "MustInitAbi of %s differs from JSON", js)
				same := func(what string, m abi.Method, e *ent) {
					if m.StateMutability != e.StateMutability || m.Constant != e.Constant || m.Payable != e.Payable ||
						m.IsConstant() != (e.StateMutability == "pure" || e.StateMutability == "view" || e.Constant) ||
						m.IsPayable() != (e.StateMutability == "payable" || e.Payable) || len(m.Inputs) != len(e.Inputs) || len(m.Outputs) != len(e.Outputs) {
						c.Violate("kind-state", "%s of %s: %+v (constant %v, payable %v), described as %+v", what, js, m, m.IsConstant(), m.IsPayable(), *e)
					}
					// the printed form
					var in, out []string
					for _, x := range m.Inputs {
						in = append(in, x.Type.String()+" "+x.Name)
					}
					for _, x := range m.Outputs {
						out = append(out, strings.TrimSuffix(x.Type.String()+" "+x.Name, " "))
					}
					head, state := e.Type, e.StateMutability+" "
					if e.Type == "function" {
						head += " " + m.RawName
					}
					if state == " " || state == "nonpayable " {
						state = ""
					}
					if want := head + "(" + strings.Join(in, ", ") + ") " + state + "returns(" + strings.Join(out, ", ") + ")"; m.String() != want {
						c.Violate("kind-printed", "%s of %s is printed %q, want %q", what, js, m.String(), want)
					}
				}
				c.Check(a.HasFallback() == (seen["fallback"] != nil), "has-fallback", "HasFallback=%v for %s", a.HasFallback(), js)
				c.Check(a.HasReceive() == (seen["receive"] != nil), "has-receive", "HasReceive=%v for %s", a.HasReceive(), js)
				if e := seen["fallback"]; e != nil {
					same("fallback", a.Fallback, e)
					c.Check(a.Fallback.Type == abi.Fallback && len(a.Fallback.ID) == 0 && a.Fallback.Sig == "", "fallback-id", "the fallback of %s has the identifier %x of %q", js, a.Fallback.ID, a.Fallback.Sig)
				}
				if e := seen["receive"]; e != nil {
					same("receive", a.Receive, e)
					c.Check(a.Receive.Type == abi.Receive && len(a.Receive.ID) == 0 && a.Receive.Sig == "", "receive-id", "the receive of %s has the identifier %x of %q", js, a.Receive.ID, a.Receive.Sig)
				}
				if e := seen["constructor"]; e != nil {
					same("constructor", a.Constructor, e)
					c.Check(a.Constructor.Type == abi.Constructor && len(a.Constructor.ID) == 0, "constructor-id", "the constructor of %s has the identifier %x", js, a.Constructor.ID)
				}
				nf, ne := 0, 0
				for k, e := range seen {
					switch e.Type {
					case "function":
						nf++
						same(e.Name, a.Methods[e.Name], e)
						c.Check(a.Methods[e.Name].Type == abi.Function, "kind-type", "%s of %s is of kind %d", k, js, a.Methods[e.Name].Type)
					case "event":
						ne++
						ev := a.Events[e.Name]
						c.Check(ev.Anonymous == e.Anonymous && len(ev.Inputs) == len(e.Inputs), "event-anonymous", "event %s of %s: %+v", e.Name, js, ev)
					}
				}
				c.Check(len(a.Methods) == nf && len(a.Events) == ne && len(a.Errors) == 0, "lost-entry", "%s: %d methods, %d events", js, len(a.Methods), len(a.Events))
			})
			// a kind nobody knows
			if r.Intn(10) == 0 {
				odd := strings.Replace(string(js), `"type":"`+es[0].Type+`"`, `"type":"`+[]string{"", "Function", "modifier", "fallback ", "struct"}[r.Intn(5)]+`"`, 1)
				c.Guard("JSON "+odd, func() {
					_, err := abi.JSON(strings.NewReader(odd))
					c.Check(err != nil, "kind-unknown", "JSON accepts %s", odd)
				})
			}
		})
		// tuple types carry the struct's name, which is no part of the signature
		c.Cases("structs", c.N2(2000, 20000), func(_ int, r *rand.Rand) {
			fs := abix.GenFields(r, 1+r.Intn(3), 1)
			t := &abix.Ty{K: abix.Tuple, Fields: fs}
			s, comps := t.Desc()
			nm := [][2]string{{"struct Foo", "Foo"}, {"struct Foo.Bar", "FooBar"}, {"struct A.B.C", "ABC"}, {"", ""}, {"contract Foo", ""}, {"Foo", ""}}[r.Intn(6)]
			in, raw := nm[0], nm[1]
			c.Guard("struct names", func() {
				y, err := abi.NewType(s, in, comps)
				if err != nil || y.TupleRawName != raw || y.String() != t.Canon() {
					c.Violate("struct-name", "NewType(%q, %q) = %q named %q, %v, want %q", s, in, y.String(), y.TupleRawName, err, raw)
				}
				c.Count("struct_names", 1)
			})
		})
	})
	c.Section("types", func(r0 *rand.Rand) {
		check := func(s string) {
			v := validType(s)
			if v {
				c.Count("types_valid", 1)
			} else {
				c.Count("types_malformed", 1)
			}
			c.Case(!v, "type "+s)
			c.Guard("NewType "+s, func() {
				t, err := abi.NewType(s, "", nil)
				if zeroLen(s) || s == "tuple" || strings.HasPrefix(s, "tuple[") {
					return // zero-length arrays and empty tuples: not prescribed
				}
				if v && (err != nil || t.String() != s) {
					c.Violate("type-rejected", "NewType(%q) = %q, %v", s, t.String(), err)
				} else if !v && err == nil {
					c.Violate("type-accepted", "NewType accepts the malformed %q (as %s)", s, t.GetType())
				}
			})
		}
		for b := 0; b <= 300; b++ {
			for _, p := range []string{"uint", "int", "bytes", "bool", "address", "string", "function"} {
				check(fmt.Sprint(p, b))
				check(fmt.Sprintf("%s%d[%d]", p, b, b))
			}
		}
		for _, s := range []string{"uint", "int", "", "[]", "uint[]", "uint256[", "uint256]", "uint256][", "uint256[-1]", "uint256[a]", "uint256[1 2]", "uint256[2]x", "x[2]", "fixed128x18", "uint256x2", "uint2x3", " uint256", "uint256 ", "uint256foo", "Uint256", "uint0256", "uint256[01]", "bytes032", "uint8[[2]]", "uint8[2][]x[3]", "mapping", "uint8[99999999999999999999]", "uint8[9223372036854775807]", "uint8[4611686018427387904]", "string[2147483647][2147483647][2147483647][2147483647]", "uint256[]uint256[]", "éuint256", "uint256é"} {
			check(s)
		}
		c.Cases("mutated", c.N2(20000, 400000), func(_ int, r *rand.Rand) {
			t := abix.GenElem(r)
			for r.Intn(2) == 0 {
				t = &abix.Ty{K: []abix.Kind{abix.Slice, abix.Array}[r.Intn(2)], Size: 1 + r.Intn(20), Elem: t}
			}
			check(t.Canon())
			check(mutStr(r, t.Canon(), "[]0123456789xuintbytes "))
		})
	})
	c.Section("selectors", func(r0 *rand.Rand) {
		check := func(s string) {
			v := validSelector(s)
			if v {
				c.Count("selectors_valid", 1)
			} else {
				c.Count("selectors_malformed", 1)
			}
			c.Case(!v, "selector "+s)
			c.Guard("ParseSelector "+s, func() {
				m, err := abi.ParseSelector(s)
				if v {
					if err != nil {
						c.Violate("selector-rejected", "ParseSelector(%q): %v", s, err)
						return
					}
					if got := m.Name + "(" + selArgs(m.Inputs) + ")"; got != s || m.Type != "function" {
						c.Violate("selector-value", "ParseSelector(%q) is %q", s, got)
					}
				} else if err == nil {
					c.Violate("selector-accepted", "ParseSelector accepts the malformed %q as %s(%s)", s, m.Name, selArgs(m.Inputs))
				}
			})
		}
		for _, s := range []string{"", "f", "foo", "f(", "f)", "()", "f()", "f()x", "f(())", "f(,)", "f(a,)", "f(,a)", "f(a;b)", "f(a b)", "f(a)[]", "f(a)[][]", "f((a)[])", "f((a)[][])", "f((a)[2])", "f((a,b)[],c)", "f(a[],[])", "f([])", "f(a[)", "f(a[2)", "f(a[2]", "1f()", "f((a)", "f(((a)))", "$f(a)", "f(a)(b)", "f(a))", "f((a)b)", "f(a(b))"} {
			check(s)
		}
		c.Cases("random", c.N2(20000, 400000), func(_ int, r *rand.Rand) {
			fs := abix.GenFields(r, r.Intn(4), 2)
			ok := true
			var walk func(t *abix.Ty)
			walk = func(t *abix.Ty) {
				switch t.K {
				case abix.Slice, abix.Array:
					if e := t.Elem; e.K == abix.Tuple && t.K == abix.Array || e.K == abix.Slice || e.K == abix.Array {
						for b := e; ; b = b.Elem {
							if b.K == abix.Tuple {
								ok = false // only one [] may follow a tuple
							}
							if b.Elem == nil {
								break
							}
						}
					}
					walk(t.Elem)
				case abix.Tuple:
					for _, f := range t.Fields {
						walk(f.Ty)
					}
				}
			}
			for _, f := range fs {
				walk(f.Ty)
			}
			s := []string{"transfer", "_a", "$", "f1"}[r.Intn(4)] + canonList(fs)
			if ok != validSelector(s) {
				c.Inconclusive("the two selector grammars disagree on %s", s)
				return
			}
			check(s)
			if ok {
				// the parsed form can be used: same identifier
				c.Guard("selector to method "+s, func() {
					m, err := abi.ParseSelector(s)
					if err != nil {
						return
					}
					js, _ := json.Marshal([]abi.SelectorMarshaling{m})
					a, err := abi.JSON(bytes.NewReader(js))
					if err != nil {
						c.Violate("selector-json", "JSON of ParseSelector(%q): %v", s, err)
						return
					}
					if mm, err := a.MethodById(keccak([]byte(s))[:4]); err != nil || mm.Sig != s {
						c.Violate("selector-id", "ParseSelector(%q): no method with its identifier: %v", s, err)
					}
				})
			}
			for k := 0; k < 3; k++ {
				check(mutStr(r, s, "()[],;0123abc $"))
			}
		})
	})
}

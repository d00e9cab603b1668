package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/harness/mon"
	"verif/harness/rlpx"
)

func init() {
	mon.Register(&mon.Check{ID: "R05",
		Rule:  "the built rlpgen run on fixed and random struct types; its output compiled and executed next to a twin type coded by reflection, on random values and mutated encodings; non-trivial when the type has more than one field or a tag",
		Floor: map[string]int64{"types_accepted": 40, "types_compiled": 40, "values_compared": 5000, "inputs_accepted": 3000, "inputs_rejected": 5000, "methods_called": 5000, "values_reused": 3000}, Run: runR05})
}

// genFixed: one struct body per feature of the generator.
var genFixed = []string{
	"A uint64",
	"A bool; B uint8; C uint16; D uint32; E uint64; F byte",
	"A string; B []byte; C [0]byte; D [1]byte; E [2]byte; F [32]byte; G [60]byte",
	"A *big.Int; B big.Int; C *uint256.Int; D uint256.Int",
	"A rlp.RawValue; B []rlp.RawValue",
	"A Aux; B *Aux; C []Aux; D []*Aux; E [][]Aux",
	"A struct{ X uint16; Y struct{ Z string } }; B []struct{ Q []byte }",
	"A []uint64; B []string; C [][]byte; D []bool; E [][][]uint16; F [][4]byte; G []*big.Int; H []big.Int; I []uint256.Int; J []*uint256.Int",
	"A *uint64; B *string; C *[3]byte; D *[]byte; E *bool; F *[]uint32; G *Aux",
	"A *uint64 `rlp:\"nil\"`; B *string `rlp:\"nil\"`; C *[3]byte `rlp:\"nil\"`; D *[]byte `rlp:\"nil\"`; E *bool `rlp:\"nil\"`; F *[]uint32 `rlp:\"nil\"`; G *Aux `rlp:\"nil\"`",
	"A *[]uint32 `rlp:\"nilList\"`; B *[]byte `rlp:\"nilString\"`; C uint8",
	"A uint64; B uint32 `rlp:\"optional\"`; C string `rlp:\"optional\"`; D []byte `rlp:\"optional\"`; E [3]byte `rlp:\"optional\"`; F bool `rlp:\"optional\"`",
	"A *uint64 `rlp:\"optional\"`; B *big.Int `rlp:\"optional\"`; C *Aux `rlp:\"optional\"`; D Plain `rlp:\"optional\"`; E *uint256.Int `rlp:\"optional\"`; F uint256.Int `rlp:\"optional\"`",
	"A []uint64 `rlp:\"optional\"`; B uint64 `rlp:\"optional\"`",
	"A *uint64 `rlp:\"nil,optional\"`; B *Aux `rlp:\"nil,optional\"`",
	"A uint64; B string `rlp:\"-\"`; c int; D uint8",
	"A *rlpx.Cust; B []*rlpx.Cust; C uint8",
	"A MyU; B MyS; C MyBool; D []MyU; E *MyU",
	"A MyB; B MyA; C []MyA; D MySl; E *MyA; F []MySl; G *[]MyS",
	"A *MyB; B *MySl; C []MyB; D []MySl; E MyStruct; F *MyStruct; G []*MyStruct",
	"A **uint64; B **Aux; C []**uint32",
	"A *rlp.RawValue",
	"A []*[]byte; B *[2]byte; C []*[2]byte",
	"A [4]MyByte",
	rlpx.KnownNil,
	rlpx.KnownNilKind,
	rlpx.KnownOptEmpty,
	"A []MyByte",
	"A rlpx.Cust; B []rlpx.Cust; C *[]rlpx.Cust; D struct{ E rlpx.Cust }",
	"A *uint64 `rlp:\"nilList\"`; B *[]byte `rlp:\"nilList\"`; C *[]uint32 `rlp:\"nilString\"`",
	"A []big.Int `rlp:\"optional\"`; B []*Aux `rlp:\"optional\"`",
	"A big.Int `rlp:\"optional\"`",
	"A Aux `rlp:\"optional\"`",
	"A [4]Aux8",
	"",
	"A struct{}; B uint8",
	"A common.Hash; B *common.Address; C common.Height",
	"A []*uint64; B []*string; C []*[]byte",
	"A struct{ B []*struct{ C *big.Int } }",
}

const genPrelude = `package %s

import (
	"math/big"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/holiman/uint256"

	"verif/harness/rlpx"
)

var (
	_ big.Int
	_ rlp.RawValue
	_ uint256.Int
	_ rlpx.Cust
	_ common.Hash
)

type (
	Aux struct {
		A uint32
		B []byte
	}
	Plain struct {
		A uint8
		B string
	}
	Aux8     [4]byte
	MyU      uint64
	MyS      string
	MyBool   bool
	MyB      []byte
	MyA      [4]byte
	MySl     []uint16
	MyByte   byte
	MyStruct struct {
		A MyU
		B *MyB
	}
)

type T struct {
%s
}

type R struct {
%s
}
`

func genType(r *rand.Rand, depth int) string {
	leaf := []string{"bool", "uint8", "uint16", "uint32", "uint64", "string", "[]byte", "[1]byte", "[5]byte", "[20]byte", "*big.Int", "big.Int", "*uint256.Int", "uint256.Int", "rlp.RawValue", "Aux", "*Aux", "MyB", "MyA", "*rlpx.Cust", "MyU", "MyS", "MyStruct"}
	if depth <= 0 || r.Intn(2) == 0 {
		return leaf[r.Intn(len(leaf))]
	}
	switch r.Intn(4) {
	case 0, 1:
		return "[]" + genType(r, depth-1)
	case 2:
		e := genType(r, depth-1)
		if strings.HasPrefix(e, "*") || e == "big.Int" || e == "uint256.Int" || e == "rlp.RawValue" {
			return "[]" + e
		}
		return "*" + e
	}
	var fs []string
	for k := r.Intn(4); k >= 0; k-- {
		fs = append(fs, fmt.Sprintf("X%d %s", k, genType(r, depth-1)))
	}
	return "struct { " + strings.Join(fs, "; ") + " }"
}

// comparable1: an optional field of this type can be compared with its zero value in Go source.
func optionalOK(t string) bool {
	return !strings.Contains(t, "struct") && t != "big.Int" && t != "Aux" && t != "MyStruct" && t != "MyB"
}

func genBody(r *rand.Rand) string {
	n := 1 + r.Intn(6)
	opt := n
	if r.Intn(3) == 0 {
		opt = r.Intn(n)
	}
	var fs []string
	for i := 0; i < n; i++ {
		t := genType(r, 3)
		var tg []string
		if strings.HasPrefix(t, "*") && r.Intn(2) == 0 {
			tg = append(tg, "nil")
		}
		if i >= opt {
			for !optionalOK(t) {
				t, tg = genType(r, 1), nil
			}
			tg = append(tg, "optional")
		}
		f := fmt.Sprintf("F%d %s", i, t)
		if len(tg) > 0 {
			f += " `rlp:\"" + strings.Join(tg, ",") + "\"`"
		}
		fs = append(fs, f)
	}
	return strings.Join(fs, "; ")
}

// buildRlpgen builds the repository's rlpgen. golang.org/x/tools v0.10.0, which go.mod pins, cannot type-check under a
// Go toolchain newer than 1.20 (it asserts types.Sizes to *types.StdSizes and is left with nil), so the command is built
// against a copy of that module in which only this assertion has a fallback. rlpgen itself is compiled unchanged.
func buildRlpgen(c *mon.Ctx, repo, gen string) error {
	goCmd := func(args ...string) ([]byte, error) {
		cmd := exec.Command("go", args...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")
		return cmd.CombinedOutput()
	}
	xt := filepath.Join(c.Scratch, "xtools")
	mf := filepath.Join(c.Scratch, "rlpgen.mod")
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(c.Scratch, "rlpgen.sum"), gs, 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(mf, gm, 0o644); err != nil {
		return err
	}
	out, err := goCmd("list", "-modfile="+mf, "-m", "-f", "{{.Dir}}", "golang.org/x/tools")
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	if out, err := exec.Command("cp", "-r", "--no-preserve=mode", strings.TrimSpace(string(out)), xt).CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	gl := filepath.Join(xt, "go", "packages", "golist.go")
	src, err := os.ReadFile(gl)
	if err != nil {
		return err
	}
	const assert = "response.dr.Sizes, _ = sizes.(*types.StdSizes)"
	src = []byte(strings.Replace(string(src), assert, assert+"\nif response.dr.Sizes == nil { response.dr.Sizes = &types.StdSizes{WordSize: 8, MaxAlign: 8} }", 1))
	if err := os.WriteFile(gl, src, 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(mf, append(gm, []byte("\nreplace golang.org/x/tools => "+xt+"\n")...), 0o644); err != nil {
		return err
	}
	if out, err := goCmd("build", "-modfile="+mf, "-o", gen, "./rlp/rlpgen"); err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

func runR05(c *mon.Ctx) {
	c.Section("generated", func(r *rand.Rand) {
		root := os.Getenv("VERIF_ROOT")
		repo := os.Getenv("VERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		dir := filepath.Join(c.Scratch, "gen")
		must := func(err error, what string) bool {
			if err != nil {
				c.Inconclusive("%s: %v", what, err)
			}
			return err == nil
		}
		if !must(os.MkdirAll(dir, 0o755), "scratch") {
			return
		}
		env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")
		run := func(d string, name string, args ...string) (string, error) {
			cmd := exec.Command(name, args...)
			cmd.Dir, cmd.Env = d, env
			out, err := cmd.CombinedOutput()
			return string(out), err
		}
		gm, err := os.ReadFile(filepath.Join(root, "harness", "go.mod"))
		if !must(err, "go.mod") {
			return
		}
		gms := strings.Replace(string(gm), "module verif/harness", "module gentest", 1) +
			"\nreplace verif/harness => " + filepath.Join(root, "harness") + "\nrequire verif/harness v0.0.0\n"
		gs, err := os.ReadFile(filepath.Join(root, "harness", "go.sum"))
		if !must(err, "go.sum") || !must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(gms), 0o644), "go.mod") || !must(os.WriteFile(filepath.Join(dir, "go.sum"), gs, 0o644), "go.sum") {
			return
		}
		gen := filepath.Join(c.Scratch, "rlpgen")
		if err := buildRlpgen(c, repo, gen); err != nil {
			c.Inconclusive("building rlpgen: %v", err)
			return
		}
		bodies := append([]string{}, genFixed...)
		for k := c.N2(28, 300); k > 0; k-- {
			bodies = append(bodies, genBody(r))
		}
		type st struct {
			name, body string
			ok         bool
			out        string
		}
		ts := make([]*st, len(bodies))
		for i, b := range bodies {
			ts[i] = &st{name: fmt.Sprintf("t%d", i), body: b}
			d := filepath.Join(dir, ts[i].name)
			src := strings.ReplaceAll(b, "; ", "\n\t")
			if !must(os.MkdirAll(d, 0o755), "scratch") || !must(os.WriteFile(filepath.Join(d, "t.go"), []byte(fmt.Sprintf(genPrelude, ts[i].name, src, src)), 0o644), "source") {
				return
			}
		}
		if out, err := run(dir, "go", "build", "./..."); err != nil {
			c.Inconclusive("the type sources do not compile: %v\n%s", err, out)
			return
		}
		mon.Workers(len(ts), func(i int) {
			t := ts[i]
			d := filepath.Join(dir, t.name)
			out, err := run(d, gen, "-type", "T", "-encoder", "-decoder", "-out", filepath.Join(d, "gen.go"))
			t.ok, t.out = err == nil, out
		})
		var live []*st
		var refused []string
		for _, t := range ts {
			if t.ok {
				live = append(live, t)
				c.Count("types_accepted", 1)
			} else {
				c.Count("types_refused", 1)
				refused = append(refused, t.body+": "+trim1(t.out))
				if strings.Contains(t.out, "not valid") || strings.Contains(t.out, "expected") && strings.Contains(t.out, ":") && !strings.Contains(t.out, "unhandled") {
					c.Violate("bad-source", "type { %s }: rlpgen produced source that does not parse: %s", t.body, trim1(t.out))
				}
			}
		}
		if len(live) < len(ts)/2 {
			c.Inconclusive("rlpgen refused %d of %d types, for instance %s", len(refused), len(ts), trim1(strings.Join(refused, "\n")))
			return
		}
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Println("refused:", strings.Join(refused, "\n"))
		}
		// compile; leave out what does not
		out, err := run(dir, "go", "build", "./...")
		broken := map[string]string{}
		if err != nil {
			cur := ""
			for _, l := range strings.Split(out, "\n") {
				if m := regexp.MustCompile(`^# gentest/(\S+)`).FindStringSubmatch(l); m != nil {
					cur = m[1]
				} else if cur != "" && broken[cur] == "" {
					broken[cur] = l
				}
			}
			if len(broken) == 0 {
				c.Inconclusive("go build of generated code: %v\n%s", err, trim1(out))
				return
			}
		}
		var imports, pairs []string
		for _, t := range live {
			if b := broken[t.name]; b != "" {
				sig := "does-not-compile"
				if t.body == "A *rlp.RawValue" {
					sig = "does-not-compile:pointer-to-RawValue"
				}
				c.Violate(sig, "type { %s }: generated code does not compile: %s", t.body, b)
				continue
			}
			c.Count("types_compiled", 1)
			imports = append(imports, fmt.Sprintf("\t%q", "gentest/"+t.name))
			pairs = append(pairs, fmt.Sprintf("\t{%q, reflect.TypeOf(%s.T{}), reflect.TypeOf(%s.R{})},", t.body, t.name, t.name))
		}
		main := fmt.Sprintf(`package main

import (
	"encoding/json"
	"os"
	"reflect"
	"sync"

	"verif/harness/rlpx"
%s
)

var pairs = []rlpx.Pair{
%s
}

func main() {
	res := make([]rlpx.PairResult, len(pairs))
	var wg sync.WaitGroup
	for i := range pairs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i] = pairs[i].Compare(int64(%d+i), %d)
		}(i)
	}
	wg.Wait()
	out, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.NewEncoder(out).Encode(res); err != nil {
		panic(err)
	}
}
`, strings.Join(imports, "\n"), strings.Join(pairs, "\n"), c.Seed*1000, c.N2(400, 4000))
		md := filepath.Join(dir, "cmd")
		if !must(os.MkdirAll(md, 0o755), "scratch") || !must(os.WriteFile(filepath.Join(md, "main.go"), []byte(main), 0o644), "driver") {
			return
		}
		if out, err := run(dir, "go", "build", "-o", filepath.Join(c.Scratch, "driver"), "./cmd"); err != nil {
			c.Inconclusive("driver: %v\n%s", err, trim1(out))
			return
		}
		cmd := exec.Command(filepath.Join(c.Scratch, "driver"), filepath.Join(c.Scratch, "result.json"))
		var eb strings.Builder
		cmd.Stderr = &eb
		if err := cmd.Run(); err != nil {
			c.Violate("driver-crash", "running generated code: %v\n%s", err, trim1(eb.String()))
			return
		}
		jout, err := os.ReadFile(filepath.Join(c.Scratch, "result.json"))
		if !must(err, "driver output") {
			return
		}
		var res []rlpx.PairResult
		if !must(json.Unmarshal(jout, &res), "driver output") {
			return
		}
		sort.Slice(res, func(i, j int) bool { return res[i].Name < res[j].Name })
		for _, x := range res {
			c.Count("values_compared", int64(x.Encoded))
			c.Count("methods_called", int64(x.Methods))
			c.Count("values_reused", int64(x.Reused))
			c.Count("inputs_accepted", int64(x.Accepted))
			c.Count("inputs_rejected", int64(x.Rejected))
			c.Case(strings.Contains(x.Name, ";") || strings.Contains(x.Name, "rlp:"), x.Name)
			for _, b := range x.Bad {
				p := strings.SplitN(b, "|", 2)
				c.Violate(p[0], "type { %s }: %s", x.Name, p[1])
			}
		}
	})
}

func trim1(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

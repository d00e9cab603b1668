// vh runs one property check: "vh PROP" supervises a child process "vh -child PROP" that runs the
// real go-common code under the property's workloads and monitors.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	_ "verif/harness/checks"
	"verif/harness/mon"
)

type known struct{ Property, Sig, What string }

var knownLine = regexp.MustCompile(`^known: property=(\S+) sig=(\S+) (.*)$`)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-child" {
		child(os.Args[2])
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "-worker" {
		mon.Procs[os.Args[2]](os.Args[3:])
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "-list" {
		var ids []string
		for id, c := range mon.Checks {
			r := ""
			if c.Race {
				r = " race"
			}
			ids = append(ids, id+r)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if len(os.Args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: vh PROP")
		os.Exit(2)
	}
	os.Exit(supervise(os.Args[1]))
}

func seed() int64 {
	s, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}

func tier() string {
	if env("VERIF_TIER", "quick") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func child(id string) {
	ck := mon.Checks[id]
	c := mon.NewCtx(id, tier(), seed(), os.Getenv("VERIF_SCRATCH"), os.Getenv("VERIF_ONLY"))
	go c.Watch()
	ck.Run(c)
	c.Count("finished", 1)
	if os.Getenv("VERIF_ONLY") == "" {
		c.Floors(ck.Floor)
	}
	c.Flush()
	os.Exit(0)
}

// race reports: split the log, keep those whose stacks touch go-common.
var lineNo = regexp.MustCompile(`(\+0x[0-9a-f]+|:\d+)`)

func raceReports(dir string) (mine map[string]string, other int) {
	mine = map[string]string{}
	files, _ := filepath.Glob(filepath.Join(dir, "race.log*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			var frames []string
			blocks := strings.Split(rep, "\n\n")
			for _, blk := range blocks {
				if strings.Contains(blk, "created at") {
					continue
				}
				for _, l := range strings.Split(blk, "\n") {
					l = strings.TrimSpace(l)
					if strings.HasPrefix(l, "github.com/ThinkiumGroup/go-common") {
						l = strings.TrimPrefix(l, "github.com/ThinkiumGroup/go-common")
						if j := strings.LastIndex(l, "("); j > 0 {
							l = l[:j]
						}
						frames = append(frames, l)
						break
					}
				}
			}
			if len(frames) == 0 {
				other++
				continue
			}
			sort.Strings(frames)
			mine["race:"+strings.Join(frames, "~")] = rep
		}
	}
	return
}

func supervise(id string) int {
	ck := mon.Checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		return 2
	}
	root := env("VERIF_ROOT", "/verif")
	start := time.Now()
	scratch, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	self, _ := os.Executable()
	cmd := exec.Command(self, "-child", id)
	logf, _ := os.Create(filepath.Join(scratch, "child.log"))
	cmd.Stdout, cmd.Stderr = logf, logf
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(scratch, "race.log"),
		"GOTRACEBACK=all", "GOMEMLIMIT=12GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	limit := 840 * time.Second
	if tier() == "thorough" {
		limit = 4 * time.Hour
	}
	var bitten atomic.Bool
	dog := time.AfterFunc(limit, func() {
		bitten.Store(true)
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	werr := cmd.Wait()
	dog.Stop()
	dogged := bitten.Load()
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	logf.Close()

	var res mon.Result
	if b, err := os.ReadFile(filepath.Join(scratch, "result.json")); err == nil {
		_ = json.Unmarshal(b, &res)
	}
	if res.Counters == nil {
		res.Counters = map[string]int64{}
	}
	logTail := tail(filepath.Join(scratch, "child.log"), 60000)
	crashed := werr != nil && !dogged
	if crashed {
		sig := "crash"
		if m := regexp.MustCompile(`(?m)^fatal error: (.*)$`).FindStringSubmatch(logTail); m != nil {
			sig = "crash:" + m[1]
		}
		if site := mon.PanicSite(logTail); site != "harness" {
			sig += ":" + site
		}
		if strings.Contains(logTail, "signal: killed") || strings.Contains(werr.Error(), "killed") {
			res.Inconcl = append(res.Inconcl, "child killed: "+werr.Error())
		} else {
			res.Violations = append(res.Violations, mon.Violation{Sig: sig, Section: last(res.Sections),
				Msg: "the process under test crashed: " + werr.Error(), Stack: logTail})
		}
	}
	if dogged {
		res.Inconcl = append(res.Inconcl, "watchdog: run exceeded "+limit.String())
	}
	if ck.Race {
		mine, other := raceReports(scratch)
		res.Counters["race_reports_in_code_under_test"] = int64(len(mine))
		if other > 0 {
			res.Inconcl = append(res.Inconcl, fmt.Sprintf("%d race reports with no go-common frame (harness or dependency)", other))
			fmt.Fprintln(os.Stderr, tail(firstGlob(scratch, "race.log*"), 6000))
		}
		var ks []string
		for k := range mine {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			res.Violations = append(res.Violations, mon.Violation{Sig: k, Section: "race detector", Msg: "data race", Stack: mine[k]})
		}
	}

	// known findings: lines "known: property=<id> sig=<sig> <what>"; "fixed:" lines suppress nothing
	var kn []known
	if b, err := os.ReadFile(filepath.Join(root, "known_findings.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if m := knownLine.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == id {
				kn = append(kn, known{Property: m[1], Sig: m[2], What: m[3]})
			}
		}
	}
	printed := map[string]bool{}
	var fresh []mon.Violation
	for _, v := range res.Violations {
		isKnown := false
		for _, k := range kn {
			if k.Sig == strings.ReplaceAll(v.Sig, " ", "_") {
				isKnown = true
				if !printed[k.Sig] {
					printed[k.Sig] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
			}
		}
		if !isKnown {
			fresh = append(fresh, v)
		}
	}
	code := 0
	if len(fresh) > 0 {
		code = 1
		dir := filepath.Join(root, "replays")
		_ = os.MkdirAll(dir, 0o755)
		rp := filepath.Join(dir, id+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "seed": seed(), "tier": tier(),
			"replay_with": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY='%s' bash run.sh %s", seed(), tier(), fresh[0].Section, id),
			"violations":  fresh}, "", " ")
		_ = os.WriteFile(rp, b, 0o644)
		for i, v := range fresh {
			if i >= 8 {
				break
			}
			fmt.Printf("  [%s] %s: %s\n", v.Section, v.Sig, oneLine(v.Msg))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else if len(res.Inconcl) > 0 {
		code = 2
		for _, m := range res.Inconcl {
			fmt.Println("INCONCLUSIVE:", m)
		}
		fmt.Fprintln(os.Stderr, tail(filepath.Join(scratch, "child.log"), 3000))
	}
	cov := map[string]interface{}{"evaluations": res.Evaluations, "distinct_nontrivial": res.Distinct,
		"rule": ck.Rule, "samples": res.Samples, "observed": res.Counters, "workloads": res.Sections, "known_findings_seen": len(printed)}
	if len(res.Inconcl) > 0 {
		cov["inconclusive"] = res.Inconcl
	}
	ev := map[string]interface{}{"property": id, "tier": tier(), "seed": seed(), "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(fresh), "assumptions": ck.Assume}
	if ck.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d workloads, %.1fs, exit %d\n", id, res.Evaluations, res.Distinct, len(res.Sections), time.Since(start).Seconds(), code)
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, k := range mon.Keys(res.Counters) {
			fmt.Printf("   %s=%d\n", k, res.Counters[k])
		}
	}
	return code
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > 700 {
		s = s[:700] + "…"
	}
	return s
}

func firstGlob(dir, pat string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, pat))
	if len(fs) == 0 {
		return ""
	}
	return fs[0]
}

func last(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[len(s)-1]
}

func tail(p string, n int64) string {
	f, err := os.Open(p)
	if err != nil {
		return ""
	}
	defer f.Close()
	fi, _ := f.Stat()
	if fi.Size() > n {
		_, _ = f.Seek(-n, io.SeekEnd)
	}
	b, _ := io.ReadAll(f)
	return string(b)
}

var _ = lineNo

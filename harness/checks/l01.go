package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	golog "github.com/ThinkiumGroup/go-common/log"
	"github.com/sirupsen/logrus"

	"verif/harness/mon"
)

func init() {
	mon.Procs["logworker"] = logWorker
	mon.Procs["cclogworker"] = ccLogWorker
	mon.Register(&mon.Check{ID: "L01", Race: true,
		Rule: "goroutines log uniquely numbered records through every entry point and derived logger while another one configures the log; the captured files and console are matched with the calls; non-trivial when the log was configured during the calls",
		Floor: map[string]int64{"records": 20000, "matched_file": 8000, "matched_console": 4000, "matched_stdout": 3000, "derived": 4000, "configured_meanwhile": 1000,
			"field_pairs": 10000, "nested": 300, "cc_records": 3000, "cc_nested": 300, "hook_records": 5000}, Run: runL01})
}

// A logRec is one call, written down by the goroutine that made it.
type logRec struct {
	ID     string
	Level  string
	Text   string
	Fields map[string]string
	Lo, Hi int // the configuration in force is one of these (inclusive)
	Order  int // position among the calls of one goroutine on one logger, -1 when not ordered
	Lane   int
	How    string
}

// A logConf is a state of the log: where records go and the fields set for all.
type logConf struct {
	Path   string // empty: standard output
	Fields map[string]string
}

type logTrace struct {
	Recs  []logRec
	Confs []logConf
}

type nestedArg struct{ f func() }

func (n nestedArg) String() string { n.f(); return "nested" }

func logText(r *rand.Rand) string {
	words := []string{"a b", "x=y", `"q"`, "é✓", "100%", `\n`, "tab\there", "", "level=info", "[1]", "end "}
	var s []string
	for k := r.Intn(3); k > 0; k-- {
		s = append(s, words[r.Intn(len(words))])
	}
	return strings.Join(s, " ")
}

func logValue(r *rand.Rand) (interface{}, string) {
	switch r.Intn(8) {
	case 0:
		return 42, "42"
	case 1:
		return true, "true"
	case 2:
		return nil, "<nil>"
	case 3:
		return errors.New("an error"), "an error"
	case 4:
		return []int{1, 2}, "[1 2]"
	case 5:
		return "", ""
	case 6:
		return "two\nlines \"q\" =x", "two\nlines \"q\" =x"
	}
	s := fmt.Sprint("v", r.Intn(1000))
	return s, s
}

const logMark = "⟦%s⟧%s⟦/%s⟧"

func logMsg(id, text string) string { return fmt.Sprintf(logMark, id, text, id) }

// logWorker: args are directory, seed, goroutines, records for each, and the file for the trace.
func logWorker(args []string) {
	dir, outFile := args[0], args[4]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	gs, _ := strconv.Atoi(args[2])
	n, _ := strconv.Atoi(args[3])
	r0 := rand.New(rand.NewSource(seed))
	confs := []logConf{{Fields: map[string]string{}}}
	var started, finished int64
	next := 0
	configure := func(r *rand.Rand) {
		next++
		cur := confs[len(confs)-1]
		nc := logConf{Path: cur.Path, Fields: map[string]string{}}
		if r.Intn(4) == 0 {
			nc.Path = filepath.Join(dir, fmt.Sprint("log", next))
			confs = append(confs, nc)
			atomic.AddInt64(&started, 1)
			nid := make([]byte, r.Intn(8))
			r.Read(nid)
			golog.InitLog(nc.Path, nid)
		} else {
			fs := logrus.Fields{}
			for k, v := range cur.Fields {
				nc.Fields[k] = v
			}
			for k := 1 + r.Intn(2); k > 0; k-- {
				key := fmt.Sprint("g", r.Intn(6))
				v, s := logValue(r)
				fs[key], nc.Fields[key] = v, s
			}
			confs = append(confs, nc)
			atomic.AddInt64(&started, 1)
			golog.SetFields(fs)
		}
		atomic.AddInt64(&finished, 1)
	}
	var mu sync.Mutex
	var all []logRec
	for phase := 0; phase < 4; phase++ {
		if phase > 0 {
			configure(r0)
		}
		meanwhile := r0.Intn(3) > 0
		shared, sharedRec := deriveLogger(r0, &finished, &started)
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var mw sync.WaitGroup
		if meanwhile {
			mw.Add(1)
			s := r0.Int63()
			go func() {
				defer mw.Done()
				r := rand.New(rand.NewSource(s))
				for k := 0; k < 6; k++ {
					select {
					case <-stop:
						return
					default:
					}
					configure(r)
					for spin := r.Intn(2000); spin > 0; spin-- {
						_ = spin
					}
					if r.Intn(2) == 0 {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
				}
			}()
		}
		for g := 0; g < gs; g++ {
			wg.Add(1)
			s, lane := r0.Int63(), phase*1000+g
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(s))
				recs := logSome(r, lane, n, shared, sharedRec, &finished, &started)
				mu.Lock()
				all = append(all, recs...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		close(stop)
		mw.Wait()
	}
	b, err := json.Marshal(logTrace{all, confs})
	if err == nil {
		err = os.WriteFile(outFile, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
}

// deriveLogger derives a logger; the record holds its fields and the configurations it may come from.
func deriveLogger(r *rand.Rand, finished, started *int64) (logrus.FieldLogger, logRec) {
	rec := logRec{Fields: map[string]string{}, How: "derived"}
	key := func() string { return []string{"k0", "k1", "k2", "k3", "k4", "k5", "g0", "K"}[r.Intn(8)] }
	rec.Lo = int(atomic.LoadInt64(finished))
	var l logrus.FieldLogger
	switch r.Intn(3) {
	case 0:
		fs := logrus.Fields{}
		for k := r.Intn(5); k > 0; k-- {
			f := key()
			v, s := logValue(r)
			fs[f], rec.Fields[f] = v, s
		}
		l = golog.WithFields(fs)
	default:
		var vs []interface{}
		for k := r.Intn(6); k > 0; k-- {
			v, s := logValue(r)
			if r.Intn(10) == 0 {
				vs = append(vs, 7, v) // not a name: skipped
				continue
			}
			f := key()
			vs = append(vs, f, v)
			rec.Fields[f] = s
		}
		if r.Intn(4) == 0 {
			vs = append(vs, "odd") // a name without a value
		}
		l = golog.WithField(vs...)
	}
	rec.Hi = int(atomic.LoadInt64(started))
	for k := r.Intn(3); k > 0; k-- {
		f := key()
		v, s := logValue(r)
		l = l.WithField(f, v)
		rec.Fields[f] = s
	}
	return l, rec
}

func logSome(r *rand.Rand, lane, n int, shared logrus.FieldLogger, sharedRec logRec, finished, started *int64) (out []logRec) {
	own, ownRec := deriveLogger(r, finished, started)
	serial := 0
	newID := func() string { serial++; return fmt.Sprintf("%d.%d", lane, serial) }
	for i := 0; i < n; i++ {
		id, text := newID(), logText(r)
		rec := logRec{ID: id, Text: text, Order: i, Lane: lane, Fields: map[string]string{}}
		level := r.Intn(4)
		rec.Level = []string{"debug", "info", "warning", "error"}[level]
		msg := logMsg(id, text)
		var l logrus.FieldLogger
		kind := r.Intn(10)
		switch kind {
		case 0, 1:
			l, rec.Fields, rec.Lo, rec.Hi, rec.How = shared, sharedRec.Fields, sharedRec.Lo, sharedRec.Hi, "shared"
		case 2, 3:
			l, rec.Fields, rec.Lo, rec.Hi, rec.How = own, ownRec.Fields, ownRec.Lo, ownRec.Hi, "own"
		case 4:
			var dr logRec
			l, dr = deriveLogger(r, finished, started)
			rec.Fields, rec.Lo, rec.Hi, rec.How = dr.Fields, dr.Lo, dr.Hi, "fresh"
		}
		if l != nil {
			if r.Intn(3) == 0 {
				[]func(logrus.FieldLogger, string, ...interface{}){golog.MustDebugf, golog.MustInfof, golog.MustWarnf, golog.MustErrorf}[level](l, "%s", msg)
			} else if r.Intn(2) == 0 {
				[]func(...interface{}){l.Debug, l.Info, l.Warn, l.Error}[level](msg)
			} else {
				[]func(string, ...interface{}){l.Debugf, l.Infof, l.Warnf, l.Errorf}[level]("%s", msg)
			}
			out = append(out, rec)
			continue
		}
		var inner []logRec
		rec.Lo = int(atomic.LoadInt64(finished))
		switch kind {
		case 5, 6:
			rec.How = "plain"
			[]func(...interface{}){golog.Debug, golog.Info, golog.Warn, golog.Error}[level](msg)
		case 7:
			rec.How = "formatted"
			[]func(string, ...interface{}){golog.Debugf, golog.Infof, golog.Warnf, golog.Errorf}[level](logMark, id, text, id)
		case 8:
			rec.How = "must"
			[]func(logrus.FieldLogger, string, ...interface{}){golog.MustDebugf, golog.MustInfof, golog.MustWarnf, golog.MustErrorf}[level](nil, logMark, id, text, id)
		default:
			// the argument logs when it is printed
			rec.How = "nested"
			x := logRec{ID: newID(), Level: "info", Text: "inside", Order: -1, Lane: lane, Fields: map[string]string{}, How: "inner"}
			arg := nestedArg{func() {
				x.Lo = int(atomic.LoadInt64(finished))
				golog.Info(logMsg(x.ID, x.Text))
				x.Hi = int(atomic.LoadInt64(started))
			}}
			rec.Text = "nested"
			[]func(string, ...interface{}){golog.Debugf, golog.Infof, golog.Warnf, golog.Errorf}[level](logMark, id, arg, id)
			inner = append(inner, x)
		}
		rec.Hi = int(atomic.LoadInt64(started))
		out = append(append(out, rec), inner...)
	}
	return
}

// A logLine is a record found in an output.
type logLine struct {
	ID, Level, Text string
	Fields          map[string]string
	Coloured        bool
}

var (
	ansi      = regexp.MustCompile("\x1b\\[[0-9]*m")
	markRe    = regexp.MustCompile(`⟦([0-9.]+)⟧`)
	colourKey = regexp.MustCompile("\x1b\\[[0-9]+m([A-Za-z0-9_]+)\x1b\\[0m=")
)

// parseLine reads one line of an output in either form of the text formatter.
func parseLine(l string) (out logLine, ok bool, err error) {
	m := markRe.FindStringSubmatch(l)
	if m == nil {
		return out, false, nil
	}
	out.ID, out.Fields = m[1], map[string]string{}
	open, end := "⟦"+out.ID+"⟧", "⟦/"+out.ID+"⟧"
	if strings.Count(l, open) != 1 || strings.Count(l, end) != 1 {
		return out, true, fmt.Errorf("damaged line %q", l)
	}
	if strings.HasPrefix(l, "\x1b[") {
		out.Coloured = true
		lv := ansi.ReplaceAllString(l, "")
		for k, v := range map[string]string{"DEBU": "debug", "INFO": "info", "WARN": "warning", "ERRO": "error"} {
			if strings.HasPrefix(lv, k+"[") {
				out.Level = v
			}
		}
		i, j := strings.Index(l, open)+len(open), strings.Index(l, end)
		out.Text = l[i:j]
		rest := l[j+len(end):]
		for rest = strings.TrimLeft(rest, " "); rest != ""; rest = strings.TrimLeft(rest, " ") {
			k := colourKey.FindStringSubmatchIndex(rest)
			if k == nil || k[0] != 0 {
				return out, true, fmt.Errorf("unexpected %q in %q", rest, l)
			}
			key := rest[k[2]:k[3]]
			val, n, err := logToken(rest[k[1]:])
			if err != nil {
				return out, true, fmt.Errorf("field %s of %q: %v", key, l, err)
			}
			if _, dup := out.Fields[key]; dup {
				return out, true, fmt.Errorf("field %s twice in %q", key, l)
			}
			out.Fields[key] = val
			rest = rest[k[1]+n:]
		}
		return out, true, nil
	}
	for rest := l; rest != ""; rest = strings.TrimLeft(rest, " ") {
		i := strings.IndexByte(rest, '=')
		if i < 0 {
			return out, true, fmt.Errorf("unexpected %q in %q", rest, l)
		}
		key := rest[:i]
		val, n, err := logToken(rest[i+1:])
		if err != nil {
			return out, true, fmt.Errorf("field %s of %q: %v", key, l, err)
		}
		if _, dup := out.Fields[key]; dup {
			return out, true, fmt.Errorf("field %s twice in %q", key, l)
		}
		out.Fields[key] = val
		rest = rest[i+1+n:]
	}
	msg := out.Fields["msg"]
	out.Level = out.Fields["level"]
	delete(out.Fields, "msg")
	delete(out.Fields, "level")
	delete(out.Fields, "time")
	if !strings.HasPrefix(msg, open) || !strings.HasSuffix(msg, end) {
		return out, true, fmt.Errorf("damaged message %q", msg)
	}
	out.Text = msg[len(open) : len(msg)-len(end)]
	return out, true, nil
}

// logToken reads a value: quoted, or up to the next blank.
func logToken(s string) (string, int, error) {
	if strings.HasPrefix(s, `"`) {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return "", 0, err
		}
		v, err := strconv.Unquote(q)
		return v, len(q), err
	}
	n := strings.IndexByte(s, ' ')
	if n < 0 {
		n = len(s)
	}
	return s[:n], n, nil
}

// readOutput collects the records of an output; wrong lines are reported.
func readOutput(c *mon.Ctx, what, text string) (lines []logLine) {
	for _, l := range strings.Split(text, "\n") {
		x, ok, err := parseLine(l)
		if err != nil {
			c.Violate("log-line", "%s: %v", what, err)
		} else if ok {
			lines = append(lines, x)
		} else if strings.Contains(l, "⟧") {
			c.Violate("log-line", "%s: piece of a record: %q", what, l)
		}
	}
	return
}

// runLogProc runs a worker to its end and returns its standard output.
func runLogProc(c *mon.Ctx, name string, args ...string) (string, bool) {
	if atomic.LoadInt32(&logBlocked) != 0 {
		return "", false
	}
	cmd := c.Proc(name, args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		c.Inconclusive("cannot start the worker: %v", err)
		return "", false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var cpu []int64 // the processor time it had used, every 4 s
	for {
		select {
		case err := <-done:
			if err != nil && atomic.LoadInt32(&logBlocked) == 0 {
				c.Violate("log-crash:"+mon.PanicSite(errb.String()), "a program that logs ended with %v (%s %v): %s", err, name, args, trim1(errb.String()))
			}
			return out.String(), err == nil
		case <-time.After(4 * time.Second):
		}
		if cpu = append(cpu, procTicks(cmd.Process.Pid)); len(cpu) < 6 || cpu[len(cpu)-1]-cpu[len(cpu)-6] > 5 {
			continue
		}
		atomic.StoreInt32(&logBlocked, 1)
		_ = cmd.Process.Signal(syscall.SIGQUIT)
		<-done
		c.Violate("log-blocked", "logging goroutines made no progress for 20 s (%s %v): %s", name, args, trim1(errb.String()))
		return "", false
	}
}

var logBlocked int32 // one blocked process is enough

// procTicks is the processor time of a process in clock ticks.
func procTicks(pid int) int64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	return u + s
}

func globText(pattern string) string {
	fs, _ := filepath.Glob(pattern)
	sort.Strings(fs)
	var s string
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		s += string(b)
	}
	return s
}

func mergeFields(a, b map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range a {
		out[k] = v
	}
	for k, v := range b {
		out[k] = v
	}
	return out
}

func runL01(c *mon.Ctx) {
	c.Section("records", func(r0 *rand.Rand) {
		c.Cases("process", c.N2(60, 1500), func(i int, r *rand.Rand) {
			dir, err := os.MkdirTemp(c.Scratch, "log")
			if err != nil {
				c.Inconclusive("%v", err)
				return
			}
			defer os.RemoveAll(dir)
			tf := filepath.Join(dir, "trace.json")
			stdout, ok := runLogProc(c, "logworker", dir, fmt.Sprint(r.Int63()), fmt.Sprint(1+r.Intn(6)), fmt.Sprint(20+r.Intn(40)), tf)
			if !ok {
				return
			}
			var tr logTrace
			b, err := os.ReadFile(tf)
			if err != nil || json.Unmarshal(b, &tr) != nil {
				c.Inconclusive("no trace from the worker: %v", err)
				return
			}
			judgeLog(c, dir, stdout, tr)
		})
	})
	c.Section("check-log", func(r0 *rand.Rand) {
		c.Cases("process", c.N2(40, 800), func(i int, r *rand.Rand) {
			dir, err := os.MkdirTemp(c.Scratch, "cclog")
			if err != nil {
				c.Inconclusive("%v", err)
				return
			}
			defer os.RemoveAll(dir)
			tf := filepath.Join(dir, "trace.json")
			stdout, ok := runLogProc(c, "cclogworker", dir, fmt.Sprint(r.Int63()), fmt.Sprint(i%9), tf)
			if !ok {
				return
			}
			var tr logTrace
			b, err := os.ReadFile(tf)
			if err != nil || json.Unmarshal(b, &tr) != nil {
				c.Inconclusive("no trace from the worker: %v", err)
				return
			}
			fl, _ := filepath.Glob(filepath.Join(dir, "cc.check.*"))
			if len(fl) != 1 {
				c.Violate("check-file", "the check log is in %v", fl)
				return
			}
			fileLines := readOutput(c, "check file", globText(filepath.Join(dir, "cc.check.*")))
			outLines := readOutput(c, "stdout", stdout)
			c.Case(true, fmt.Sprint(len(tr.Recs), i%9, len(fileLines)))
			found := map[string][]logLine{}
			inFile := map[string]int{}
			for _, l := range fileLines {
				inFile[l.ID]++
				found[l.ID] = append(found[l.ID], l)
			}
			for _, l := range outLines {
				found[l.ID] = append(found[l.ID], l)
			}
			for _, rec := range tr.Recs {
				c.Count("cc_records", 1)
				if rec.How == "inner" {
					c.Count("cc_nested", 1)
				}
				ls := found[rec.ID]
				if len(ls) != 1 {
					c.Violate("check-times", "check record %s (%s, %s) is in the outputs %d times", rec.ID, rec.How, rec.Level, len(ls))
					continue
				}
				if rec.Lo > 0 && inFile[rec.ID] != 1 {
					c.Violate("check-file", "check record %s logged after InitCheckLog is not in its file", rec.ID)
				}
				if ls[0].Level != rec.Level || ls[0].Text != rec.Text || !reflect.DeepEqual(ls[0].Fields, mergeFields(rec.Fields, nil)) {
					c.Violate("check-content", "check record %s is written as %+v, want %+v", rec.ID, ls[0], rec)
				}
			}
			if len(found) != len(tr.Recs) {
				c.Violate("check-extra", "%d records in the outputs, %d logged", len(found), len(tr.Recs))
			}
		})
	})
	c.Section("hook", func(r0 *rand.Rand) {
		c.Cases("hook", c.N2(150, 4000), func(i int, r *rand.Rand) { logHook(c, r) })
	})
}

func judgeLog(c *mon.Ctx, dir, stdout string, tr logTrace) {
	type outputs struct {
		file, console []logLine
	}
	outs := map[string]*outputs{} // by path
	for _, cf := range tr.Confs {
		if outs[cf.Path] == nil {
			outs[cf.Path] = &outputs{}
			if cf.Path != "" {
				outs[cf.Path].file = readOutput(c, filepath.Base(cf.Path), globText(cf.Path+".*"))
			}
		}
	}
	where := map[string]map[string][]logLine{} // record -> place -> lines
	add := func(place string, ls []logLine) {
		for _, l := range ls {
			if where[l.ID] == nil {
				where[l.ID] = map[string][]logLine{}
			}
			where[l.ID][place] = append(where[l.ID][place], l)
		}
	}
	var plain, console []logLine
	for _, l := range readOutput(c, "stdout", stdout) {
		if l.Coloured {
			console = append(console, l)
		} else {
			plain = append(plain, l)
		}
	}
	add("", plain)
	add("console", console)
	for p, o := range outs {
		if p != "" {
			add(p, o.file)
		}
	}
	changed := false
	for _, rec := range tr.Recs {
		c.Count("records", 1)
		c.Count("field_pairs", int64(len(rec.Fields)))
		if rec.Hi > rec.Lo {
			changed = true
			c.Count("configured_meanwhile", 1)
		}
		switch rec.How {
		case "shared", "own", "fresh":
			c.Count("derived", 1)
		case "nested":
			c.Count("nested", 1)
		}
		w := where[rec.ID]
		delete(where, rec.ID)
		okAny := false
		var wants []string
		for j := rec.Lo; j <= rec.Hi && j < len(tr.Confs) && !okAny; j++ {
			cf := tr.Confs[j]
			fields := mergeFields(cf.Fields, rec.Fields)
			wants = append(wants, fmt.Sprintf("%q with %v", filepath.Base(cf.Path), fields))
			ok := true
			n := 0
			for place, ls := range w {
				want := 0
				if place == cf.Path || place == "console" && cf.Path != "" && rec.Level != "debug" {
					want = 1
				}
				if len(ls) != want {
					ok = false
				}
				for _, l := range ls {
					n++
					if l.Level != rec.Level || l.Text != rec.Text || !reflect.DeepEqual(l.Fields, fields) {
						ok = false
					}
				}
			}
			total := 1
			if cf.Path != "" && rec.Level != "debug" {
				total = 2
			}
			okAny = ok && n == total
			if okAny {
				if cf.Path == "" {
					c.Count("matched_stdout", 1)
				} else {
					c.Count("matched_file", 1)
					if total == 2 {
						c.Count("matched_console", 1)
					}
				}
			}
		}
		if !okAny {
			c.Violate("record", "record %s (%s, %s, text %q) logged with the configuration %s is in the outputs as %v", rec.ID, rec.How, rec.Level, rec.Text, strings.Join(wants, " or "), trim1(fmt.Sprintf("%+v", w)))
		}
	}
	for id := range where {
		c.Violate("extra", "record %s is in the outputs but was not logged", id)
	}
	// each goroutine's records keep their order in each file
	pos := map[string]logRec{}
	for _, rec := range tr.Recs {
		pos[rec.ID] = rec
	}
	for p, o := range outs {
		last := map[int]int{}
		ls := o.file
		if p == "" {
			ls = plain
		}
		for _, l := range ls {
			rec := pos[l.ID]
			if rec.Order < 0 {
				continue
			}
			if k, seen := last[rec.Lane]; seen && k > rec.Order {
				c.Violate("order", "goroutine %d: record %s is behind a later one", rec.Lane, l.ID)
			}
			last[rec.Lane] = rec.Order
		}
	}
	c.Case(changed, fmt.Sprint(len(tr.Recs), len(tr.Confs), tr.Confs[len(tr.Confs)-1].Fields))
}

// ccLogWorker: args are directory, seed, length of the node id, trace file.
func ccLogWorker(args []string) {
	dir, outFile := args[0], args[3]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	nidLen, _ := strconv.Atoi(args[2])
	r0 := rand.New(rand.NewSource(seed))
	var mu sync.Mutex
	var all []logRec
	var inited int64
	some := func(s int64, lane, n int) {
		r := rand.New(rand.NewSource(s))
		var recs []logRec
		for i := 0; i < n; i++ {
			id, text := fmt.Sprintf("%d.%d", lane, i), logText(r)
			msg := logMsg(id, text)
			level := r.Intn(4)
			rec := logRec{ID: id, Text: text, Level: []string{"debug", "info", "warning", "error"}[level], Fields: map[string]string{}}
			rec.Lo = int(atomic.LoadInt64(&inited))
			switch r.Intn(4) {
			case 3:
				// the argument logs when it is printed; while the check log is not there yet it may open it, too
				rec.How = "nested"
				rec.Text = "nested"
				x := logRec{ID: id + "00", Level: "info", Text: "inside", Fields: map[string]string{}, How: "inner"}
				arg := nestedArg{func() {
					if lane%4 == 3 {
						golog.InitCheckLog(filepath.Join(dir, "cc"), make([]byte, nidLen))
						atomic.StoreInt64(&inited, 1)
					}
					for spin := r.Intn(3000); spin > 0; spin-- {
						_ = spin
					}
					x.Lo = int(atomic.LoadInt64(&inited))
					golog.CCInfo(logMsg(x.ID, x.Text))
				}}
				[]func(string, ...interface{}){golog.CCDebugf, golog.CCInfof, golog.CCWarnf, golog.CCErrorf}[level](logMark, id, arg, id)
				recs = append(recs, x)
			case 0:
				rec.How = "plain"
				[]func(...interface{}){golog.CCDebug, golog.CCInfo, golog.CCWarn, golog.CCError}[level](msg)
			case 1:
				rec.How = "formatted"
				[]func(string, ...interface{}){golog.CCDebugf, golog.CCInfof, golog.CCWarnf, golog.CCErrorf}[level](logMark, id, text, id)
			default:
				rec.How = "fields"
				fs := logrus.Fields{}
				for k := r.Intn(4); k > 0; k-- {
					f := fmt.Sprint("k", r.Intn(5))
					v, s := logValue(r)
					fs[f], rec.Fields[f] = v, s
				}
				l := golog.CCWithFields(fs)
				[]func(...interface{}){l.Debug, l.Info, l.Warn, l.Error}[level](msg)
			}
			recs = append(recs, rec)
		}
		mu.Lock()
		all = append(all, recs...)
		mu.Unlock()
	}
	some(r0.Int63(), 1, 10)
	var wg sync.WaitGroup
	for g := 0; g < 5; g++ {
		wg.Add(1)
		s, lane := r0.Int63(), 10+g
		nid := make([]byte, nidLen)
		go func() {
			defer wg.Done()
			if lane%2 == 0 {
				some(s+1, lane+100, int(s%12))
				golog.InitCheckLog(filepath.Join(dir, "cc"), nid)
				atomic.StoreInt64(&inited, 1)
			}
			some(s, lane, 30)
		}()
	}
	wg.Wait()
	some(r0.Int63(), 2, 10)
	b, err := json.Marshal(logTrace{Recs: all})
	if err == nil {
		err = os.WriteFile(outFile, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
}

// soloWriter notices overlapping writes; it has no lock of its own.
type soloWriter struct {
	c    *mon.Ctx
	busy int32
	buf  []byte
}

func (w *soloWriter) Write(p []byte) (int, error) {
	if !atomic.CompareAndSwapInt32(&w.busy, 0, 1) {
		w.c.Violate("hook-overlap", "the hook writes two records at the same time")
		return len(p), nil
	}
	w.buf = append(w.buf, p...)
	atomic.StoreInt32(&w.busy, 0)
	return len(p), nil
}

func logHook(c *mon.Ctx, r *rand.Rand) {
	levels := []logrus.Level{logrus.DebugLevel, logrus.InfoLevel, logrus.WarnLevel, logrus.ErrorLevel}
	var con []logrus.Level
	onCon := map[logrus.Level]bool{}
	for _, l := range levels {
		if r.Intn(2) == 0 {
			con = append(con, l)
			onCon[l] = true
		}
	}
	fw, cw := &soloWriter{c: c}, &soloWriter{c: c}
	var file, console io.Writer
	if r.Intn(4) > 0 {
		file = fw
	}
	if r.Intn(4) > 0 {
		console = cw
	}
	var form logrus.Formatter
	if r.Intn(2) == 0 {
		form = &logrus.TextFormatter{ForceColors: true, FullTimestamp: true}
	}
	c.Guard("hook", func() {
		h := golog.NewFileAndConsoleHook(form, file, console, con...)
		if !reflect.DeepEqual(h.Levels(), logrus.AllLevels) {
			c.Violate("hook-levels", "the hook is for %v", h.Levels())
		}
		lg := &logrus.Logger{Out: io.Discard, Formatter: &logrus.TextFormatter{DisableColors: true}, Hooks: make(logrus.LevelHooks), Level: logrus.DebugLevel}
		lg.AddHook(h)
		type sent struct {
			level logrus.Level
			text  string
		}
		var mu sync.Mutex
		all := map[string]sent{}
		mon.Parallel(4, func(g int) {
			rr := rand.New(rand.NewSource(int64(g) + 17))
			for i := 0; i < 15; i++ {
				id := fmt.Sprintf("%d.%d", g, i)
				s := sent{levels[rr.Intn(4)], logText(rr)}
				lg.WithField("k", "v").Log(s.level, logMsg(id, s.text))
				mu.Lock()
				all[id] = s
				mu.Unlock()
			}
		})
		c.Case(true, fmt.Sprint(con, file != nil, console != nil, form != nil))
		judge := func(what string, w *soloWriter, want func(sent) bool) {
			n := map[string]int{}
			for _, l := range readOutput(c, what, string(w.buf)) {
				n[l.ID]++
				s, ok := all[l.ID]
				if !ok || s.level.String() != l.Level || s.text != l.Text || l.Fields["k"] != "v" || len(l.Fields) != 1 {
					c.Violate("hook-content", "%s: %+v, logged %+v", what, l, s)
				}
			}
			for id, s := range all {
				c.Count("hook_records", 1)
				k := 0
				if want(s) {
					k = 1
				}
				if n[id] != k {
					c.Violate("hook-times", "%s has record %s (%v) %d times, want %d (console levels %v)", what, id, s.level, n[id], k, con)
				}
			}
		}
		judge("file", fw, func(s sent) bool { return file != nil })
		judge("console", cw, func(s sent) bool { return console != nil && onCon[s.level] })
	})
}

package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Driven by /verif/run.py through the environment:
//   VERIF_PROP    property id
//   VERIF_OUT     file for the JSON report of this process
//   VERIF_N       number of cases (per mode share)
//   VERIF_RSEED   rapid seed, not 0
//   VERIF_MODES   run only these modes (comma-separated)
//   VERIF_REPLAY  replay file: run only that case
//   VERIF_JOURNAL file that always holds the case being run (used after a crash)

// Report is what one process tells the driver.
type Report struct {
	Status   string         `json:"status"` // done, violation, stuck
	Cases    int            `json:"cases"`
	Steps    int            `json:"steps"`
	Judged   int            `json:"judged"`
	Labels   map[string]int `json:"labels"`
	Modes    map[string]int `json:"modes"`
	Hashes   []string       `json:"hashes"` // distinct non-trivial cases
	Samples  []any          `json:"samples"`
	Msg      string         `json:"msg,omitempty"`
	Case     *Case          `json:"case,omitempty"`
	Original int            `json:"original_ops,omitempty"`
	Notes    []string       `json:"notes,omitempty"`
	Wall     float64        `json:"wall"`
	Rule     string         `json:"rule"`
}

var report = Report{Labels: map[string]int{}, Modes: map[string]int{}}
var distinct = map[uint64]bool{}
var started = time.Now()

func writeReport(status string) {
	report.Status = status
	if p := properties[os.Getenv("VERIF_PROP")]; p != nil {
		report.Rule = p.rule
	}
	report.Wall = time.Since(started).Seconds()
	for h := range distinct {
		report.Hashes = append(report.Hashes, strconv.FormatUint(h, 36))
	}
	sort.Strings(report.Hashes)
	b, err := json.Marshal(&report)
	if err != nil {
		panic(err)
	}
	if out := os.Getenv("VERIF_OUT"); out != "" {
		tmp := out + ".tmp"
		if err := os.WriteFile(tmp, b, 0o644); err != nil {
			panic(err)
		}
		if err := os.Rename(tmp, out); err != nil {
			panic(err)
		}
	} else {
		report.Hashes = nil
		b, _ = json.MarshalIndent(&report, "", " ")
		fmt.Println(string(b))
	}
}

func brief(c *Case) any {
	m := map[string]any{"kinds": c.Kinds, "mode": c.Mode}
	var ops []string
	for i := range c.Ops {
		if i == 12 {
			ops = append(ops, fmt.Sprintf("... %d more", len(c.Ops)-i))
			break
		}
		s := c.Ops[i].String()
		if len(c.Which) > 0 {
			s = fmt.Sprintf("[%d] %s", c.Which[i], s)
		}
		ops = append(ops, s)
	}
	if ops != nil {
		m["calls"] = ops
	}
	var in []string
	for _, b := range c.Init {
		var s []string
		for _, x := range b {
			s = append(s, fmt.Sprintf("%d+%d", len(x.D), len(x.Spare)))
		}
		in = append(in, strings.Join(s, ","))
	}
	if in != nil {
		m["initial slice sizes (+spare)"] = in
	}
	if len(c.P) > 0 {
		m["parameters"] = c.P
	}
	if len(c.Text) > 0 {
		t := c.Text
		if len(t) > 8 {
			t = t[:8]
		}
		u := make([]string, len(t))
		for i, x := range t {
			if len(x) > 300 {
				x = fmt.Sprintf("%s... (%d bytes)", x[:300], len(x))
			}
			u[i] = x
		}
		m["text"] = u
	}
	return m
}

func record(c *Case, r *Run) {
	report.Cases++
	report.Steps += r.steps
	report.Judged += r.judged
	report.Modes[c.Mode]++
	for k, v := range r.labels {
		report.Labels[k] += v
	}
	for _, k := range c.Kinds {
		report.Labels["type "+k]++
	}
	if !r.trivial {
		distinct[hashCase(c)] = true
		if n := report.Cases; len(report.Samples) < 3 && n >= 20 || len(report.Samples) < 5 && n >= 500 {
			report.Samples = append(report.Samples, brief(c))
		}
	}
}

// minimize drops and simplifies calls while the case keeps failing.
func minimize(p *property, c *Case, f *Failure) (*Case, *Failure) {
	deadline := time.Now().Add(20 * time.Second)
	try := func(d *Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		nf, _ := p.execute(d)
		if nf != nil {
			c, f = d, nf
			return true
		}
		return false
	}
	without := func(d *Case, i, n int) *Case {
		e := *d
		e.Ops = append(append([]Op(nil), d.Ops[:i]...), d.Ops[i+n:]...)
		if len(d.Which) > 0 {
			e.Which = append(append([]int(nil), d.Which[:i]...), d.Which[i+n:]...)
		}
		return &e
	}
	for n := (len(c.Text) + 1) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(c.Text); {
			if !try(dropText(c, i, n)) {
				i += n
			}
		}
	}
	for again := true; again && len(c.Ops) > 0; {
		again = false
		for n := len(c.Ops); n >= 1; n /= 2 {
			for i := 0; i+n <= len(c.Ops); {
				if try(without(c, i, n)) {
					again = true
				} else {
					i += n
				}
			}
		}
		for i := range c.Ops {
			for _, f := range []func(o *Op) bool{
				func(o *Op) bool { d := len(o.D); o.D = o.D[:(d+1)/2]; return d > 1 },
				func(o *Op) bool { v := o.V; o.V = 1; return v > 2 },
				func(o *Op) bool { v := o.Pre; o.Pre = 0; return v != 0 },
				func(o *Op) bool { v := o.Ord; o.Ord = 0; return v != 0 },
				func(o *Op) bool { v := o.Pad; o.Pad = 0; return v != 0 },
				func(o *Op) bool { v := o.Arg; o.Arg = 0; return v != 0 },
				func(o *Op) bool { v := o.Look; o.Look = 0; return v != 0 },
				func(o *Op) bool { v := o.Look; o.Look = 1; return v > 1 },
				func(o *Op) bool { v := o.N; o.N /= 2; return v > 1 },
				func(o *Op) bool { v := o.Off; o.Off /= 2; return v > 1 },
			} {
				e := *c
				e.Ops = append([]Op(nil), c.Ops...)
				if f(&e.Ops[i]) && try(&e) {
					again = true
				}
			}
		}
	}
	for c.P["repeat"] > 1 {
		e := *c
		e.P = map[string]int64{}
		for k, v := range c.P {
			e.P[k] = v
		}
		if e.P["repeat"] /= 2; !try(&e) {
			break
		}
	}
	// shorter initial slices
	for b := range c.Init {
		for i := range c.Init[b] {
			for c.Init[b][i].Ov == 0 && len(c.Init[b][i].D) > 0 {
				e := *c
				e.Init = append([][]SliceSpec(nil), c.Init...)
				e.Init[b] = append([]SliceSpec(nil), c.Init[b]...)
				e.Init[b][i].D = e.Init[b][i].D[:len(e.Init[b][i].D)/2]
				if !try(&e) {
					break
				}
			}
		}
	}
	return c, f
}

func load(path string) *Case {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var w struct {
		Case *Case `json:"case"`
	}
	if err := json.Unmarshal(b, &w); err != nil {
		panic(err)
	}
	if w.Case == nil {
		panic("no case in " + path)
	}
	return w.Case
}

func cpuSeconds() float64 {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		return 0
	}
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// watchdog ends the process when a call does not come back: parked on the
// buffer's lock with nobody left to release it, or burning CPU time.
func watchdog(current func() *Case) {
	last, since, cpu0 := uint64(0), time.Now(), cpuSeconds()
	for {
		time.Sleep(500 * time.Millisecond)
		if s := progress(); s != last {
			last, since, cpu0 = s, time.Now(), cpuSeconds()
			continue
		}
		if curSteps.Load()%2 == 0 { // between calls
			continue
		}
		why := ""
		if time.Since(since) > 8*time.Second && stuckOnLock() {
			why = "a call never returns: it waits for the buffer's lock, which nobody else can release"
		} else if time.Since(since) > 30*time.Second && cpuSeconds()-cpu0 > 25 {
			why = "a call never returns: it has used more than 25 s of CPU time"
		}
		if why == "" {
			continue
		}
		c := current()
		if curOwned.Load() {
			report.Msg, report.Case = why, c
			writeReport("violation")
		} else {
			report.Notes = append(report.Notes, "stopped early: "+why+" (a call this property does not speak about)")
			writeReport("done")
		}
		os.Exit(0)
	}
}

// stuckOnLock looks for a goroutine of the harness blocked in Mutex.Lock while
// no goroutine of the harness is running.
func stuckOnLock() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	locked, others := 0, 0
	for _, gr := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(gr, "harness.") || strings.Contains(gr, "harness.watchdog") {
			continue
		}
		head := gr[:strings.IndexByte(gr+"\n", '\n')]
		switch {
		case strings.Contains(head, "sync.Mutex.Lock"):
			if strings.Contains(gr, "crunch") {
				locked++
			}
		case strings.Contains(head, "running") || strings.Contains(head, "runnable") || strings.Contains(head, "syscall"):
			others++
		}
	}
	return locked > 0 && others == 0
}

func TestMain(m *testing.M) {
	flag.Parse()
	os.Exit(m.Run())
}

func TestVerif(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	p := properties[id]
	if p == nil {
		t.Fatalf("unknown property %q", id)
	}
	var current *Case
	journal := os.Getenv("VERIF_JOURNAL")
	go watchdog(func() *Case { return current })
	execute := func(c *Case) (*Failure, *Run) {
		current = c
		if journal != "" {
			if err := os.WriteFile(journal, c.json(), 0o644); err != nil {
				panic(err)
			}
			f, err := os.Create(journal + ".owned")
			if err != nil {
				panic(err)
			}
			defer f.Close()
			onEnter = func(owned bool) {
				b := []byte("0")
				if owned {
					b[0] = '1'
				}
				f.WriteAt(b, 0)
			}
		}
		return p.execute(c)
	}
	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		c := load(path)
		n := 1
		if raceBuild {
			n = 300
		}
		for i := 0; i < n; i++ {
			f, r := execute(c)
			record(c, r)
			if f != nil {
				report.Msg, report.Case = f.Msg, c
				writeReport("violation")
				return
			}
		}
		writeReport("done")
		return
	}
	total, err := strconv.Atoi(os.Getenv("VERIF_N"))
	if err != nil {
		t.Fatal(err)
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_RSEED"), 10, 64)
	if err != nil || seed == 0 {
		t.Fatalf("bad seed %q", os.Getenv("VERIF_RSEED"))
	}
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	sum := 0
	only := os.Getenv("VERIF_MODES")
	runs := func(m *mode) bool {
		if only != "" {
			return strings.Contains(","+only+",", ","+m.name+",")
		}
		if m.name == "far" && bits.UintSize == 32 {
			return false
		}
		return m.race == raceBuild && !m.solo
	}
	for _, m := range p.modes {
		if runs(m) {
			sum += m.weight
		}
	}
	for i, m := range p.modes {
		if !runs(m) {
			continue
		}
		n := total * m.weight / sum
		if n == 0 {
			n = 1
		}
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(mix(seed+uint64(i))|1, 10))
		var lastF *Failure
		var lastC *Case
		tb := &quietTB{T: t}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopTB); !ok {
						panic(e)
					}
				}
			}()
			rapid.Check(tb, func(rt *rapid.T) {
				c := m.gen(g{rt})
				f, r := execute(c)
				if lastF == nil && f == nil {
					record(c, r)
				}
				if f != nil {
					if lastF == nil {
						report.Original = len(c.Ops)
					}
					lastF, lastC = f, c
					rt.Fatalf("violation")
				}
			})
		}()
		if lastF != nil {
			c, f := minimize(p, lastC, lastF)
			report.Msg, report.Case = f.Msg, c
			writeReport("violation")
			return
		}
		if tb.failed {
			t.Fatalf("rapid failed without a violation: %s", tb.log.String())
		}
	}
	if path := filepath.Join("testdata", "rapid"); exists(path) {
		t.Fatalf("%s appeared", path)
	}
	writeReport("done")
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

// quietTB keeps rapid's verdict out of the test result: the report carries it.
type quietTB struct {
	*testing.T
	failed bool
	log    strings.Builder
}

type stopTB struct{}

func (q *quietTB) Errorf(f string, a ...any) { q.failed = true; fmt.Fprintf(&q.log, f+"\n", a...) }
func (q *quietTB) Fatalf(f string, a ...any) {
	q.failed = true
	fmt.Fprintf(&q.log, f+"\n", a...)
	panic(stopTB{})
}
func (q *quietTB) Error(a ...any) { q.failed = true; fmt.Fprintln(&q.log, a...) }
func (q *quietTB) Fatal(a ...any) {
	q.failed = true
	fmt.Fprintln(&q.log, a...)
	panic(stopTB{})
}
func (q *quietTB) Fail()                   { q.failed = true }
func (q *quietTB) FailNow()                { q.failed = true; panic(stopTB{}) }
func (q *quietTB) Failed() bool            { return q.failed }
func (q *quietTB) Logf(f string, a ...any) { fmt.Fprintf(&q.log, f+"\n", a...) }
func (q *quietTB) Log(a ...any)            { fmt.Fprintln(&q.log, a...) }
func (q *quietTB) Helper()                 {}

// vmon runs the real gotext-tools code under generated workloads while
// monitors watch what it does. See ../DESIGN.md.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID       string
	Rule     string
	Assume   []string
	Level    string
	Quick    int // number of cases
	Thorough int
	Run      func(t *T)
	Need     map[string]int // least number of events, otherwise the run is inconclusive
	CPU      time.Duration  // CPU time limit of one case
	MemMB    int            // heap limit of the worker
	NoRlimit bool
	Workers  int
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.CPU == 0 {
		c.CPU = 60 * time.Second
	}
	if c.MemMB == 0 {
		c.MemMB = 1500
	}
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// T is the environment of one case.
type T struct {
	*G
	C      *Check
	Case   int
	Tier   string
	Dir    string // scratch directory of the worker
	events map[string]int
	sigs   map[uint64]struct{}
	smp    []string
	note   string
}

type failSignal struct{ key, msg string }

// Fail reports a violation and ends the case.
func (t *T) Fail(key, format string, a ...any) {
	panic(failSignal{key, fmt.Sprintf(format, a...)})
}

// Ev counts an event that the monitors observed.
func (t *T) Ev(name string)         { t.events[name]++ }
func (t *T) EvN(name string, n int) { t.events[name] += n }

// Sig marks the case as non-trivial, with a signature of its content.
func (t *T) Sig(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "%#v", v)
		}
		h.Write([]byte{0})
	}
	t.sigs[h.Sum64()] = struct{}{}
}

// Sample keeps a few cases written out.
func (t *T) Sample(f func() string) {
	if len(t.smp) < 2 {
		t.smp = append(t.smp, clip(fmt.Sprintf("case %d: %s", t.Case, f()), 700))
	}
}

// Note is shown with a crash of the case.
func (t *T) Note(format string, a ...any) { t.note = fmt.Sprintf(format, a...) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

type Violation struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Case     int    `json:"case"`
	Key      string `json:"key"`
	Message  string `json:"message"`
}

type workerResult struct {
	Cases      int            `json:"cases"`
	Events     map[string]int `json:"events"`
	Samples    []string       `json:"samples"`
	Violations []Violation    `json:"violations"`
	Slowest    time.Duration  `json:"slowest"` // CPU time of a case
}

func caseSeed(seed int64, id string, n int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, n)
	return int64(h.Sum64())
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// runCase runs a case and returns its violation, if any.
func runCase(t *T, seed int64) (v *Violation) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		v = &Violation{Property: t.C.ID, Seed: seed, Tier: t.Tier, Case: t.Case}
		if f, ok := r.(failSignal); ok {
			v.Key, v.Message = f.key, f.msg
			return
		}
		st := string(debug.Stack())
		v.Key = "panic"
		v.Message = fmt.Sprintf("panic: %v\n%s\n%s", r, t.note, clip(st, 6000))
		if !strings.Contains(st, "gotext-tools") {
			v.Key = "harness-panic" // Still a failure, but of the machinery.
			if _, ok := r.(runtime.Error); ok {
				// The monitor used a result that the code under test promised
				// (a file, an element), and it isn't there.
				v.Key = "unusable-result"
			}
		}
	}()
	t.G = newG(caseSeed(seed, t.C.ID, t.Case))
	t.setScale(caseSeed(seed, t.C.ID, t.Case))
	if t.scale != "" {
		t.Ev("scale")
	}
	t.note = ""
	t.C.Run(t)
	return nil
}

func worker(c *Check, tier string, seed int64, shard, of, total int, out, dir string) {
	if !c.NoRlimit {
		lim := uint64(c.MemMB+2500) << 20
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	curF, err := os.Create(out + ".cur")
	must(err)
	t := &T{C: c, Tier: tier, Dir: dir, events: map[string]int{}, sigs: map[uint64]struct{}{}}
	res := workerResult{Events: t.events}

	var cur, started atomic.Int64 // current case + 1, CPU time at its start
	go func() {
		last := time.Now()
		// A blocked case (on a FIFO, a lock) uses no CPU time. Ticks are
		// counted, since a clock goes on while the machine is suspended.
		var idleCase int64
		var idleTicks int
		var idleCPU time.Duration
		maxIdle := 4 * 60
		if os.Getenv("VMON_BIN") != "" {
			maxIdle = 4 * 200 // processes have their own limit
		}
		for {
			time.Sleep(250 * time.Millisecond)
			n := cur.Load()
			if n == 0 {
				continue
			}
			now := cpuTime()
			if n != idleCase || now-idleCPU > 200*time.Millisecond {
				idleCase, idleTicks, idleCPU = n, 0, now
			} else if idleTicks++; idleTicks > maxIdle && cur.Load() == n {
				fmt.Fprintf(os.Stderr, "VMON-HANG case %d: blocked\n%s\n", n-1, allStacks())
				os.Exit(3)
			}
			used := now - time.Duration(started.Load())
			var ms runtime.MemStats
			if time.Since(last) > time.Second {
				last = time.Now()
				runtime.ReadMemStats(&ms)
			}
			if cur.Load() != n {
				continue
			}
			if used > c.CPU {
				fmt.Fprintf(os.Stderr, "VMON-HANG case %d: more than %v of CPU time\n%s\n", n-1, c.CPU, allStacks())
				os.Exit(3)
			}
			if ms.HeapAlloc > uint64(c.MemMB)<<20 {
				fmt.Fprintf(os.Stderr, "VMON-MEMORY case %d: heap of %d MB\n%s\n", n-1, ms.HeapAlloc>>20, allStacks())
				os.Exit(4)
			}
		}
	}()

	for n := shard; n < total; n += of {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(n))
		curF.WriteAt(b[:], 0)
		started.Store(int64(cpuTime()))
		cur.Store(int64(n) + 1)
		t.Case = n
		v := runCase(t, seed)
		cur.Store(0)
		if d := cpuTime() - time.Duration(started.Load()); d > res.Slowest {
			res.Slowest = d
		}
		res.Cases++
		if v != nil {
			res.Violations = append(res.Violations, *v)
			if len(res.Violations) >= 5 {
				break
			}
		}
	}
	res.Samples = t.smp
	sb := make([]byte, 0, 8*len(t.sigs))
	for s := range t.sigs {
		sb = binary.LittleEndian.AppendUint64(sb, s)
	}
	must(os.WriteFile(out+".sigs", sb, 0o644))
	j, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(out, j, 0o644))
}

func allStacks() string {
	b := make([]byte, 16<<10)
	return string(b[:runtime.Stack(b, true)])
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vmon:", err)
		os.Exit(2)
	}
}

func supervise(c *Check, tier string, seed int64, root, scratch string) int {
	start := time.Now()
	total := c.Quick
	if tier == "thorough" {
		total = c.Thorough
	}
	if s := os.Getenv("VMON_CASES"); s != "" { // for development
		total, _ = strconv.Atoi(s)
	}
	W := runtime.NumCPU()
	if W > 8 {
		W = 8
	}
	if c.Workers > 0 {
		W = c.Workers
	}
	type proc struct {
		cmd      *exec.Cmd
		out, err string
	}
	self, err := os.Executable()
	must(err)
	var ps []proc
	for i := 0; i < W; i++ {
		out := filepath.Join(scratch, fmt.Sprintf("w%d.json", i))
		dir := filepath.Join(scratch, fmt.Sprintf("d%d", i))
		must(os.MkdirAll(dir, 0o755))
		ef, err := os.Create(out + ".err")
		must(err)
		cmd := exec.Command(self, "worker", "-id", c.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
			"-shard", fmt.Sprint(i), "-of", fmt.Sprint(W), "-total", fmt.Sprint(total), "-out", out, "-dir", dir)
		cmd.Stderr, cmd.Stdout = ef, ef
		cmd.Env = append(os.Environ(), "COLORTERM=truecolor", "GORACE=halt_on_error=1")
		must(cmd.Start())
		ps = append(ps, proc{cmd, out, out + ".err"})
	}
	events := map[string]int{}
	sigs := map[uint64]struct{}{}
	var samples []string
	var vs []Violation
	cases, slowest := 0, time.Duration(0)
	inconclusive := ""
	for i, p := range ps {
		werr := p.cmd.Wait()
		eb, _ := os.ReadFile(p.err)
		if werr != nil {
			cb, _ := os.ReadFile(p.out + ".cur")
			n := -1
			if len(cb) == 8 {
				n = int(binary.LittleEndian.Uint64(cb))
			}
			key := "crash"
			es := string(eb)
			switch {
			case strings.Contains(es, "VMON-HANG"):
				key = "hang"
			case strings.Contains(es, "VMON-MEMORY"), strings.Contains(es, "out of memory"),
				strings.Contains(es, "cannot allocate memory"):
				key = "memory"
			case strings.Contains(es, "DATA RACE"):
				key = "race"
			case strings.Contains(es, "stack overflow"):
				key = "stack-overflow"
			}
			if n < 0 || es == "" && key == "crash" {
				inconclusive = fmt.Sprintf("worker %d died: %v: %s", i, werr, clip(es, 2000))
				continue
			}
			vs = append(vs, Violation{c.ID, seed, tier, n, key, fmt.Sprintf("worker: %v\n%s", werr, clip(es, 8000))})
			continue
		}
		var r workerResult
		b, err := os.ReadFile(p.out)
		must(err)
		must(json.Unmarshal(b, &r))
		cases += r.Cases
		if r.Slowest > slowest {
			slowest = r.Slowest
		}
		for k, n := range r.Events {
			events[k] += n
		}
		if len(samples) < 4 {
			samples = append(samples, r.Samples...)
		}
		vs = append(vs, r.Violations...)
		sb, _ := os.ReadFile(p.out + ".sigs")
		for ; len(sb) >= 8; sb = sb[8:] {
			sigs[binary.LittleEndian.Uint64(sb)] = struct{}{}
		}
	}
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Case < vs[j].Case })

	known := knownFindings(filepath.Join(root, "known-findings.txt"), c.ID)
	exit := 0
	newV := 0
	seenKey := map[string]bool{}
	for _, v := range vs {
		if v.Key == "harness-panic" {
			inconclusive = "the harness panicked: " + v.Message
			continue
		}
		if what, ok := known[v.Key]; ok {
			if !seenKey[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
			}
			seenKey[v.Key] = true
			continue
		}
		newV++
		exit = 1
		if seenKey[v.Key] || len(seenKey) >= 4 {
			continue
		}
		seenKey[v.Key] = true
		os.MkdirAll(filepath.Join(root, "replay"), 0o755)
		path := filepath.Join(root, "replay", fmt.Sprintf("%s-%s-%d.json", c.ID, safeName(v.Key), v.Case))
		j, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, j, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		fmt.Printf("  key=%s case=%d seed=%d\n  %s\n", v.Key, v.Case, v.Seed,
			strings.ReplaceAll(clip(v.Message, 3000), "\n", "\n  "))
	}
	scale := 1.0
	if total < c.Quick {
		scale = float64(total) / float64(c.Quick)
	}
	for ev, n := range c.Need {
		if float64(events[ev]) < float64(n)*scale*0.5 && exit == 0 && inconclusive == "" {
			inconclusive = fmt.Sprintf("too few events %q observed: %d, wanted %d", ev, events[ev], n)
		}
	}
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": map[string]any{
			"evaluations":         cases,
			"distinct_nontrivial": len(sigs),
			"rule":                c.Rule,
			"samples":             samples,
			"events":              events,
			"workers":             W,
			"inconclusive":        inconclusive,
			"slowest_case_cpu_s":  slowest.Seconds(),
		},
		"assumptions": c.Assume,
		"wall_s":      float64(time.Since(start).Milliseconds()) / 1000,
		"violations":  newV,
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	j, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(root, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), append(j, '\n'), 0o644))
	if exit == 0 && inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", c.ID, inconclusive)
		return 2
	}
	if exit == 0 {
		fmt.Printf("HELD property=%s cases=%d distinct=%d wall=%.1fs slowest=%.1fs\n", c.ID, cases, len(sigs), time.Since(start).Seconds(), slowest.Seconds())
	}
	return exit
}

func safeName(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '-'
	}, clip(s, 40))
}

// knownFindings reads the lines "finding: property=<id> key=<key> <what>".
func knownFindings(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return m
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon run|worker|replay ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vmon", flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	total := fs.Int("total", 0, "")
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	root := fs.String("root", "", "")
	scratch := fs.String("scratch", "", "")
	file := fs.String("file", "", "")
	order := fs.Int64("order", 0, "")
	future := fs.Bool("future", false, "")
	fs.Parse(os.Args[2:])
	get := func(id string) *Check {
		c := checks[id]
		if c == nil {
			fmt.Fprintln(os.Stderr, "vmon: unknown property", id)
			os.Exit(2)
		}
		return c
	}
	switch os.Args[1] {
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	case "run":
		os.Exit(supervise(get(*id), *tier, *seed, *root, *scratch))
	case "worker":
		worker(get(*id), *tier, *seed, *shard, *of, *total, *out, *dir)
	case "probe":
		probe(*seed, *dir, *order, *future, *out)
	case "replay":
		b, err := os.ReadFile(*file)
		must(err)
		var v Violation
		must(json.Unmarshal(b, &v))
		must(os.MkdirAll(*scratch, 0o755))
		t := &T{C: get(v.Property), Tier: v.Tier, Case: v.Case, Dir: *scratch,
			events: map[string]int{}, sigs: map[uint64]struct{}{}}
		if nv := runCase(t, v.Seed); nv != nil {
			fmt.Printf("REPRODUCED property=%s key=%s\n%s\n", nv.Property, nv.Key, nv.Message)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	}
}

func newG(seed int64) *G { return &G{Rand: rand.New(rand.NewSource(seed))} }

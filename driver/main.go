// Command driver builds the simulation program from /repo's working tree, searches over seeds in
// parallel processes, minimises and re-verifies a violation, and writes the evidence.
//
//	driver check PROPERTY quick|thorough
//	driver replay FILE [-trace]
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	verif   = env("VERIF_DIR", "/verif")
	repo    = env("VERIF_REPO", "/repo")
	work    string
	started = time.Now()
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func cleanup() {
	if work != "" {
		os.RemoveAll(work)
	}
}

func die(code int, format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check: "+format+"\n", a...)
	cleanup()
	os.Exit(code)
}

func goEnv() []string {
	e := os.Environ()
	return append(e, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=1")
}

func command(dir, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = goEnv()
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, tail(b.String(), 6000))
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func build() {
	var err error
	work, err = os.MkdirTemp(env("TMPDIR", "/tmp"), "vsim-")
	if err != nil {
		die(2, "%v", err)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() { <-sig; cleanup(); os.Exit(2) }()
	gen := filepath.Join(work, "gen")
	if err := command(filepath.Join(verif, "simgo"), "go", "build", "-o", filepath.Join(work, "simgo"), "."); err != nil {
		die(2, "building the rewriter: %v", err)
	}
	if err := command(work, filepath.Join(work, "simgo"), "-repo", repo, "-sim", filepath.Join(verif, "sim"),
		"-harness", filepath.Join(verif, "harness"), "-out", gen); err != nil {
		die(2, "%v", err)
	}
	h := filepath.Join(gen, "harness")
	errs := make([]error, 2)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		errs[0] = command(h, "go", "build", "-gcflags=verif.local/vsim/core=-l", "-o", filepath.Join(work, "plain"), ".")
	}()
	go func() {
		defer wg.Done()
		args := []string{"build", "-race"}
		for _, p := range []string{"verif.local/vsim/core", "verif.local/vsim/ssync", "verif.local/vsim/stime", "verif.local/vsim/srand", "verif.local/vsim/fw", "verif.local/harness"} {
			args = append(args, "-gcflags="+p+"=-race=false -l")
		}
		// The compiler's size-specialised allocation would leave the race detector's memory of
		// freed objects in place for packages built without instrumentation: false races.
		errs[1] = command(h, "env", append([]string{"GOEXPERIMENT=nosizespecializedmalloc", "go"}, append(args, "-o", filepath.Join(work, "race"), ".")...)...)
	}()
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			die(2, "building the simulation: %v", e)
		}
	}
	os.RemoveAll(gen)
}

type proc struct {
	race   bool
	out    string
	cmd    *exec.Cmd
	stderr *bytes.Buffer
	done   bool
	err    error
}

func (p *proc) binary() string { return binary_(p.race) }

func binary_(race bool) string {
	if race {
		return filepath.Join(work, "race")
	}
	return filepath.Join(work, "plain")
}

func mkcmd(race bool, args ...string) (*exec.Cmd, *bytes.Buffer) {
	c := exec.Command(binary_(race), args...)
	c.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(work, "racelog")+" exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
	var b bytes.Buffer
	c.Stderr = &limited{w: &b, n: 1 << 20}
	c.Dir = work
	return c, &b
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.w.Write(q)
	}
	return len(p), nil
}

type failure struct {
	Prop      string          `json:"property"`
	Scenario  string          `json:"scenario"`
	Seed      uint64          `json:"seed"`
	Race      bool            `json:"race_build"`
	Class     string          `json:"class"`
	Msg       string          `json:"message"`
	Step      int             `json:"step"`
	SimTimeNs int64           `json:"sim_time_ns"`
	Hash      string          `json:"trace_hash"`
	Generate  bool            `json:"generate"`
	Cfg       json.RawMessage `json:"config"`
	Plan      json.RawMessage `json:"plan"`
	Decisions []int           `json:"decisions"`
	Schedule  []string        `json:"schedule,omitempty"`
	Minimised bool            `json:"minimised"`
	Note      string          `json:"note,omitempty"`
}

type stats struct {
	Runs        int                    `json:"runs"`
	Steps       int64                  `json:"steps"`
	SimNs       int64                  `json:"sim_ns"`
	RealSec     float64                `json:"real_sec"`
	Switches    int64                  `json:"switches"`
	Goroutines  int64                  `json:"goroutines"`
	Counters    map[string]int         `json:"counters"`
	Scenarios   map[string]int         `json:"scenarios"`
	Strategies  map[string]int         `json:"strategies"`
	Nontrivial  int                    `json:"nontrivial"`
	Rechecked   int                    `json:"rechecked"`
	Mismatch    int                    `json:"mismatch"`
	MaxGs       int                    `json:"max_goroutines"`
	FaultConfig map[string]int         `json:"fault_config"`
	Samples     []json.RawMessage      `json:"samples"`
	X           map[string]interface{} `json:"-"`
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check PROPERTY [quick|thorough] | check replay FILE [-trace]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := env("VERIF_TIER", "quick")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		check(os.Args[2], tier)
	case "replay":
		replayCmd()
	default:
		die(2, "unknown command %s", os.Args[1])
	}
}

func replayCmd() {
	build()
	defer cleanup()
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		die(2, "%v", err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		die(2, "%v", err)
	}
	abs, _ := filepath.Abs(os.Args[2])
	args := []string{"-mode", "replay", "-file", abs}
	if len(os.Args) > 3 {
		args = append(args, "-trace")
	}
	c, eb := mkcmd(f.Race, args...)
	c.Stdout = os.Stdout
	err = c.Run()
	if err != nil {
		fmt.Fprint(os.Stderr, tail(eb.String(), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, os.Args[2])
		cleanup()
		os.Exit(1)
	}
}

func check(prop, tier string) {
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 63)
	if err != nil {
		seed = 1
	}
	search := 18 * time.Second
	minim := 20 * time.Second
	if tier == "thorough" {
		search = 300 * time.Second
		minim = 90 * time.Second
	}
	if v := os.Getenv("VERIF_SEARCH_SECONDS"); v != "" {
		n, _ := strconv.Atoi(v)
		search = time.Duration(n) * time.Second
	}
	build()
	buildSec := time.Since(started).Seconds()

	// the same seeds in two processes must give the same executions
	det := detCheck(prop, seed, tier)

	var procs []*proc
	const plain, race = 5, 3
	start := func(race bool, from, step uint64, k int) {
		p := &proc{race: race, out: filepath.Join(work, fmt.Sprintf("w%d", k))}
		p.cmd, p.stderr = mkcmd(race, "-mode", "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from),
			"-step", fmt.Sprint(step), "-time", search.String(), "-tier", tier, "-out", p.out)
		if err := p.cmd.Start(); err != nil {
			die(2, "%v", err)
		}
		procs = append(procs, p)
	}
	for k := 0; k < plain; k++ {
		start(false, uint64(k), plain, k)
	}
	for k := 0; k < race; k++ {
		start(true, 1<<32+uint64(k), race, plain+k)
	}
	ended := make(chan *proc, len(procs))
	for _, p := range procs {
		go func(p *proc) { p.err = p.cmd.Wait(); ended <- p }(p)
	}
	var viol *failure
	var hard string
	for range procs {
		p := <-ended
		p.done = true
		if viol != nil {
			continue
		}
		if f := readFailure(p.out + ".fail"); f != nil {
			viol = f
		} else if p.err != nil {
			f, why := crash(p, prop, seed, tier)
			if f == nil && hard == "" {
				hard = why
			}
			viol = f
		}
		if viol != nil {
			for _, q := range procs {
				if !q.done {
					q.cmd.Process.Kill()
				}
			}
		}
	}
	replayPath := ""
	if viol != nil {
		replayPath, hard = settle(viol, minim)
		if hard != "" {
			viol = nil
		}
	}
	evidence(prop, tier, seed, procs, viol, replayPath, det, buildSec, search)
	if viol != nil {
		fmt.Printf("violation class=%s scenario=%s seed=%d: %s\n", viol.Class, viol.Scenario, viol.Seed, viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		cleanup()
		os.Exit(1)
	}
	known(prop)
	if hard != "" {
		die(2, "%s", hard)
	}
	for _, p := range procs {
		if s := p.stderr.String(); strings.Contains(s, "DETERMINISM") {
			fmt.Fprint(os.Stderr, tail(s, 2000))
		}
	}
	cleanup()
}

// known prints the recorded findings of this property that are not repaired.
func known(prop string) {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			fmt.Println("KNOWN-FINDING: " + strings.TrimPrefix(l, "finding: "))
		}
	}
}

type detResult struct {
	Runs     int `json:"runs_executed_in_two_processes"`
	Mismatch int `json:"mismatches"`
}

func detCheck(prop string, seed uint64, tier string) detResult {
	var outs [2][]byte
	var wg sync.WaitGroup
	for k := 0; k < 2; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			c, _ := mkcmd(k == 1, "-mode", "hash", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", "7777", "-max", "24", "-tier", tier)
			outs[k], _ = output(c)
		}(k)
	}
	wg.Wait()
	a := strings.Split(strings.TrimSpace(string(outs[0])), "\n")
	b := strings.Split(strings.TrimSpace(string(outs[1])), "\n")
	r := detResult{}
	for i := range a {
		if i >= len(b) {
			break
		}
		fa, fb := strings.Fields(a[i]), strings.Fields(b[i])
		if len(fa) < 6 || len(fb) < 6 {
			continue
		}
		if fa[1] != fb[1] {
			continue // the race build has a different scenario at this index
		}
		r.Runs++
		if strings.Join(fa[:6], " ") != strings.Join(fb[:6], " ") {
			r.Mismatch++
			fmt.Fprintf(os.Stderr, "DETERMINISM across processes:\n %s\n %s\n", a[i], b[i])
		}
	}
	return r
}

func readFailure(path string) *failure {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f failure
	if json.Unmarshal(b, &f) != nil {
		return nil
	}
	return &f
}

// crash looks into a worker process that died: the run it was executing is repeated; if the process
// dies again the code under test kills or hangs the process, which is a violation.
func crash(p *proc, prop string, seed uint64, tier string) (*failure, string) {
	why := fmt.Sprintf("worker died: %v\n%s", p.err, tail(p.stderr.String(), 3000))
	b, err := os.ReadFile(p.out + ".cur")
	if err != nil || len(b) < 8 {
		return nil, why
	}
	idx := binary.LittleEndian.Uint64(b) - 1
	out := p.out + "x"
	c, eb := mkcmd(p.race, "-mode", "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(idx), "-max", "1", "-tier", tier, "-dump", "-out", out)
	err = c.Run()
	if err == nil {
		return nil, "not repeated: " + why
	}
	f := readFailure(out + ".plan")
	if f == nil {
		return nil, why
	}
	f.Class = "process-died"
	if strings.Contains(eb.String(), "WATCHDOG") {
		f.Class = "hang"
	}
	lines := strings.SplitN(eb.String(), "\n", 6)
	if len(lines) > 5 {
		lines = lines[:5]
	}
	f.Msg = strings.Join(lines, " | ")
	f.Generate = true
	return f, ""
}

// settle minimises a violation, verifies that it replays in a fresh process and stores the file.
func settle(f *failure, limit time.Duration) (string, string) {
	raw := filepath.Join(work, "raw.json")
	b, _ := json.Marshal(f)
	os.WriteFile(raw, b, 0o644)
	final := raw
	if !f.Generate {
		min := filepath.Join(work, "min.json")
		c, _ := mkcmd(f.Race, "-mode", "minimise", "-file", raw, "-time", limit.String(), "-out", min)
		c.Run()
		if g := readFailure(min); g != nil && replays(min, g) {
			final = min
			*f = *g
		}
	}
	if final == raw {
		if !replays(raw, f) {
			f.Generate = true
			b, _ := json.Marshal(f)
			os.WriteFile(raw, b, 0o644)
			if !replays(raw, f) {
				return "", fmt.Sprintf("a reported failure did not replay: %s %s %s", f.Scenario, f.Class, f.Msg)
			}
		}
	}
	b, err := os.ReadFile(final)
	if err != nil {
		return "", err.Error()
	}
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", f.Prop, f.Class, uint32(h)))
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return "", err.Error()
	}
	return path, ""
}

func replays(path string, f *failure) bool {
	c, _ := mkcmd(f.Race, "-mode", "replay", "-file", path)
	err := c.Run()
	const noVerdict = 7
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == noVerdict {
		return false
	}
	return err != nil
}

func evidence(prop, tier string, seed uint64, procs []*proc, viol *failure, replay string, det detResult, buildSec float64, search time.Duration) {
	tot := stats{Counters: map[string]int{}, Scenarios: map[string]int{}, Strategies: map[string]int{}, FaultConfig: map[string]int{}}
	var hashes []uint64
	var samples []json.RawMessage
	byBuild := map[string]int{}
	maxSec := 0.0
	for _, p := range procs {
		b, err := os.ReadFile(p.out + ".stats")
		if err != nil {
			continue
		}
		var s stats
		if json.Unmarshal(b, &s) != nil {
			continue
		}
		tot.Runs += s.Runs
		tot.Steps += s.Steps
		tot.SimNs += s.SimNs
		tot.Switches += s.Switches
		tot.Goroutines += s.Goroutines
		tot.Nontrivial += s.Nontrivial
		tot.Rechecked += s.Rechecked
		tot.Mismatch += s.Mismatch
		if s.MaxGs > tot.MaxGs {
			tot.MaxGs = s.MaxGs
		}
		if s.RealSec > maxSec {
			maxSec = s.RealSec
		}
		for _, m := range []struct{ a, b map[string]int }{{tot.Counters, s.Counters}, {tot.Scenarios, s.Scenarios}, {tot.Strategies, s.Strategies}, {tot.FaultConfig, s.FaultConfig}} {
			for k, v := range m.b {
				m.a[k] += v
			}
		}
		if p.race {
			byBuild["race_detector_build"] += s.Runs
		} else {
			byBuild["plain_build"] += s.Runs
		}
		if len(samples) < 4 {
			samples = append(samples, s.Samples...)
		}
		hb, _ := os.ReadFile(p.out + ".hashes")
		for i := 0; i+8 <= len(hb); i += 8 {
			hashes = append(hashes, binary.LittleEndian.Uint64(hb[i:]))
		}
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	sort.Slice(hashes, func(i, j int) bool { return hashes[i] < hashes[j] })
	distinct := 0
	for i := range hashes {
		if i == 0 || hashes[i] != hashes[i-1] {
			distinct++
		}
	}
	faults := map[string]int{}
	events := map[string]int{}
	for k, v := range tot.Counters {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] += v
		} else {
			events[k] += v
		}
	}
	perHour := 0.0
	if maxSec > 0 {
		perHour = float64(tot.Runs) / maxSec * 3600
	}
	cov := map[string]interface{}{
		"evaluations":         tot.Runs,
		"distinct_nontrivial": distinct,
		"rule": "One evaluation is one simulated execution: a plan (client programs, data, parameters) and a fault configuration generated from a seed, run under a seeded schedule. " +
			"It is non-trivial if at least one scheduling, fault or random decision had more than one alternative or goroutines switched; " +
			"distinct executions are counted by a 64-bit hash of the full sequence of (decision kind, alternatives, choice, running goroutine) and timer firings.",
		"samples":                           samples,
		"simulated_runs_and_seeds_per_hour": perHour,
		"runs_by_build":                     byBuild,
		"runs_by_scenario":                  tot.Scenarios,
		"runs_by_scheduling_strategy":       tot.Strategies,
		"scheduling_points":                 tot.Steps,
		"goroutine_switches":                tot.Switches,
		"goroutines_simulated":              tot.Goroutines,
		"max_goroutines_in_one_run":         tot.MaxGs,
		"simulated_time_seconds":            float64(tot.SimNs) / 1e9,
		"faults_injected":                   faults,
		"fault_configurations":              tot.FaultConfig,
		"other_events":                      events,
		"determinism":                       map[string]interface{}{"runs_repeated_in_process": tot.Rechecked, "mismatches": tot.Mismatch, "across_processes_and_builds": det},
		"build_seconds":                     buildSec,
		"search_seconds":                    search.Seconds(),
		"real_components":                   "every package of go-pkg the property touches, github.com/panjf2000/ants/v2, golang.org/x/sync/singleflight and the standard context package, compiled from their current source; bufio, sort, strings, unicode and reflect of the standard library",
		"simulated_or_stub_components":      "goroutine scheduler, channels and select, sync, sync/atomic scheduling points, timers and clock, math/rand, GOMAXPROCS; caller goroutines, user callbacks, contexts' owners, readers, writers and closers are harness code",
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s":     time.Since(started).Seconds(),
		"violations": 0,
		"assumptions": []string{
			"the simulated channels, select, sync, context timers and atomics behave as the Go specification and package documentation say",
			"data races are found by happens-before analysis in the executed schedules (race-detector build); schedules are otherwise sequentially consistent interleavings",
			"seeded search: schedules and inputs that were not drawn are not covered",
		},
	}
	if viol != nil {
		ev["violations"] = 1
		cov["violation"] = map[string]interface{}{"class": viol.Class, "scenario": viol.Scenario, "seed": viol.Seed, "message": viol.Msg, "replay": replay}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		die(2, "%v", err)
	}
}

func output(c *exec.Cmd) ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

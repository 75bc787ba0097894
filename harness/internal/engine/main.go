package engine

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

func setFlag(name, value string) {
	if err := flag.CommandLine.Set(name, value); err != nil {
		panic(err)
	}
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

type replayFile struct {
	Property string          `json:"property"`
	Leg      string          `json:"leg"`
	Zone     string          `json:"zone"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Run      string          `json:"run"`
}

var (
	mode     = flag.String("mode", "", "worker or replay; the default is to run the whole check")
	fIndex   = flag.Int("index", 0, "worker index")
	fN       = flag.Int("n", 1, "number of workers")
	fDir     = flag.String("dir", "", "worker directory")
	fFile    = flag.String("file", "", "replay file")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fTier    = flag.String("tier", "quick", "tier")
	fVerif   = flag.String("verif", "/verif", "directory of the framework")
	fOnly    = flag.String("leg", "", "run this leg only (for development)")
	fScale   = flag.Float64("scale", 1, "multiply the numbers of generated cases (for development)")
	fWorkers = flag.Int("workers", 0, "number of workers (for development)")
)

// Verif returns the directory of the framework.
func Verif() string { return *fVerif }

// Out returns the directory for build products.
func Out() string { return filepath.Join(*fVerif, "out") }

// Tier returns the tier.
func Thorough() bool { return *fTier == "thorough" }

// Main runs a check as the process's arguments say, and exits.
func Main(c Check) {
	testing.Init()
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "RAPID_") {
			os.Unsetenv(k)
		}
	}
	flag.Parse()
	if *fOnly != "" {
		var legs []runner
		for _, l := range c.Legs {
			if l.name() == *fOnly {
				legs = append(legs, l)
			}
		}
		c.Legs = legs
	}
	if c.Level == "" {
		c.Level = "exploration"
	}
	switch *mode {
	case "worker":
		c.worker()
	case "replay":
		os.Exit(c.replayMain())
	case "":
	default:
		f, ok := c.Modes[*mode]
		if !ok {
			fmt.Fprintf(os.Stderr, "unknown mode %q\n", *mode)
			os.Exit(exitError)
		}
		os.Exit(f())
	}
	os.Exit(c.parent())
}

// Self returns a command which starts this program in one of the modes of its check.
func Self(mode string, args ...string) *exec.Cmd {
	return command("/", append([]string{"-mode", mode, "-verif", *fVerif}, args...)...)
}

func (c Check) saved() map[string][]json.RawMessage {
	m := map[string][]json.RawMessage{}
	f, err := os.Open(filepath.Join(*fVerif, "harness", "regress", c.ID+".jsonl"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 16<<20)
	for sc.Scan() {
		var l struct {
			Leg  string          `json:"leg"`
			Case json.RawMessage `json:"case"`
		}
		if len(bytes.TrimSpace(sc.Bytes())) == 0 {
			continue
		}
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			fmt.Fprintf(os.Stderr, "%s: %v\n", f.Name(), err)
			os.Exit(exitError)
		}
		m[l.Leg] = append(m[l.Leg], l.Case)
	}
	return m
}

func (c Check) worker() {
	w := &worker{index: *fIndex, n: *fN, seed: *fSeed, thorough: Thorough(), dir: *fDir, saved: c.saved()}
	theWorker = w
	w.report.Zone = zones[w.index%len(zones)]
	if err := setZone(w.report.Zone); err != nil {
		w.fatal("%v", err)
	}
	var err error
	if w.region, err = mapRegion(filepath.Join(w.dir, "current")); err != nil {
		w.fatal("%v", err)
	}
	if !c.NoMemoryLimit {
		limitAddressSpace()
	}
	watch(&w.serial, &w.slow, !c.NoMemoryLimit)
	w.limit()
	for _, l := range c.Legs {
		w.slow.Store(l.slow())
		l.run(w)
		for _, r := range w.report.Legs {
			if r.Failure != nil {
				if _, err := os.Stat(foundFile(w.dir)); err != nil {
					_ = os.WriteFile(foundFile(w.dir), nil, 0o644)
				}
			}
		}
	}
	w.save()
	os.Exit(0)
}

// replayMain evaluates the case of a replay file; it exits with 1 if the property does not hold for it.
func (c Check) replayMain() int {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if mark := "VERIF_ZONE"; os.Getenv(mark) != r.Zone && r.Zone != "" {
		// start again in the environment of the worker
		self, err := os.Executable()
		if err == nil {
			err = syscall.Exec(self, os.Args, append(environ(r.Zone), mark+"="+r.Zone))
		}
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if err := setZone(r.Zone); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if c.Prepare != nil {
		if err := c.Prepare(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
	}
	for _, l := range c.Legs {
		if l.name() != r.Leg {
			continue
		}
		w := &worker{}
		w.slow.Store(l.slow())
		w.serial.Store(1)
		if !c.NoMemoryLimit {
			limitAddressSpace()
		}
		watch(&w.serial, &w.slow, !c.NoMemoryLimit)
		failure, err := l.replay(r.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		if failure != "" {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", failure, c.ID, *fFile)
			return 1
		}
		fmt.Printf("property %s holds for the case of %s\n", c.ID, *fFile)
		return 0
	}
	fmt.Fprintf(os.Stderr, "no leg %q\n", r.Leg)
	return exitError
}

type workerResult struct {
	report workerReport
	hashes []uint64
	// set if the worker died
	died    string
	leg     string
	current []byte
	output  string
}

func (c Check) args(extra ...string) []string {
	return append([]string{"-seed", strconv.FormatUint(*fSeed, 10), "-tier", *fTier, "-verif", *fVerif, "-leg", *fOnly}, extra...)
}

func command(dir string, args ...string) *exec.Cmd {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

func (c Check) runWorker(tmp string, i, n int) (res workerResult) {
	dir := filepath.Join(tmp, fmt.Sprintf("w%d", i))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		res.died = err.Error()
		return
	}
	// the thread which starts a process must outlive it, or the process gets the parent death signal
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	cmd := command(dir, c.args("-mode", "worker", "-index", strconv.Itoa(i), "-n", strconv.Itoa(n), "-dir", dir)...)
	cmd.Env = append(Environ(i), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	if !c.NoMemoryLimit {
		// leave the garbage collector one more thread: the workers already use all processors
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	res.output = out.String()
	b, rerr := os.ReadFile(filepath.Join(dir, "report.json"))
	if err != nil || rerr != nil {
		res.died = fmt.Sprintf("worker %d: %v", i, err)
		if rerr == nil && json.Unmarshal(b, &res.report) == nil && res.report.Error != "" {
			res.died += ": " + res.report.Error
		}
		res.report.Zone = zones[i%len(zones)]
		res.leg, res.current = current(filepath.Join(dir, "current"))
		return
	}
	if err := json.Unmarshal(b, &res.report); err != nil {
		res.died = err.Error()
		return
	}
	raw, _ := os.ReadFile(filepath.Join(dir, "hashes"))
	for ; len(raw) >= 8; raw = raw[8:] {
		res.hashes = append(res.hashes, binary.LittleEndian.Uint64(raw))
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (c Check) writeReplay(leg, zone string, raw json.RawMessage, msg string) string {
	dir := filepath.Join(Out(), "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", c.ID, leg, hash(leg, raw)))
	r := replayFile{c.ID, leg, zone, raw, msg, *fSeed, *fTier, "bash " + filepath.Join(*fVerif, "replay.sh") + " " + path}
	b, err := json.MarshalIndent(r, "", "  ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
	return path
}

type found struct {
	leg, zone string
	f         caseFailure
}

func (c Check) parent() int {
	start := time.Now()
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintf(os.Stderr, "VERIF_SEED: %v\n", err)
			return exitError
		}
		*fSeed = uint64(n)
	}
	*fTier = env("VERIF_TIER", *fTier)
	if *fTier != "quick" && *fTier != "thorough" {
		fmt.Fprintf(os.Stderr, "unknown tier %q\n", *fTier)
		return exitError
	}
	n := c.Workers
	if n == 0 {
		n = 8
	}
	if *fWorkers > 0 {
		n = *fWorkers
	}
	os.MkdirAll(Out(), 0o755)
	if c.Prepare != nil {
		if err := c.Prepare(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
	}
	tmp, err := os.MkdirTemp("", "verif-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(tmp)

	results := make([]workerResult, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i] = c.runWorker(tmp, i, n)
		}()
	}
	wg.Wait()

	var failures []found
	broken := false
	legs := map[string]*legReport{}
	var order []string
	var hashes []uint64
	for _, r := range results {
		if r.died != "" {
			fmt.Fprintf(os.Stderr, "%s\n%s\n", r.died, tail(r.output, 4000))
			if r.report.Error != "" || r.leg == "" {
				broken = true
				continue
			}
			// the process ended while it evaluated a case: see whether this case alone does it again
			msg := fmt.Sprintf("the process was ended by this case: %s", tail(strings.TrimSpace(r.output), 1500))
			path := c.writeReplay(r.leg, r.report.Zone, r.current, msg)
			if racy([]byte(r.output)) {
				// a report of the race detector is never wrong, but the schedule need not come again
				failures = append(failures, found{r.leg, r.report.Zone, caseFailure{r.current, msg}})
				continue
			}
			runtime.LockOSThread()
			cmd := command(tmp, c.args("-mode", "replay", "-file", path)...)
			out, err := cmd.CombinedOutput()
			runtime.UnlockOSThread()
			if err == nil || cmd.ProcessState.ExitCode() == exitError && !fatal(out) {
				fmt.Fprintf(os.Stderr, "the death of the worker is not reproduced by %s: %v\n%s\n", path, err, tail(string(out), 2000))
				broken = true
				continue
			}
			failures = append(failures, found{r.leg, r.report.Zone, caseFailure{r.current, msg}})
			continue
		}
		hashes = append(hashes, r.hashes...)
		for _, l := range r.report.Legs {
			m := legs[l.Name]
			if m == nil {
				m = &legReport{Name: l.Name, Rule: l.Rule, Classes: map[string]int64{}}
				legs[l.Name] = m
				order = append(order, l.Name)
			}
			m.Stopped = m.Stopped || l.Stopped
			m.Evaluations += l.Evaluations
			m.Swept += l.Swept
			for k, v := range l.Classes {
				m.Classes[k] += v
			}
			if len(m.Samples) < 6 {
				m.Samples = append(m.Samples, l.Samples...)
			}
			if l.Failure != nil {
				failures = append(failures, found{l.Name, r.report.Zone, *l.Failure})
			}
		}
	}

	sort.Slice(hashes, func(i, j int) bool { return hashes[i] < hashes[j] })
	var distinct int64
	for i, h := range hashes {
		if i == 0 || hashes[i-1] != h {
			distinct++
		}
	}

	// one report per leg: the smallest case

	sort.SliceStable(failures, func(i, j int) bool {
		if failures[i].leg != failures[j].leg {
			return failures[i].leg < failures[j].leg
		}
		if len(failures[i].f.Case) != len(failures[j].f.Case) {
			return len(failures[i].f.Case) < len(failures[j].f.Case)
		}
		return string(failures[i].f.Case) < string(failures[j].f.Case)
	})
	violations := 0
	for i, f := range failures {
		if i > 0 && failures[i-1].leg == f.leg {
			continue
		}
		violations++
		path := c.writeReplay(f.leg, f.zone, f.f.Case, f.f.Message)
		fmt.Printf("%s/%s: case %s\n  %s\n", c.ID, f.leg, tail(string(f.f.Case), 500), tail(f.f.Message, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	}

	c.evidence(start, order, legs, distinct, violations)

	for _, name := range order {
		if legs[name].Stopped && violations == 0 {
			fmt.Printf("%s/%s: stopped after %s, with fewer cases than intended\n", c.ID, name, quickLimit)
		}
	}

	switch {
	case violations > 0:
		return 1
	case broken:
		return exitError
	}
	fmt.Printf("property %s held on everything explored (%.1fs)\n", c.ID, time.Since(start).Seconds())
	return 0
}

// racy recognises the reports of the race detector and of the runtime on unsynchronised accesses.
func racy(out []byte) bool {
	return bytes.Contains(out, []byte("WARNING: DATA RACE")) || bytes.Contains(out, []byte("fatal error: concurrent map"))
}

// fatal recognises the ways in which the Go runtime itself ends a process, which has the same exit code as our errors.
func fatal(out []byte) bool {
	return bytes.Contains(out, []byte("fatal error:")) || bytes.Contains(out, []byte("goroutine stack exceeds")) || bytes.Contains(out, []byte("panic:"))
}

func (c Check) evidence(start time.Time, order []string, legs map[string]*legReport, distinct int64, violations int) {
	var evals int64
	var rules []string
	samples := []sample{}
	type legEvidence struct {
		Evaluations int64            `json:"evaluations"`
		Enumerated  int64            `json:"enumerated_nontrivial,omitempty"`
		Classes     map[string]int64 `json:"classes,omitempty"`
		Stopped     bool             `json:"stopped_early,omitempty"`
	}
	perLeg := map[string]legEvidence{}
	for _, name := range order {
		l := legs[name]
		evals += l.Evaluations
		distinct += l.Swept
		rules = append(rules, name+": "+l.Rule)
		k := 5
		if k > len(l.Samples) {
			k = len(l.Samples)
		}
		samples = append(samples, l.Samples[:k]...)
		perLeg[name] = legEvidence{l.Evaluations, l.Swept, l.Classes, l.Stopped}
	}
	ev := map[string]any{
		"property": c.ID,
		"tier":     *fTier,
		"seed":     int64(*fSeed),
		"level":    c.Level,
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": distinct,
			"rule":                strings.Join(rules, " | "),
			"samples":             samples,
			"legs":                perLeg,
		},
		"assumptions": c.Assumptions,
		"wall_s":      float64(time.Since(start).Milliseconds()) / 1000,
		"violations":  violations,
	}
	if c.Assumptions == nil {
		delete(ev, "assumptions")
	}
	if c.Exhaustive && Thorough() {
		ev["coverage"].(map[string]any)["exhaustive"] = true
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*fVerif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}

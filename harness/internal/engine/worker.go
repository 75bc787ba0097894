package engine

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	_ "time/tzdata"

	"pgregory.net/rapid"
)

// exit codes of a worker or replay process
const (
	exitError   = 2
	exitHang    = 97
	exitMemory  = 98
	cpuLimit    = 30 * time.Second
	wallLimit   = 120 * time.Second
	memoryLimit = 3 << 30
	regionSize  = 4 << 20
)

type sample struct {
	Leg     string          `json:"leg"`
	Classes []string        `json:"classes,omitempty"`
	Case    json.RawMessage `json:"case"`
}

type caseFailure struct {
	Case    json.RawMessage `json:"case"`
	Message string          `json:"message"`
}

type legReport struct {
	Name        string           `json:"name"`
	Rule        string           `json:"rule"`
	Evaluations int64            `json:"evaluations"`
	Swept       int64            `json:"swept"`
	Classes     map[string]int64 `json:"classes"`
	Samples     []sample         `json:"samples"`
	Failure     *caseFailure     `json:"failure,omitempty"`
	// Stopped is set if not all cases were evaluated.
	Stopped bool `json:"stopped,omitempty"`
}

type workerReport struct {
	Zone  string       `json:"zone"`
	Legs  []*legReport `json:"legs"`
	Error string       `json:"error,omitempty"`
}

type worker struct {
	index, n int
	seed     uint64
	thorough bool
	dir      string
	saved    map[string][]json.RawMessage
	report   workerReport
	hashes   []uint64
	region   []byte
	serial   atomic.Int64
	slow     atomic.Bool
	stop     atomic.Bool
}

// A quick check stops to look for violations after some time, which it takes only if the code has become much slower;
// and once a worker has found one, the others stop after a while.
const (
	quickLimit = 450 * time.Second
	grace      = 45 * time.Second
)

func foundFile(dir string) string { return filepath.Join(filepath.Dir(dir), "found") }

// limit sets the flag which makes the worker stop.
func (w *worker) limit() {
	start := time.Now()
	go func() {
		for !w.stop.Load() {
			time.Sleep(500 * time.Millisecond)
			fi, err := os.Stat(foundFile(w.dir))
			if !w.thorough && time.Since(start) > quickLimit || err == nil && time.Since(fi.ModTime()) > grace {
				w.stop.Store(true)
			}
		}
	}()
}

// over reports whether the worker is to stop.
func (w *worker) over(r *legReport) bool {
	if w.stop.Load() {
		r.Stopped = true
	}
	return r.Stopped
}

// zones are the local time zones under which the workers run.
var zones = []string{"UTC", "+05:30", "-11:00", "Europe/Paris", "America/New_York", "+14:00", "Asia/Kathmandu", "-03:30"}

// environs holds for each of the zones what goes into the environment of the process: the zone, which code could read
// before the main function sets it, and a locale.
var environs = map[string][]string{
	"UTC":              {"TZ=UTC", "LANG=C", "LC_ALL=C", "LANGUAGE="},
	"+05:30":           {"TZ=Asia/Kolkata", "LANG=hi_IN.UTF-8", "LC_ALL=hi_IN.UTF-8", "LANGUAGE=hi"},
	"-11:00":           {"TZ=Pacific/Pago_Pago", "LANG=en_US.UTF-8", "LC_ALL=en_US.UTF-8", "LANGUAGE=en"},
	"Europe/Paris":     {"TZ=Europe/Paris", "LANG=fr_FR.UTF-8", "LC_ALL=", "LANGUAGE=fr:de"},
	"America/New_York": {"TZ=America/New_York", "LANG=", "LC_ALL=", "LANGUAGE="},
	"+14:00":           {"TZ=Etc/GMT-14", "LANG=en_GB", "LC_ALL=", "LANGUAGE="},
	"Asia/Kathmandu":   {"TZ=Asia/Kathmandu", "LANG=C.UTF-8", "LC_ALL=tr_TR.UTF-8", "LANGUAGE=tr"},
	"-03:30":           {"TZ=America/St_Johns", "LANG=de_DE@euro", "LC_ALL=", "LANGUAGE=de"},
}

// Environ is the environment for the i-th of several processes: they differ in the zone and the locale.
func Environ(i int) []string {
	return environ(zones[i%len(zones)])
}

func environ(zone string) []string {
	return append(os.Environ(), environs[zone]...)
}

func setZone(name string) error {
	if name == "" {
		return nil
	}
	if name[0] == '+' || name[0] == '-' {
		hh, mm, _ := strings.Cut(name[1:], ":")
		h, _ := strconv.Atoi(hh)
		m, _ := strconv.Atoi(mm)
		off := h*3600 + m*60
		if name[0] == '-' {
			off = -off
		}
		time.Local = time.FixedZone(name, off)
		return nil
	}
	loc, err := time.LoadLocation(name)
	if err != nil {
		return err
	}
	time.Local = loc
	return nil
}

func (w *worker) fatal(format string, args ...any) {
	w.report.Error = fmt.Sprintf(format, args...)
	w.save()
	os.Exit(exitError)
}

var theWorker *worker

// Broken ends the process because of a problem which is not one of the code under test.
func Broken(format string, args ...any) {
	if theWorker != nil {
		theWorker.fatal(format, args...)
	}
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(exitError)
}

func (w *worker) save() {
	b, err := json.Marshal(w.report)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(w.dir, "report.json"), b, 0o644); err != nil {
		panic(err)
	}
	raw := make([]byte, 8*len(w.hashes))
	for i, h := range w.hashes {
		binary.LittleEndian.PutUint64(raw[8*i:], h)
	}
	if err := os.WriteFile(filepath.Join(w.dir, "hashes"), raw, 0o644); err != nil {
		panic(err)
	}
}

// mapRegion maps a file in which the case being evaluated is kept, so that it is known if the process dies.
func mapRegion(path string) ([]byte, error) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(regionSize); err != nil {
		return nil, err
	}
	return syscall.Mmap(int(f.Fd()), 0, regionSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
}

func (w *worker) begin(leg string, raw []byte) {
	if w.region != nil && len(leg)+len(raw)+16 < len(w.region) {
		binary.LittleEndian.PutUint64(w.region[0:], uint64(len(leg)))
		binary.LittleEndian.PutUint64(w.region[8:], uint64(len(raw)))
		copy(w.region[16:], leg)
		copy(w.region[16+len(leg):], raw)
	}
	w.serial.Add(1)
}

func (w *worker) end() {
	w.serial.Add(1)
	if w.region != nil {
		binary.LittleEndian.PutUint64(w.region[0:], 0)
	}
}

// current reads the case which a dead worker was evaluating.
func current(path string) (leg string, raw []byte) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return "", nil
	}
	n, m := binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])
	if n == 0 || 16+n+m > uint64(len(b)) {
		return "", nil
	}
	return string(b[16 : 16+n]), b[16+n : 16+n+m]
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func residentBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// watch ends the process if one single case, which normally takes microseconds, uses up the time or memory limit. It
// counts the processor time which the process itself used, so that a busy machine does not matter; the wall clock is
// only consulted for cases which are blocked altogether.
func watch(serial *atomic.Int64, slow *atomic.Bool, limitMemory bool) {
	go func() {
		last := int64(-1)
		cpu, wall := cpuTime(), time.Now()
		for {
			time.Sleep(250 * time.Millisecond)
			now := serial.Load()
			if now != last || now%2 == 0 {
				last, cpu, wall = now, cpuTime(), time.Now()
			}
			lim := wallLimit
			if slow.Load() {
				lim *= 4
			}
			if cpuTime()-cpu > cpuLimit {
				fmt.Fprintf(os.Stderr, "a single case used more than %v of processor time\n", cpuLimit)
				os.Exit(exitHang)
			}
			if time.Since(wall) > lim {
				fmt.Fprintf(os.Stderr, "a single case did not return within %v\n", lim)
				os.Exit(exitHang)
			}
			if limitMemory && residentBytes() > memoryLimit {
				fmt.Fprintf(os.Stderr, "the process came to use more than %d bytes of memory\n", int64(memoryLimit))
				os.Exit(exitMemory)
			}
		}
	}()
}

func limitAddressSpace() {
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

// tb is the part of testing.TB which rapid needs.
type tb struct {
	name   string
	failed bool
}

func (t *tb) Helper()              {}
func (t *tb) Name() string         { return t.name }
func (t *tb) Logf(string, ...any)  {}
func (t *tb) Log(...any)           {}
func (t *tb) Skipf(string, ...any) { runtime.Goexit() }
func (t *tb) Skip(...any)          { runtime.Goexit() }
func (t *tb) SkipNow()             { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) {
	t.failed = true
	t.note(fmt.Sprintf(f, a...))
}
func (t *tb) Error(a ...any)            { t.failed = true; t.note(fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
func (t *tb) note(s string) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, t.name, s)
	}
}

var _ rapid.TB = (*tb)(nil)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// check runs one rapid search and reports whether it found a failure.
func (w *worker) check(leg string, checks int, prop func(*rapid.T)) bool {
	seed := mix(w.seed ^ mix(uint64(w.index)+1) ^ hash(leg, nil))
	if seed == 0 {
		seed = 1
	}
	setFlag("rapid.checks", strconv.Itoa(checks))
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "15s")
	t := &tb{name: leg}
	done := make(chan struct{})
	violated := false
	valid := 0
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			ok := false
			defer func() {
				if ok {
					valid++
				}
			}()
			prop(rt)
			ok = true
		})
	}()
	<-done
	if t.failed {
		r := w.report.Legs[len(w.report.Legs)-1]
		violated = r.Failure != nil
		if !violated {
			w.fatal("leg %s: the generator yielded only %d of %d cases", leg, valid, checks)
		}
	}
	return violated
}

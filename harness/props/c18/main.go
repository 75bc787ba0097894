// C18: command-line and WASM front ends report what the library says.
package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/dict"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/model"
	"verif/harness/internal/oracle"
)

//go:embed driver.js
var driverSource []byte

func dir() string { return filepath.Join(engine.Out(), "C18") }

func bin(name string) string { return filepath.Join(dir(), name) }

// prepare builds the four front ends from the working tree.
func prepare() error {
	if err := os.RemoveAll(dir()); err != nil {
		return err
	}
	for _, b := range []struct {
		out  string
		env  []string
		args []string
	}{
		{"parse", nil, []string{"./cmd/parse"}},
		{"matches", nil, []string{"./cmd/matches"}},
		{"parse-p1.wasm", []string{"GOOS=wasip1", "GOARCH=wasm"}, []string{"-tags", "wasip1", "./cmd/parse-wasi"}},
		{"parse-js.wasm", []string{"GOOS=js", "GOARCH=wasm"}, []string{"-tags", "wasmjs", "./cmd/parse-wasm"}},
	} {
		if err := engine.GoBuild(bin(b.out), b.env, b.args...); err != nil {
			return err
		}
	}
	root, err := engine.GoRoot()
	if err != nil {
		return err
	}
	for _, p := range []string{"lib/wasm/wasm_exec.js", "misc/wasm/wasm_exec.js"} {
		if b, err := os.ReadFile(filepath.Join(root, p)); err == nil {
			if err := os.WriteFile(bin("wasm_exec.js"), b, 0o644); err != nil {
				return err
			}
			return os.WriteFile(bin("driver.js"), driverSource, 0o644)
		}
	}
	return fmt.Errorf("there is no wasm_exec.js in %s", root)
}

// what the library says

type answer struct {
	encoding []byte
	parseErr error
	level    int
	feature  string
	matchErr error
}

func library(s string) (a answer) {
	d, err := parser.ParseString(s)
	a.parseErr = err
	if err == nil {
		a.encoding, err = json.Marshal(d)
		if err != nil {
			panic(err)
		}
	}
	a.level, a.feature, a.matchErr = parser.Matches(s)
	return a
}

// list is a list of expressions.
type list struct {
	Dashes bool         `json:"dashes"`
	Args   []engine.Str `json:"args"`
}

func (l list) argv() []string {
	as := []string{}
	if l.Dashes || len(l.Args) > 0 && strings.HasPrefix(string(l.Args[0]), "-") {
		as = append(as, "--")
	}
	for _, a := range l.Args {
		as = append(as, string(a))
	}
	return as
}

func (l list) quoted() string {
	var qs []string
	for _, a := range l.argv() {
		qs = append(qs, strconv.Quote(a))
	}
	return strings.Join(qs, " ")
}

func run(name string, args []string) (stdout, stderr []byte, code int, err error) {
	cmd := exec.Command(bin(name), args...)
	cmd.Dir = "/"
	cmd.Stdin = strings.NewReader("1985-04\n1986 1987/..\n") // which is none of its business
	cmd.Env = dict.Environ(os.Environ())                     // nor are these
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	err = cmd.Run()
	if _, ok := err.(*exec.ExitError); ok {
		err = nil
	}
	code = -1
	if cmd.ProcessState != nil {
		code = cmd.ProcessState.ExitCode()
	}
	return out.Bytes(), errs.Bytes(), code, err
}

func names(stderr []byte, s string) bool {
	q := strconv.Quote(s)
	return bytes.Contains(stderr, []byte(s)) || bytes.Contains(stderr, []byte(q[1:len(q)-1]))
}

func checkTools(c list, o *engine.Obs) {
	argv := c.argv()
	var as []answer
	badParse, badMatch := []string{}, []string{}
	for _, a := range c.Args {
		x := library(string(a))
		as = append(as, x)
		if x.parseErr != nil {
			badParse = append(badParse, string(a))
		}
		if x.matchErr != nil {
			badMatch = append(badMatch, string(a))
		}
	}
	if len(c.Args) > 1 || len(badParse) > 0 {
		o.NonTrivial()
	}
	refused := func(tool string, bad []string, stderr []byte, code int) {
		if code == 0 {
			o.Failf("%s %s exits with 0, although %q is refused", tool, c.quoted(), bad[0])
		}
		for _, b := range bad {
			if names(stderr, b) {
				return
			}
		}
		o.Failf("%s %s does not name %q on standard error: %q", tool, c.quoted(), bad[0], stderr)
	}

	stdout, stderr, code, err := run("parse", argv)
	if err != nil {
		panic(err)
	}
	if len(badParse) > 0 {
		o.Class("parse: refused")
		refused("parse", badParse, stderr, code)
	} else {
		o.Class("parse: %d", len(c.Args))
		if code != 0 {
			o.Failf("parse %s exits with %d: %s", c.quoted(), code, stderr)
		}
		dec := json.NewDecoder(bytes.NewReader(stdout))
		var got []json.RawMessage
		if err := dec.Decode(&got); err != nil || got == nil {
			o.Failf("parse %s prints %q: %v", c.quoted(), stdout, err)
		}
		if len(bytes.TrimSpace(stdout[dec.InputOffset():])) > 0 {
			o.Failf("parse %s prints more than one array: %q", c.quoted(), stdout)
		}
		if len(got) != len(c.Args) {
			o.Failf("parse %s prints %d elements: %q", c.quoted(), len(got), stdout)
		}
		for i := range got {
			var b bytes.Buffer
			if err := json.Compact(&b, got[i]); err != nil || !bytes.Equal(b.Bytes(), as[i].encoding) {
				o.Failf("parse %s: element %d is\n  %s\nand the encoding of the library\n  %s", c.quoted(), i, got[i], as[i].encoding)
			}
		}
	}

	stdout, stderr, code, err = run("matches", argv)
	if err != nil {
		panic(err)
	}
	if len(badMatch) > 0 {
		o.Class("matches: refused")
		refused("matches", badMatch, stderr, code)
		return
	}
	o.Class("matches: %d", len(c.Args))
	want := ""
	for i, a := range c.Args {
		want += fmt.Sprintf("%s level %d (%s)\n", string(a), as[i].level, as[i].feature)
	}
	if code != 0 || string(stdout) != want {
		o.Failf("matches %s exits with %d and prints\n%q\nexpected\n%q\n%s", c.quoted(), code, stdout, want, stderr)
	}
}

// driver is the node process which runs the WASM builds.
type driver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *bytes.Buffer
}

var node *driver

func newDriver() (*driver, error) {
	cmd := exec.Command("node", "--no-warnings", "--expose-gc", bin("driver.js"), bin("wasm_exec.js"), bin("parse-js.wasm"), bin("parse-p1.wasm"))
	cmd.Dir = "/"
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	errs := &bytes.Buffer{}
	cmd.Stderr = errs
	started := make(chan error)
	go func() {
		// the thread which starts the process must not end
		runtime.LockOSThread()
		started <- cmd.Start()
		select {}
	}()
	if err := <-started; err != nil {
		return nil, err
	}
	d := &driver{cmd, in, bufio.NewReaderSize(out, 1<<20), errs}
	line, err := d.out.ReadString('\n')
	if line != "ready\n" {
		d.stop()
		return nil, fmt.Errorf("the node driver says %q, %v\n%s", line, err, errs.String())
	}
	return d, nil
}

func (d *driver) stop() {
	d.in.Close()
	d.cmd.Process.Kill()
	d.cmd.Wait()
}

func startNode() (func(), error) {
	var err error
	node, err = newDriver()
	return func() { node.stop() }, err
}

func (d *driver) try(b []byte, v any) error {
	if _, err := d.in.Write(b); err != nil {
		return err
	}
	line, err := d.out.ReadBytes('\n')
	if err != nil {
		return fmt.Errorf("%v after %q", err, line)
	}
	return json.Unmarshal(line, v)
}

// ask has node run one of the builds. The builds run inside of node and can not end it: if it ends, that is no
// property of theirs, and it is started again.
func ask(kind string, args []string, v any) {
	b, err := json.Marshal(map[string]any{"kind": kind, "args": args})
	if err != nil {
		panic(err)
	}
	for i := 0; i < 4; i++ {
		if err = node.try(append(b, '\n'), v); err == nil {
			return
		}
		node.stop()
		fmt.Fprintf(os.Stderr, "node failed: %v (%v)\n%s\n", err, node.cmd.ProcessState, node.errs)
		d, err := newDriver()
		if err != nil {
			engine.Broken("starting node: %v", err)
		}
		node = d
	}
	engine.Broken("node fails: %v", err)
}

func checkWasi(c list, o *engine.Obs) {
	want := ""
	refused := 0
	for _, a := range c.Args {
		x := library(string(a))
		if x.parseErr != nil {
			want += x.parseErr.Error() + "\n"
			refused++
		} else {
			want += string(x.encoding) + "\n"
		}
	}
	o.Class("%d expressions", len(c.Args))
	if refused > 0 {
		o.Class("%d refused", refused)
	}
	if len(c.Args) > 1 || refused > 0 {
		o.NonTrivial()
	}
	var r struct {
		Code           int
		Failure        string
		Stdout, Stderr string
	}
	ask("wasi", c.argv(), &r)
	if refused == 0 && r.Code != 0 {
		o.Failf("the WASI build with %s exits with %d %s: %s", c.quoted(), r.Code, r.Failure, r.Stderr)
	}
	if r.Stdout != want {
		o.Failf("the WASI build with %s prints\n%q\nexpected\n%q\n%s %s", c.quoted(), r.Stdout, want, r.Failure, r.Stderr)
	}
}

type jsAnswer struct{ State, Type, Value string }

func checkJs(c engine.Str, o *engine.Obs) {
	var r []jsAnswer
	ask("js", []string{string(c)}, &r)
	judgeJs(string(c), r[0], o)
}

// checkJsMany asks for several before any is awaited.
func checkJsMany(c list, o *engine.Obs) {
	as := []string{}
	for _, a := range c.Args {
		as = append(as, string(a))
	}
	var rs []jsAnswer
	ask("js", as, &rs)
	for i, a := range as {
		judgeJs(a, rs[i], o)
	}
}

func judgeJs(s string, r jsAnswer, o *engine.Obs) {
	x := library(s)
	o.NonTrivial()
	if x.parseErr != nil {
		o.Class("rejected")
		if r.State != "rejected" || !names([]byte(r.Value), s) {
			o.Failf("the JavaScript build with %q, which does not parse: %s (%s) %q", s, r.State, r.Type, r.Value)
		}
		return
	}
	o.Class("resolved")
	if r.State != "resolved" || r.Type != "string" || r.Value != string(x.encoding) {
		o.Failf("the JavaScript build with %q: %s (%s) %q, and the encoding of the library is\n%q", s, r.State, r.Type, r.Value, x.encoding)
	}
}

// argument draws what can be an argument of a program: it does not contain NUL.
func argument(t *rapid.T) string {
	s := ""
	switch gen.Int(t, "argument", 0, 9) {
	case 0:
		s = gen.String(t)
	case 1:
		s = gen.Pick(t, "special", "", "..", "open", "uuuu", "%s%d", "-1985", "--", "-", "@/etc/hostname", "/dev/stdin", "*", "~", "$HOME", "-h", "--help", "a b", "'", "\"<>&\"", "2004-13", "Y17E7", "é", "2004-06-XX/2004-07-03")
	default:
		s = gen.Any(t)
	}
	if x, ok := gen.FreshText(t); ok {
		s = x
	}
	return strings.ReplaceAll(s, "\x00", "")
}

// longList draws a list whose output, or one of whose expressions, is longer than any usual buffer.
func longList(t *rapid.T, l list, valid bool) list {
	var some []engine.Str
	for i := gen.Int(t, "different", 1, 5); i > 0; i-- {
		some = append(some, engine.Str(utf8Only(strings.ReplaceAll(gen.Valid(t), "\x00", ""))))
	}
	if gen.Chance(t, "set", 3) {
		members := []string{}
		for i := gen.Int(t, "members", 100, 12000); i > 0; i-- {
			members = append(members, model.YearText(i%10000))
		}
		some[0] = engine.Str("[" + strings.Join(members, ",") + "]")
	}
	for i := gen.Int(t, "n", 20, 300); i > 0 && len(l.Args)*len(some[0]) < 200000; i-- {
		l.Args = append(l.Args, some[i%len(some)])
	}
	if !valid {
		l.Args[gen.Int(t, "bad", 0, len(l.Args)-1)] = engine.Str(gen.Pick(t, "which", "2004-13", "Y17E7", "1985-", "XXXX"))
	}
	return l
}

func lists(one func(*rapid.T) string) func(*rapid.T) list {
	return func(t *rapid.T) list {
		l := list{Dashes: rapid.Bool().Draw(t, "dashes")}
		n := gen.Int(t, "n", 0, 8)
		valid := gen.Chance(t, "all valid", 2)
		if gen.Chance(t, "long", 25) {
			return longList(t, l, valid)
		}
		for i := 0; i < n; i++ {
			s := ""
			if valid {
				s = gen.Valid(t)
			} else {
				s = one(t)
			}
			if len(l.Args) > 0 && gen.Chance(t, "repeated", 8) {
				s = string(l.Args[0])
			}
			if !valid && len(l.Args) > 0 && gen.Chance(t, "twin", 5) {
				s = strings.ToValidUTF8(gen.Twin(t, string(l.Args[i-1])), "?")
			}
			l.Args = append(l.Args, engine.Str(s))
		}
		return l
	}
}

// utf8Only makes a string one which JavaScript can hold.
func utf8Only(s string) string {
	return strings.ToValidUTF8(s, "?")
}

func catalogue(emit func(string) bool) {
	for _, s := range gen.Catalogue {
		if utf8.ValidString(s) && !emit(s) {
			return
		}
	}
}

func main() {
	engine.Main(engine.Check{
		ID:      "C18",
		Prepare: prepare,
		// node needs a large address space
		NoMemoryLimit: true,
		Assumptions: []string{
			"the WASM builds run under node, with its WASI implementation and the wasm_exec.js of the toolchain",
			"the library as linked in to this check says what the library says; its own correctness is decided by the other checks",
			"arguments which begin with '-' follow a '--'; strings for JavaScript are valid UTF-8; arguments have no NUL",
		},
		Legs: oracle.Legs(
			engine.Leg[list]{
				Name: "tools",
				Rule: "lists of 0 to 8, now and then up to 300 or very long, expressions, half of them all valid, given to the built parse and matches tools, whose standard input has expressions, too; non-trivial if there is more than one or one is refused",
				Sweep: func(_ bool, emit func(list) bool) {
					catalogue(func(s string) bool { return emit(list{false, []engine.Str{engine.Str(s)}}) })
					// as many refused ones as make a status of zero if they are counted in it
					for _, n := range []int{2, 128, 255, 256, 512, 1024} {
						for _, s := range []engine.Str{"2004-13", "1985-", ""} {
							l := list{false, []engine.Str{"1985"}}
							for len(l.Args) <= n {
								l.Args = append(l.Args, s)
							}
							if !emit(l) {
								return
							}
						}
					}
					for _, s := range []engine.Str{"-", "--", "/dev/stdin"} {
						if !emit(list{false, []engine.Str{s}}) || !emit(list{true, []engine.Str{s, "1985"}}) {
							return
						}
					}
				},
				Gen:   lists(argument),
				Quick: 1600, Thorough: 20000,
				Check: checkTools,
				Slow:  true,
			},
			engine.Leg[list]{
				Name: "wasi",
				Rule: "such lists of valid UTF-8 given to the WASI build; non-trivial if there is more than one or one is refused",
				Gen: func(t *rapid.T) list {
					return lists(func(t *rapid.T) string { return utf8Only(argument(t)) })(t)
				},
				Quick: 800, Thorough: 10000,
				Check: checkWasi,
				Setup: startNode,
				Slow:  true,
			},
			engine.Leg[engine.Str]{
				Name: "js",
				Rule: "the expressions of a catalogue, and random ones, of valid UTF-8, given to parse_edtf of the JavaScript build; non-trivial always",
				Sweep: func(_ bool, emit func(engine.Str) bool) {
					catalogue(func(s string) bool { return emit(engine.Str(s)) })
				},
				Gen: func(t *rapid.T) engine.Str {
					if gen.Chance(t, "string", 4) {
						return engine.Str(utf8Only(gen.String(t)))
					}
					return engine.Str(utf8Only(gen.Any(t)))
				},
				Quick: 6000, Thorough: 100000,
				Check: checkJs,
				Setup: startNode,
				Slow:  true,
			},
			engine.Leg[list]{
				Name: "js-many",
				Rule: "lists of valid UTF-8, all given to parse_edtf of the JavaScript build before the first promise is awaited; non-trivial always",
				Gen: func(t *rapid.T) list {
					l := lists(func(t *rapid.T) string { return utf8Only(argument(t)) })(t)
					l.Dashes = false
					return l
				},
				Quick: 500, Thorough: 10000,
				Check: checkJsMany,
				Setup: startNode,
				Slow:  true,
			},
		),
	})
}

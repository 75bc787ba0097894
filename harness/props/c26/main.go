// C26: the demo page shows what the library says.
package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/sfomuseum/go-edtf/parser"
	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

//go:embed page.js
var pageSource []byte

func dir() string { return filepath.Join(engine.Out(), "C26") }

// prepare builds the module which the page loads.
func prepare() error {
	if err := os.RemoveAll(dir()); err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Join(dir(), "wasm"), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir(), "page.js"), pageSource, 0o644); err != nil {
		return err
	}
	return engine.GoBuild(filepath.Join(dir(), "wasm", "parse-js.wasm"), []string{"GOOS=js", "GOARCH=wasm"}, "-tags", "wasmjs", "./cmd/parse-wasm")
}

// browser is the node process in which the page runs.
type browser struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *bytes.Buffer
}

func newBrowser() (*browser, error) {
	cmd := exec.Command("node", "--no-warnings", filepath.Join(dir(), "page.js"), filepath.Join(engine.Repo, "app/server/www"), filepath.Join(dir(), "wasm"))
	cmd.Dir = "/"
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	errs := &bytes.Buffer{}
	cmd.Stderr = errs
	started := make(chan error)
	go func() {
		// the thread which starts the process must not end
		runtime.LockOSThread()
		started <- cmd.Start()
		select {}
	}()
	if err := <-started; err != nil {
		return nil, err
	}
	b := &browser{cmd, in, bufio.NewReaderSize(out, 1<<20), errs}
	line, err := b.out.ReadString('\n')
	if line != "ready\n" {
		b.stop()
		return nil, fmt.Errorf("node says %q, %v\n%s", line, err, errs.String())
	}
	return b, nil
}

func (b *browser) stop() {
	b.in.Close()
	b.cmd.Process.Kill()
	b.cmd.Wait()
}

var current *browser
var pages int // opened in the current process

func start() (func(), error) {
	var err error
	current, err = newBrowser()
	pages = 0
	return func() { current.stop() }, err
}

func (b *browser) try(req []byte, v any) error {
	if _, err := b.in.Write(append(req, '\n')); err != nil {
		return err
	}
	line, err := b.out.ReadBytes('\n')
	if err != nil {
		return fmt.Errorf("%v after %q", err, line)
	}
	return json.Unmarshal(line, v)
}

func restart() {
	current.stop()
	if _, err := start(); err != nil {
		engine.Broken("starting node: %v", err)
	}
}

type state struct {
	Disabled bool     `json:"disabled"`
	Shown    bool     `json:"shown"`
	Text     string   `json:"text"`
	Elements []string `json:"elements"`
}

type opened struct {
	Error  string   `json:"error"`
	Before state    `json:"before"`
	After  state    `json:"after"`
	Errors []string `json:"errors"`
}

type answers struct {
	Error   string `json:"error"`
	Answers []struct {
		Navigates bool     `json:"navigates"`
		Settled   bool     `json:"settled"`
		State     state    `json:"state"`
		Errors    []string `json:"errors"`
	} `json:"answers"`
}

// visit is what a user does on a new page: texts are submitted one after the other.
type visit struct {
	Missing bool         `json:"missing,omitempty"` // the parser can not be loaded
	Texts   []engine.Str `json:"texts"`
}

// ask has the page opened and the texts submitted. The page can not end node: if that ends, it is no property of
// the page, and it is started again.
func ask(c visit) (o *opened, as answers) {
	texts := []string{}
	for _, t := range c.Texts {
		texts = append(texts, string(t))
	}
	open, _ := json.Marshal(map[string]any{"kind": "open", "missing": c.Missing})
	submit, err := json.Marshal(map[string]any{"kind": "submit", "texts": texts})
	if err != nil {
		panic(err)
	}
	for i := 0; i < 4; i++ {
		if pages >= 40 {
			restart() // a page is not free before node collects it
		}
		o, as = &opened{}, answers{}
		err = current.try(open, o)
		pages++
		if err == nil {
			if o.Error != "" || c.Missing {
				return
			}
			if err = current.try(submit, &as); err == nil {
				return
			}
		}
		fmt.Fprintf(os.Stderr, "node failed: %v (%v)\n%s\n", err, current.cmd.ProcessState, current.errs)
		restart()
	}
	engine.Broken("node fails: %v", err)
	return
}

func names(msg, s string) bool {
	q := strconv.Quote(s)
	return strings.Contains(msg, s) || strings.Contains(msg, q[1:len(q)-1])
}

func decode(s string) (v any, ok bool) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return nil, false
	}
	return v, strings.TrimSpace(s[d.InputOffset():]) == ""
}

// markup are elements which the texts would insert.
var markup = map[string]bool{"x-verif": true, "img": true, "script": true, "iframe": true, "svg": true, "a": true, "style": true, "input": true}

func check(c visit, o *engine.Obs) {
	op, as := ask(c)
	if op.Error != "" {
		o.Failf("the page can not be opened: %s", op.Error)
	}
	if !op.Before.Disabled {
		o.Failf("the page accepts texts before its parser is loaded")
	}
	if c.Missing {
		o.NonTrivial()
		o.Class("missing")
		if !op.After.Disabled {
			o.Failf("the page accepts texts although its parser can not be loaded")
		}
		return
	}
	if op.After.Disabled {
		o.Failf("the page does not accept texts after its parser is loaded: %q", op.Errors)
	}
	if as.Error != "" {
		o.Failf("submitting %q: %s", c.Texts, as.Error)
	}
	if len(c.Texts) > 1 {
		o.NonTrivial()
	}
	for i, t := range c.Texts {
		s, a := string(t), as.Answers[i]
		where := fmt.Sprintf("text %d, %q,", i, s)
		if i > 0 {
			where += fmt.Sprintf(" after %q,", c.Texts[i-1])
		}
		if a.Navigates {
			o.Failf("%s leaves the page", where)
		}
		if !a.Settled || !a.State.Shown || a.State.Text == "" {
			o.Failf("%s shows nothing: %q", where, a.Errors)
		}
		for _, e := range a.State.Elements {
			if markup[e] {
				o.Failf("%s inserts the element %s", where, e)
			}
		}
		if a.State.Disabled {
			o.Failf("after %s the page does not accept texts", where)
		}
		got, isJSON := decode(a.State.Text)
		d, err := parser.ParseString(s)
		if err != nil {
			o.Class("refused")
			o.NonTrivial()
			if _, object := got.(map[string]any); isJSON && object || !names(a.State.Text, s) {
				o.Failf("%s which does not parse, shows\n%q", where, a.State.Text)
			}
			continue
		}
		o.Class("parses")
		enc, err := json.Marshal(d)
		if err != nil {
			panic(err)
		}
		want, _ := decode(string(enc))
		if !isJSON || !reflect.DeepEqual(got, want) {
			o.Failf("%s shows\n%q\nand the encoding of the library is\n%s", where, a.State.Text, enc)
		}
	}
}

// typed makes a string one which can be typed in to a text field.
func typed(s string) engine.Str {
	s = strings.ToValidUTF8(s, "?")
	return engine.Str(strings.NewReplacer("\n", "", "\r", "").Replace(s))
}

func text(t *rapid.T) engine.Str {
	switch gen.Int(t, "text", 0, 9) {
	case 0:
		return typed(gen.String(t))
	case 1:
		s := gen.Any(t)
		m := gen.Pick(t, "markup", "<x-verif>", "<b>", "</b>", "<img src=x onerror=alert(1)>", "<script>alert(1)</script>", "&lt;", "&#65;", "&amp;", "<!--", "<a href='javascript:0'>", "${s}", "\\u0041", "\"", "'", "`", "{}", "[1]", "<", ">", "null", "<svg onload=x>")
		i := gen.Int(t, "at", 0, 2)
		return typed([]string{m + s, s + m, m}[i])
	case 2, 3, 4, 5:
		return typed(gen.Valid(t))
	default:
		return typed(gen.Any(t))
	}
}

func draw(t *rapid.T) visit {
	c := visit{}
	n := gen.Int(t, "n", 1, 8)
	if gen.Chance(t, "many", 20) {
		n = gen.Int(t, "n", 9, 60)
	}
	for i := n; i > 0; i-- {
		s := text(t)
		if len(c.Texts) > 0 && gen.Chance(t, "repeated", 6) {
			s = gen.Pick(t, "which", c.Texts...)
		}
		if len(c.Texts) > 0 && gen.Chance(t, "twin", 4) {
			s = typed(gen.Twin(t, string(c.Texts[len(c.Texts)-1])))
		}
		c.Texts = append(c.Texts, s)
	}
	return c
}

func main() {
	engine.Main(engine.Check{
		ID:      "C26",
		Prepare: prepare,
		// node needs a large address space
		NoMemoryLimit: true,
		Assumptions: []string{
			"the page runs in a small document model under node, with the module as built from the working tree",
			"the library as linked in to this check says what the library says; its own correctness is decided by the other checks",
			"a text has no line breaks, which a text field does not take, and is valid UTF-8",
		},
		Legs: oracle.Legs(
			engine.Leg[visit]{
				Name: "visits",
				Rule: "the expressions of a catalogue, each with its neighbour in it, and sequences of 1 to 8, now and then 60, texts (expressions, strings, markup) submitted on a new page; non-trivial if there is more than one or one is refused",
				Sweep: func(_ bool, emit func(visit) bool) {
					for _, m := range []bool{true, false} {
						if !emit(visit{Missing: m, Texts: []engine.Str{"2004"}}) {
							return
						}
					}
					last := "<b>"
					for _, s := range gen.Catalogue {
						if !utf8.ValidString(s) || strings.ContainsAny(s, "\n\r") {
							continue
						}
						if !emit(visit{Texts: []engine.Str{engine.Str(last), engine.Str(s)}}) {
							return
						}
						last = s
					}
				},
				Gen:   draw,
				Quick: 1500, Thorough: 30000,
				Check: check,
				Setup: start,
				Slow:  true,
			},
		),
	})
}

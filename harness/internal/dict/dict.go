// Package dict finds the constants of the code under test: the numbers, texts and patterns which occur more often in
// its source than they did when the baseline was written. The generators prefer them, so that a case which the code
// singles out by a constant is generated, however rare it is. They guide the search and decide nothing.
package dict

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Repo is the tree whose constants are searched.
const Repo = "/repo"

//go:embed baseline.txt
var baseline string

// Words are the constants which are new.
type Words struct {
	Ints     []int64
	Strings  []string
	Patterns []string
}

// New returns the constants which the baseline does not have, or has less often.
var New = sync.OnceValue(func() *Words {
	known := map[string]int{}
	for _, l := range strings.Split(baseline, "\n") {
		if n, k, ok := strings.Cut(l, " "); ok {
			known[k], _ = strconv.Atoi(n)
		}
	}
	w := &Words{}
	ints := map[int64]bool{}
	texts := map[string]bool{}
	for k, n := range Count(Repo) {
		if n <= known[k] {
			continue
		}
		kind, v, _ := strings.Cut(k, " ")
		if kind == "int" {
			if i, err := strconv.ParseInt(v, 10, 64); err == nil {
				ints[i] = true
			}
			continue
		}
		s, err := strconv.Unquote(v)
		if err != nil || s == "" || len(s) > 200 {
			continue
		}
		if regexp.QuoteMeta(s) != s && strings.ContainsAny(s, `\^$[]()*+`) {
			if re, err := syntax.Parse(s, syntax.Perl); err == nil && re.Op != syntax.OpLiteral {
				w.Patterns = append(w.Patterns, s)
			}
		}
		if len(s) <= 40 && !strings.Contains(s, "github.com/") {
			texts[s] = true
		}
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			ints[i] = true
		}
	}
	for i := range ints {
		w.Ints = append(w.Ints, i)
	}
	for s := range texts {
		w.Strings = append(w.Strings, s)
	}
	sort.Slice(w.Ints, func(i, j int) bool { return w.Ints[i] < w.Ints[j] })
	sort.Strings(w.Strings)
	sort.Strings(w.Patterns)
	return w
})

var script = regexp.MustCompile(`"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*'|\b\d+\b`)

// Count counts the constants of a tree.
func Count(root string) map[string]int {
	m := map[string]int{}
	filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		name := d.Name()
		switch {
		case d.IsDir():
			if name == "vendor" || name == "tests" || path != root && strings.HasPrefix(name, ".") {
				return filepath.SkipDir
			}
		case strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go"):
			f, _ := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
			if f != nil {
				count(m, f)
			}
		case strings.HasSuffix(name, ".js") || strings.HasSuffix(name, ".html"):
			b, err := os.ReadFile(path)
			if err != nil || len(b) > 1<<15 {
				return nil
			}
			for _, s := range script.FindAllString(string(b), -1) {
				if s[0] == '"' || s[0] == '\'' {
					m["text "+strconv.Quote(s[1:len(s)-1])]++
				} else {
					m["int "+s]++
				}
			}
		}
		return nil
	})
	return m
}

func count(m map[string]int, f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				if i, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					m[fmt.Sprintf("int %d", i)]++
				}
			case token.FLOAT:
				if x, err := strconv.ParseFloat(n.Value, 64); err == nil && x == float64(int64(x)) {
					m[fmt.Sprintf("int %d", int64(x))]++
				}
			case token.STRING, token.CHAR:
				if s, err := strconv.Unquote(n.Value); err == nil {
					m["text "+strconv.Quote(s)]++
				}
			}
		}
		return true
	})
}

var variable = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9]*_[A-Za-z0-9_]+$|^[A-Z]{2,}$`)

// Environ adds to an environment the variables whose names are among the new constants.
func Environ(vars []string) []string {
	for _, x := range New().Strings {
		if variable.MatchString(x) && os.Getenv(x) == "" {
			vars = append(vars, x+"=1")
		}
	}
	return vars
}

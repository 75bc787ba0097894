// C24: the demo server serves exactly the embedded application.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"mime"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
	"verif/harness/internal/engine"
	"verif/harness/internal/gen"
	"verif/harness/internal/oracle"
)

func dir() string { return filepath.Join(engine.Out(), "C24") }

func bin() string { return filepath.Join(dir(), "server-wasm") }

const (
	www  = engine.Repo + "/app/server/www"
	wasm = engine.Repo + "/wasm"
)

// prepare builds the WebAssembly modules and the server which embeds them. The modules are build products, which
// need not be there: they are laid over the working tree.
func prepare() error {
	if err := os.RemoveAll(dir()); err != nil {
		return err
	}
	replace := map[string]string{}
	for _, b := range []struct {
		out, cmd string
		env      []string
		tag      string
	}{
		{"parse-p1.wasm", "./cmd/parse-wasi", []string{"GOOS=wasip1", "GOARCH=wasm"}, "wasip1"},
		{"parse-js.wasm", "./cmd/parse-wasm", []string{"GOOS=js", "GOARCH=wasm"}, "wasmjs"},
	} {
		out := filepath.Join(dir(), "wasm", b.out)
		if err := engine.GoBuild(out, b.env, "-ldflags=-s -w", "-tags", b.tag, b.cmd); err != nil {
			return err
		}
		replace[filepath.Join(wasm, b.out)] = out
	}
	overlay := filepath.Join(dir(), "overlay.json")
	b, err := json.Marshal(map[string]any{"Replace": replace})
	if err != nil {
		return err
	}
	if err := os.WriteFile(overlay, b, 0o644); err != nil {
		return err
	}
	return engine.GoBuild(bin(), nil, "-overlay", overlay, "./cmd/server-wasm")
}

// files are the paths which the server is to serve, with their contents.
func files() (map[string][]byte, error) {
	m := map[string][]byte{}
	add := func(prefix, pattern string) error {
		ps, err := filepath.Glob(pattern)
		if err != nil {
			return err
		}
		for _, p := range ps {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[prefix+filepath.Base(p)] = b
		}
		return nil
	}
	for _, x := range [][2]string{
		{"/", www + "/*.html"},
		{"/css/", www + "/css/*"},
		{"/javascript/", www + "/javascript/*"},
		{"/wasm/", wasm + "/*.wasm"},
		{"/wasm/", dir() + "/wasm/*.wasm"},
	} {
		if err := add(x[0], x[1]); err != nil {
			return nil, err
		}
	}
	if m["/index.html"] != nil {
		m["/"] = m["/index.html"]
	}
	return m, nil
}

const canary = "CANARY-outside-of-the-embedded-sets"

// scratch makes the directory in which the server runs: it has files in it, and around it, under names which exist
// and which do not exist in the embedded sets. None of them may ever be served.
func scratch() (string, error) {
	top, err := os.MkdirTemp("", "verif-c24-")
	if err != nil {
		return "", err
	}
	cwd := filepath.Join(top, "deep", "cwd")
	for _, f := range []string{
		"index.html", "secret.txt", "secret.html", "css/index.css", "css/secret.css", "javascript/index.js",
		"wasm/parse-js.wasm", "wasm/secret.wasm", "app/server/www/index.html", "www.go", "Makefile", "wasm.go", "wasm/wasm.go",
		"../secret.txt", "../../secret.txt", "../index.html", "../wasm/parse-js.wasm", "../../css/index.css", "go.mod", "parse-js.wasm",
	} {
		p := filepath.Join(cwd, f)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return top, err
		}
		if err := os.WriteFile(p, []byte(canary+" "+f), 0o644); err != nil {
			return top, err
		}
	}
	return top, nil
}

// server is a running server.
type server struct {
	cmd  *exec.Cmd
	addr string
	top  string
	errs *bytes.Buffer
	gone chan struct{}
}

func freePort(host string) (int, error) {
	l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	if err != nil {
		return 0, err
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port, nil
}

func start(host string, port int, args []string) (*server, error) {
	top, err := scratch()
	if err != nil {
		return nil, err
	}
	s := &server{addr: net.JoinHostPort(host, strconv.Itoa(port)), top: top, errs: &bytes.Buffer{}, gone: make(chan struct{})}
	s.cmd = exec.Command(bin(), args...)
	s.cmd.Dir = filepath.Join(top, "deep", "cwd")
	s.cmd.Stderr = s.errs
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	started := make(chan error)
	go func() {
		runtime.LockOSThread()
		err := s.cmd.Start()
		started <- err
		if err == nil {
			s.cmd.Wait()
		}
		close(s.gone)
		select {}
	}()
	if err := <-started; err != nil {
		os.RemoveAll(top)
		return nil, err
	}
	for deadline := time.Now().Add(60 * time.Second); time.Now().Before(deadline); time.Sleep(10 * time.Millisecond) {
		select {
		case <-s.gone:
			defer os.RemoveAll(top)
			return nil, fmt.Errorf("the server with %q ends: %s", args, s.errs)
		default:
		}
		c, err := net.DialTimeout("tcp", s.addr, time.Second)
		if err == nil {
			c.Close()
			return s, nil
		}
	}
	s.stop()
	return nil, fmt.Errorf("the server with %q does not listen on %s: %s", args, s.addr, s.errs)
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.gone
	os.RemoveAll(s.top)
}

var (
	running *server
	content map[string][]byte
)

func setup() (func(), error) {
	var err error
	if content, err = files(); err != nil {
		return nil, err
	}
	if len(content) < 5 {
		return nil, fmt.Errorf("there are only %d files to serve", len(content))
	}
	for i := 0; i < 10; i++ {
		var port int
		if port, err = freePort("127.0.0.1"); err != nil {
			continue
		}
		// the port may have been taken meanwhile
		if running, err = start("127.0.0.1", port, []string{"-host", "127.0.0.1", "-port", strconv.Itoa(port)}); err == nil {
			return func() { running.stop() }, nil
		}
	}
	return nil, err
}

type request struct {
	Method string     `json:"method"`
	Target engine.Str `json:"target"`
	// Headers are further lines of the request, none of which asks for another answer.
	Headers []string `json:"headers,omitempty"`
	// Old is a request of HTTP/1.0.
	Old bool `json:"old,omitempty"`
	// From and To are the range of bytes asked for, if To is positive: it may be answered in full.
	From int `json:"from,omitempty"`
	To   int `json:"to,omitempty"`
}

type response struct {
	status   int
	location string
	body     []byte
	// span is the range of bytes which the body is
	span string
	// kind is the media type
	kind string
}

// kinds are the media types of files which a browser makes use of.
var kinds = map[string][]string{
	".html": {"text/html", "application/xhtml+xml"},
	".css":  {"text/css"},
	".js":   {"text/javascript", "application/javascript", "application/x-javascript", "text/ecmascript", "application/ecmascript"},
	".wasm": {"application/wasm"},
}

// checkKind checks that a file is answered with its media type: browsers run, style by and compile nothing else.
func checkKind(c request, p string, r *response, o *engine.Obs) {
	if strings.HasSuffix(p, "/") {
		p += "index.html"
	}
	want := kinds[path.Ext(p)]
	got, _, err := mime.ParseMediaType(r.kind)
	if want != nil && (err != nil || !slices.Contains(want, got)) {
		o.Failf("%s %s yields the media type %q, expected %s", c.Method, c.Target, r.kind, strings.Join(want, " or "))
	}
}

// raw sends a request target just as it is.
func raw(addr string, q request, target string) (*response, error) {
	method := q.Method
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	var head strings.Builder
	if q.Old {
		fmt.Fprintf(&head, "%s %s HTTP/1.0\r\n", method, target)
	} else {
		fmt.Fprintf(&head, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n", method, target, addr)
	}
	if q.To > 0 {
		fmt.Fprintf(&head, "Range: bytes=%d-%d\r\n", q.From, q.To-1)
	}
	for _, h := range q.Headers {
		head.WriteString(h + "\r\n")
	}
	head.WriteString("\r\n")
	if _, err := io.WriteString(c, head.String()); err != nil {
		return nil, err
	}
	req, _ := http.NewRequest(method, "http://"+addr+"/", nil)
	r, err := http.ReadResponse(bufio.NewReader(c), req)
	if err != nil {
		return nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	if r.Header.Get("Content-Encoding") == "gzip" && len(b) > 0 {
		// it must have been accepted
		if !strings.Contains(strings.Join(q.Headers, "\n"), "gzip") {
			return nil, fmt.Errorf("the answer is compressed")
		}
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		if b, err = io.ReadAll(z); err != nil {
			return nil, err
		}
	}
	return &response{r.StatusCode, r.Header.Get("Location"), b, r.Header.Get("Content-Range"), r.Header.Get("Content-Type")}, nil
}

// named returns the path which a request target names, after decoding and cleaning.
func named(target string) (p string, ok bool) {
	u, err := url.ParseRequestURI(target)
	if err != nil || !strings.HasPrefix(u.Path, "/") {
		return "", false
	}
	p = path.Clean(u.Path)
	if strings.HasSuffix(u.Path, "/") && p != "/" {
		p += "/"
	}
	return p, true
}

// directory reports whether a path names a directory of embedded files: what is answered there is left open.
func directory(p string) bool {
	// the index of a directory stands for the directory
	p = strings.TrimSuffix(strings.TrimSuffix(p, "/"), "/index.html")
	for f := range content {
		if strings.HasPrefix(f, p+"/") || strings.HasPrefix(f, p) && p == "" {
			return true
		}
		// a file with a slash after it
		if f == p && f != "/" {
			return true
		}
	}
	return false
}

// redirectedToDirectory reports whether a request has come to a directory by redirections, as those to the index of
// anything do.
func redirectedToDirectory(from, to string) bool {
	p, ok := named(to)
	q, _ := named(from)
	return from != to && ok && (directory(p) && content[p] == nil || p == "/" && strings.HasSuffix(q, "/index.html"))
}

func checkRequest(c request, o *engine.Obs) {
	target := string(c.Target)
	p, ok := named(target)
	want, isFile := content[p]
	r, err := raw(running.addr, c, target)
	if err != nil {
		select {
		case <-running.gone:
			o.Failf("%s %s: %v; the server is gone: %s", c.Method, target, err, running.errs)
		default:
		}
		o.Failf("%s %s: %v", c.Method, target, err)
	}
	for i := 0; r.status >= 301 && r.status <= 308 && r.location != ""; i++ {
		if i > 10 {
			o.Failf("%s %s is redirected without end", c.Method, target)
		}
		base, err := url.ParseRequestURI(target)
		if err != nil {
			o.Failf("%s is redirected to %s", target, r.location)
		}
		ref, err := url.Parse(r.location)
		if err != nil {
			o.Failf("%s is redirected to %q: %v", target, r.location, err)
		}
		next := base.ResolveReference(ref)
		if next.Host != "" && next.Host != running.addr {
			// a target such as //host/path is a path, and is not to be sent elsewhere
			o.Failf("%s is redirected to another host, %s", target, r.location)
		}
		target = next.RequestURI()
		if r, err = raw(running.addr, c, target); err != nil {
			o.Failf("%s %s, redirected to %s: %v", c.Method, c.Target, target, err)
		}
		o.Class("redirected")
	}
	if bytes.Contains(r.body, []byte(canary)) {
		o.Failf("%s %s yields a file which is not embedded: %q", c.Method, c.Target, r.body)
	}
	switch {
	case ok && isFile:
		o.Class("file")
		if u, err := url.ParseRequestURI(string(c.Target)); r.status == 404 && err == nil && u.RawPath != "" {
			// http.StripPrefix does not recognise a prefix with needlessly escaped letters
			o.Class("file, needlessly escaped, not found")
			return
		}
		if c.To > 0 && (r.status == 206 || r.status == 416) {
			to := min(c.To, len(want))
			if r.status == 206 && (c.From >= to || r.span != fmt.Sprintf("bytes %d-%d/%d", c.From, to-1, len(want)) || c.Method == "GET" && !bytes.Equal(r.body, want[c.From:to])) || r.status == 416 && c.From < len(want) {
				o.Failf("%s %s, the bytes %d to %d, yields the status %d, the range %s and %d bytes", c.Method, c.Target, c.From, c.To, r.status, r.span, len(r.body))
			}
			if r.status == 206 {
				checkKind(c, p, r, o)
			}
			o.Class("range of a file")
			o.NonTrivial()
			return
		}
		if r.status != 200 {
			o.Failf("%s %s, which is embedded, yields the status %d (%q)", c.Method, c.Target, r.status, c.Headers)
		}
		if c.Method == "HEAD" {
			want = nil
		}
		if !bytes.Equal(r.body, want) {
			o.Failf("%s %s yields %d bytes which are not the %d bytes of the file: %.80q", c.Method, c.Target, len(r.body), len(want), r.body)
		}
		checkKind(c, p, r, o)
		o.NonTrivial()
	case ok && directory(p), r.status != 404 && redirectedToDirectory(string(c.Target), target):
		o.Class("directory")
	default:
		o.Class("status %d", r.status)
		o.NonTrivial()
		// what is no request target at all is a bad request
		if r.status != 404 && !(r.status == 400 && (!ok || strings.ContainsAny(p, "\x00"))) {
			o.Failf("%s %s, which is not embedded, yields the status %d and %.80q", c.Method, c.Target, r.status, r.body)
		}
	}
}

var paths []string

func sorted() []string {
	if paths != nil {
		return paths
	}
	fs, err := files()
	if err != nil {
		panic(err)
	}
	var ps []string
	for p := range fs {
		ps = append(ps, p)
	}
	// any fixed order
	for i := range ps {
		for j := i + 1; j < len(ps); j++ {
			if ps[j] < ps[i] {
				ps[i], ps[j] = ps[j], ps[i]
			}
		}
	}
	paths = ps
	return ps
}

// escape encodes some bytes of a path.
func escape(t *rapid.T, p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-_.~/", c) >= 0
		if !plain || i > 0 && gen.Chance(t, "escape", 6) {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

// decorations are what servers are known to strip from, or to add to, the name of a file: suffixes, or what starts
// with a slash and a star, prefixes; ">x" replaces the extension by x.
var decorations = []string{
	"/", "/.", "/..", "//", "/index.html", "/x", ".", "..", "...", "~", "#", " ", "+", "$", "%", ":", ";", ";x", ",", "_", "-", "\\", "::$DATA", "\x00",
	".gz", ".br", ".zst", ".bak", ".old", ".orig", ".tmp", ".swp", ".map", ".txt", ".html", ".htm", ".js", ".css", ".wasm", ".json", ".go", ".min", ".1", ".d", ".en", ".sig", ".sha256", ".mod", ".ts", ".wat",
	"@1", "@latest", "!", "'", "\"", "(1)", "&x=1", "=",
	">", ">.htm", ">.html", ">.js", ">.mjs", ">.min.js", ">.css", ">.min.css", ">.wasm", ">.json", ">.txt", ">.go", ">.php", ">.ts", ">.map", ">-1.0.0.js", ">.bundle.js",
	"*.", "*_", "*~", "*index/", "*public/", "*static/", "*dist/", "*assets/", "*wasm/", "*www/", "*app/", "*app/server/www/", "*v1/", "*api/", "*css/", "*javascript/", "*js/", "*./", "*../", "*%2e%2e/", "*embed/", "*files/", "*@fs/", "*en/", "*cgi-bin/", "*localhost/", "*http:/",
}

func decorate(p, d string) string {
	switch {
	case strings.HasPrefix(d, ">"):
		return strings.TrimSuffix(p, path.Ext(p)) + d[1:]
	case strings.HasPrefix(d, "*"):
		return "/" + d[1:] + strings.TrimPrefix(p, "/")
	}
	return p + d
}

// escaped encodes what a path must not contain, a percent sign excepted.
func escaped(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if c := p[i]; c > ' ' && c < 0x7f && !strings.ContainsRune("#?\"<>\\^`{|}", rune(c)) {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func draw(t *rapid.T) request {
	fs := sorted()
	p := gen.Pick(t, "file", fs...)
	switch gen.Int(t, "kind", 0, 11) {
	case 0, 1: // a file
	case 2: // elsewhere
		p = gen.Pick(t, "prefix", "/wasm", "/css", "/javascript", "/html", "/app", "/static", "/www") + p
	case 3: // without its directory
		p = "/" + path.Base(p)
	case 4: // in the wrong directory
		p = gen.Pick(t, "dir", "/wasm/", "/css/", "/javascript/", "/") + path.Base(p)
	case 5: // traversal
		n := gen.Int(t, "up", 1, 5)
		p = gen.Pick(t, "from", "/", "/wasm/", "/css/", "/wasm/x/", "/javascript/./") + strings.Repeat(gen.Pick(t, "dots", "../", "..//", "./../", "..\\", ".../"), n) + gen.Pick(t, "target", "secret.txt", "index.html", "wasm/secret.wasm", "css/secret.css", "etc/passwd", "Makefile", "wasm/wasm.go", "go.mod", "deep/cwd/secret.txt", "www.go", "css/index.css")
	case 6: // not embedded, but there
		p = gen.Pick(t, "source", "/Makefile", "/www.go", "/wasm/wasm.go", "/wasm.go", "/go.mod", "/secret.txt", "/secret.html", "/css/secret.css", "/wasm/secret.wasm", "/app/server/www/index.html", "/cmd/server-wasm/main.go", "/README.md", "/.git/config", "/etc/passwd", "/proc/self/environ", "/debug/pprof/", "/metrics", "/healthz", "/favicon.ico", "/wasm/index.html", "/wasm/css/index.css")
	case 7: // a slip of the pen
		i := gen.Int(t, "at", 1, len(p))
		switch gen.Int(t, "slip", 0, 3) {
		case 0:
			p = p[:i] + gen.Pick(t, "insert", "x", ".", "/", "~", "%", " ", "é", "\x01", "\x00", ";", ":", "*", "?") + p[i:]
		case 1:
			p = p[:i-1] + p[i:]
		case 2:
			p = p[:i]
		case 3:
			p = strings.ToUpper(p)
		}
	case 8: // superfluous separators
		p = strings.Replace(p, "/", gen.Pick(t, "separator", "//", "/./", "/x/../", "///"), gen.Int(t, "times", 1, 2))
	case 9: // suffixes
		p = decorate(p, gen.Pick(t, "suffix", decorations...))
	case 10:
		p = "/" + gen.String(t)
	case 11:
		p = "/" + rapid.StringMatching(`[a-z/.%0-9-]{0,20}`).Draw(t, "path")
	}
	if x, ok := gen.FreshText(t); ok && len(x) > 1 {
		p = gen.Pick(t, "fresh path", x, p+x, path.Dir(p)+"/"+x, strings.TrimSuffix(p, path.Ext(p))+x)
	}
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	q := escape(t, p)
	if gen.Chance(t, "double", 20) {
		q = strings.ReplaceAll(q, "%", "%25")
	}
	if gen.Chance(t, "query", 6) {
		q += gen.Pick(t, "query", "?", "?x=1", "?/../../secret.txt", "?edtf=2004", "?q="+strings.Repeat("2004,", 1000))
	}
	if x, ok := gen.FreshText(t); ok {
		q += "?" + url.QueryEscape(x) + gen.Pick(t, "assigned", "", "=", "=1", "=true")
	}
	r := request{Method: gen.Pick(t, "method", "GET", "GET", "GET", "HEAD"), Target: engine.Str(q)}
	if x, ok := gen.FreshText(t); ok && headerName.MatchString(x) && !framing[strings.ToLower(x)] {
		r.Headers = append(r.Headers, x+": "+gen.Pick(t, "header", "1", "true", "gzip", "x"))
	} else if ok && headerValue.MatchString(x) {
		r.Headers = append(r.Headers, gen.Pick(t, "name", "User-Agent", "Accept", "Accept-Language", "Referer", "Cookie", "Origin")+": "+x)
	}
	for gen.Chance(t, "header", 3) && len(r.Headers) < 6 {
		r.Headers = append(r.Headers, gen.Pick(t, "line", headerLines...))
	}
	if gen.Chance(t, "long header", 12) {
		r.Headers = append(r.Headers, gen.Pick(t, "long", "Cookie: session=", "Referer: http://example.com/?q=", "X-Padding: ", "Authorization: Bearer ")+strings.Repeat("x", gen.Int(t, "length", 500, 14000)))
	}
	r.Old = gen.Chance(t, "old", 10)
	if gen.Chance(t, "range", 12) {
		r.From = gen.Pick(t, "from", 0, 0, 1, 100, 4096, 1<<20, 1<<28)
		r.To = r.From + gen.Pick(t, "bytes", 1, 2, 100, 5000, 1<<20, 1<<28)
	}
	return r
}

var (
	headerName  = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9-]*$`)
	headerValue = regexp.MustCompile(`^[!-~]+$`)
	// framing are headers which say how to read a request, or what to answer
	framing = map[string]bool{"host": true, "connection": true, "content-length": true, "transfer-encoding": true, "upgrade": true, "expect": true, "te": true, "trailer": true, "range": true, "if-range": true, "if-match": true, "if-none-match": true, "if-modified-since": true, "if-unmodified-since": true, "proxy-connection": true, "keep-alive": true}
)

// headerLines are what clients send along, and what makes no difference to a file.
var headerLines = []string{
	"Accept-Encoding: gzip, deflate, br", "Accept-Encoding: gzip", "Accept-Encoding: identity", "Accept-Encoding: br;q=1.0, *;q=0.5", "Accept: text/html", "Accept: application/json", "Accept: application/wasm", "Accept: image/png", "Accept: */*;q=0.1",
	"Accept-Language: fr", "Accept-Language: de;q=0.9, en;q=0.1", "Accept-Charset: iso-8859-1", "User-Agent: curl/8.0", "User-Agent: Mozilla/5.0 (X11; Linux) Gecko", "User-Agent: ", "User-Agent: Googlebot/2.1", "Cookie: session=1", "Cookie: a=b; c=\"d", "Referer: http://example.com/", "Referer: http://127.0.0.1/css/index.css",
	"Origin: http://example.com", "Origin: null", "X-Forwarded-For: 10.0.0.1", "X-Forwarded-Host: example.com", "X-Forwarded-Proto: https", "X-Forwarded-Prefix: /app", "X-Original-URL: /secret.txt", "X-Rewrite-URL: /secret.txt", "X-HTTP-Method-Override: DELETE", "Forwarded: host=example.com", "Authorization: Basic YTpi", "Cache-Control: no-cache", "Pragma: no-cache", "If-None-Match: \"x\"", "If-Modified-Since: Mon, 01 Jan 1990 00:00:00 GMT",
	"Sec-Fetch-Dest: script", "Sec-Fetch-Mode: no-cors", "Sec-Fetch-Site: cross-site", "Upgrade-Insecure-Requests: 1", "DNT: 1", "TE: trailers", "Via: 1.1 proxy", "Content-Type: application/json", "Content-Length: 0", "Save-Data: on", "Service-Worker: script", "X-Requested-With: XMLHttpRequest", "Purpose: prefetch", "X-Padding: ................................................................................................................................................................",
}

// burst is a number of requests for embedded files, sent together over kept connections.
type burst struct {
	Paths []string `json:"paths"`
	Host  string   `json:"host"`
	Plain bool     `json:"plain"`
}

func checkBurst(c burst, o *engine.Obs) {
	tr := &http.Transport{DisableCompression: c.Plain, MaxIdleConnsPerHost: 4}
	defer tr.CloseIdleConnections()
	client := &http.Client{Transport: tr, Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	faults := make([]string, len(c.Paths))
	var wg sync.WaitGroup
	for i, p := range c.Paths {
		wg.Add(1)
		go func() {
			defer wg.Done()
			req, err := http.NewRequest("GET", "http://"+running.addr+p, nil)
			if err != nil {
				panic(err)
			}
			if c.Host != "" {
				req.Host = c.Host
			}
			r, err := client.Do(req)
			if err != nil {
				faults[i] = err.Error()
				return
			}
			defer r.Body.Close()
			b, err := io.ReadAll(r.Body)
			if err != nil || r.StatusCode != 200 || !bytes.Equal(b, content[p]) {
				faults[i] = fmt.Sprintf("status %d, %d bytes, expected %d, %v", r.StatusCode, len(b), len(content[p]), err)
			}
		}()
	}
	wg.Wait()
	o.NonTrivial()
	o.Class("%d requests", len(c.Paths))
	for i, f := range faults {
		if f != "" {
			o.Failf("GET %s, one of %q with the Host header %q: %s", c.Paths[i], c.Paths, c.Host, f)
		}
	}
}

// patience is a client which keeps the server waiting.
type patience struct {
	Path string `json:"path"`
	// Idle is the number of connections which are open meanwhile, half of them with a part of a request.
	Idle int `json:"idle"`
	// Wait is how long the client takes in all, in milliseconds.
	Wait int `json:"wait"`
}

func checkPatience(c patience, o *engine.Obs) {
	o.NonTrivial()
	o.Class("%d s", c.Wait/1000)
	var idle []net.Conn
	defer func() {
		for _, c := range idle {
			c.Close()
		}
	}()
	dial := func() net.Conn {
		d := net.Dialer{Timeout: 20 * time.Second, Control: func(_, _ string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
		}}
		conn, err := d.Dial("tcp", running.addr)
		if err != nil {
			o.Failf("with %d other connections: %v", len(idle), err)
		}
		return conn
	}
	for i := 0; i < c.Idle; i++ {
		conn := dial()
		if i%2 == 1 {
			fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost:", c.Path)
		}
		idle = append(idle, conn)
	}
	conn := dial()
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(time.Duration(c.Wait)*time.Millisecond + 60*time.Second))
	if _, err := fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", c.Path, running.addr); err != nil {
		o.Failf("GET %s: %v", c.Path, err)
	}
	br := bufio.NewReaderSize(conn, 4096)
	r, err := http.ReadResponse(br, nil)
	if err != nil {
		o.Failf("GET %s with %d other connections: %v", c.Path, c.Idle, err)
	}
	defer r.Body.Close()
	want := content[c.Path]
	var got []byte
	buf := make([]byte, len(want)/10+1)
	for i := 0; i < 10 && err == nil; i++ {
		time.Sleep(time.Duration(c.Wait/10) * time.Millisecond)
		var n int
		n, err = io.ReadFull(r.Body, buf)
		got = append(got, buf[:n]...)
	}
	if err == nil || err == io.EOF || err == io.ErrUnexpectedEOF {
		rest, err2 := io.ReadAll(r.Body)
		got = append(got, rest...)
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			err = nil
		}
		if err2 != nil {
			err = err2
		}
	}
	if err != nil || r.StatusCode != 200 || !bytes.Equal(got, want) {
		o.Failf("GET %s, read slowly, in %d ms, with %d other connections: status %d, %d bytes, expected %d, %v", c.Path, c.Wait, c.Idle, r.StatusCode, len(got), len(want), err)
	}
}

// address is one which the server is told to listen on.
type address struct {
	Host   string   `json:"host"`
	Order  bool     `json:"port_first"`
	Equals bool     `json:"equals"`
	Probe  []string `json:"others"`
}

func checkAddress(c address, o *engine.Obs) {
	if content == nil {
		var err error
		if content, err = files(); err != nil {
			panic(err)
		}
	}
	dial := strings.Trim(c.Host, "[]")
	if strings.Contains(dial, ":") {
		l, err := net.Listen("tcp", net.JoinHostPort(dial, "0"))
		if err != nil {
			o.Class("no IPv6 here")
			return
		}
		l.Close()
	}
	var s *server
	var err error
	var port int
	for i := 0; i < 10; i++ {
		if port, err = freePort(dial); err != nil {
			engine.Broken("%v", err)
		}
		host, num := []string{"-host", c.Host}, []string{"-port", strconv.Itoa(port)}
		if c.Equals {
			host, num = []string{"-host=" + c.Host}, []string{"-port=" + strconv.Itoa(port)}
		}
		args := append(append([]string{}, host...), num...)
		if c.Order {
			args = append(append([]string{}, num...), host...)
		}
		if s, err = start(dial, port, args); err == nil || !strings.Contains(err.Error(), "address already in use") {
			break
		}
	}
	if err != nil {
		o.Failf("with host %s and port %d: %v", c.Host, port, err)
	}
	defer s.stop()
	o.NonTrivial()
	if c.Host == "localhost" {
		o.Class("localhost")
	} else if strings.Contains(dial, ":") {
		o.Class("IPv6")
	} else {
		o.Class("127.0.0.x")
	}
	r, err := raw(s.addr, request{Method: "GET"}, "/css/index.css")
	if err != nil || r.status != 200 || !bytes.Equal(r.body, content["/css/index.css"]) {
		o.Failf("on %s: %v, %v", s.addr, r, err)
	}
	// it is this server which listens there, and on no other address
	for _, h := range c.Probe {
		if strings.Contains(s.errs.String(), "listen tcp") {
			break
		}
		conn, err := net.DialTimeout("tcp", net.JoinHostPort(h, strconv.Itoa(port)), 5*time.Second)
		if err != nil {
			continue
		}
		conn.Close()
		// somebody else may have come to use this port there: it is not this server if it goes on after its end
		s.stop()
		if conn, err := net.DialTimeout("tcp", net.JoinHostPort(h, strconv.Itoa(port)), 5*time.Second); err == nil {
			conn.Close()
			return
		}
		o.Failf("the server with host %s and port %d listens on %s, too", c.Host, port, h)
	}
}

func main() {
	engine.Main(engine.Check{
		ID:      "C24",
		Prepare: prepare,
		// the children inherit the limit
		NoMemoryLimit: true,
		Assumptions: []string{
			"the embedded application is app/server/www/*.html, css/* and javascript/*, the modules are wasm/*.wasm as built from the working tree; '/' stands for index.html",
			"what is answered for a directory, or for a file with a slash after it, is left open; redirections are followed; a path with needlessly escaped letters may be not found",
			"the default host and port are not tried, as the port may be taken",
		},
		Legs: oracle.Legs(
			engine.Leg[request]{
				Name: "requests",
				Rule: "all embedded files, and random targets: files elsewhere, traversals, source files, misspelt, escaped, doubled and suffixed paths, sent as they are over the loopback network to a server running in a directory with other files of the same and of other names; with header lines of all kinds, some long, some for a range of bytes, some of HTTP/1.0; non-trivial if the target names a file or nothing at all",
				Sweep: func(_ bool, emit func(request) bool) {
					for _, p := range sorted() {
						if !emit(request{Method: "GET", Target: engine.Str(p)}) || !emit(request{Method: "HEAD", Target: engine.Str(p)}) {
							return
						}
					}
					for _, p := range sorted() {
						for _, d := range decorations {
							for _, q := range []string{decorate(p, d), path.Dir(p) + decorate("/"+path.Base(p), d)} {
								if !emit(request{Method: "GET", Target: engine.Str(escaped(q))}) {
									return
								}
							}
						}
						for _, q := range []string{strings.ToUpper(p), path.Dir(p) + "/" + strings.ToUpper(path.Base(p)), strings.Title(p), "/" + strings.ReplaceAll(p[1:], "/", "-"), "/" + strings.ReplaceAll(p[1:], "/", "\\"), "/" + strings.ReplaceAll(p[1:], ".", "-"), strings.ReplaceAll(p, ".", "/"), p + p} {
							if !emit(request{Method: "GET", Target: engine.Str(escaped(q))}) {
								return
							}
						}
					}
					for _, p := range []string{"/Makefile", "/www.go", "/wasm/wasm.go", "/wasm/secret.wasm", "/secret.txt", "/../secret.txt", "/wasm/../../secret.txt", "/wasm/..%2f..%2fsecret.txt", "/css/../www.go", "/%2e%2e/secret.txt", "/..%5csecret.txt", "/wasm/parse-js.wasm.gz", "/parse-js.wasm", "/css/secret.css", "/index.htm", "/javascript/parse-js.wasm"} {
						if !emit(request{Method: "GET", Target: engine.Str(p)}) {
							return
						}
					}
				},
				Gen:   draw,
				Quick: 8000, Thorough: 200000,
				Check: checkRequest,
				Setup: setup,
				Slow:  true,
			},
			engine.Leg[burst]{
				Name: "bursts",
				Rule: "2 to 16 requests for embedded files at the same time, over kept connections, with and without compression and with other Host headers; non-trivial always",
				Gen: func(t *rapid.T) burst {
					b := burst{Host: gen.Pick(t, "host", "", "", "example.com", "localhost"), Plain: rapid.Bool().Draw(t, "plain")}
					for i := gen.Int(t, "n", 2, 16); i > 0; i-- {
						p := gen.Pick(t, "file", sorted()...)
						if !strings.HasSuffix(p, "/index.html") {
							b.Paths = append(b.Paths, p)
						}
					}
					return b
				},
				Quick: 240, Thorough: 6000,
				Check: checkBurst,
				Setup: setup,
				Slow:  true,
			},
			engine.Leg[patience]{
				Name: "patience",
				Rule: "clients which take up to 12 seconds (thorough: 130) to read a file, while hundreds of connections are open, some with an unfinished request; non-trivial always",
				Sweep: func(thorough bool, emit func(patience) bool) {
					for i, p := range []string{"/wasm/parse-js.wasm", "/wasm/parse-p1.wasm", "/javascript/wasm_exec.js", "/css/index.css", "/wasm/parse-js.wasm", "/wasm/parse-js.wasm", "/", "/wasm/parse-p1.wasm"} {
						c := patience{p, []int{0, 10, 300, 100}[i%4], []int{12000, 3000, 500, 6000}[i%4]}
						if thorough && i%4 == 0 {
							c.Wait = 130000
						}
						if content[p] == nil && len(sorted()) > 0 {
							c.Path = sorted()[i%len(sorted())]
						}
						if strings.HasSuffix(c.Path, "/index.html") {
							c.Path = "/"
						}
						if !emit(c) {
							return
						}
					}
				},
				Check: checkPatience,
				Setup: setup,
				Slow:  true,
			},
			engine.Leg[address]{
				Name: "addresses",
				Rule: "servers started on random loopback addresses, of either version of the protocol, and free ports, with the flags in either order and form; other loopback addresses must not answer; non-trivial always",
				Gen: func(t *rapid.T) address {
					a := address{Host: "127.0.0." + strconv.Itoa(gen.Int(t, "host", 1, 200)), Order: rapid.Bool().Draw(t, "order"), Equals: rapid.Bool().Draw(t, "equals")}
					if gen.Chance(t, "localhost", 5) {
						a.Host = "localhost"
						a.Probe = []string{"127.0.0.77"}
						return a
					}
					if gen.Chance(t, "version 6", 8) {
						a.Host = gen.Pick(t, "form", "::1", "[::1]")
						a.Probe = []string{"127.0.0.77", "127.0.0.1"}
						return a
					}
					a.Probe = []string{"127.0.0." + strconv.Itoa(gen.Int(t, "probe", 201, 250))}
					return a
				},
				Quick: 64, Thorough: 1000,
				Check: checkAddress,
				Slow:  true,
			},
		),
	})
}

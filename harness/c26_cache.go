package main

// C26: the cache of files holds complete files only.

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/sugarme/tokenizer"
	"pgregory.net/rapid"
)

type cacheReply struct {
	Kind string // ok chunked redirect 404 500 403 204 short cut reset down
	Ver  int    // which content
	Size int
}

type cacheStep struct {
	// get: one file; together: the same one three times at once; various: three
	// files at once; put, putdir, drop: a local file, a local directory in its
	// place, neither; block, unblock: the place of a model in the cache cannot be written
	Op      string
	Name    int
	File    int
	Replies []cacheReply
	Size    int
	Limit   int // when not 0, no file can be written beyond this size
}

type fileCacheCase struct {
	Steps   []cacheStep
	Env     bool // the directory comes from the environment
	There   bool // it exists
	Blocked bool // nothing can be written to where it is, at first
}

var cacheNames = []string{"bert", "org/model", "a/b"}
var cacheFiles = []string{"tokenizer.json", "vocab.txt"}

func cacheContent(ver, size int) string {
	line := fmt.Sprintf("content %d\n", ver)
	return strings.Repeat(line, size/len(line)+1)[:size]
}

// oneServer is shared by all cases of a worker.
type fileServer struct {
	mu       sync.Mutex
	replies  map[string][]cacheReply // by path, next first
	requests int
	bad      string
	served   map[string]map[string]bool // path -> contents sent as a whole
}

// down consumes an outage.
func (s *fileServer) down(path string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := s.replies[path]
	if len(q) == 0 || q[0].Kind != "down" {
		return false
	}
	s.requests++
	if len(q) > 1 {
		s.replies[path] = q[1:]
	}
	return true
}

func (s *fileServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	if p, ok := strings.CutPrefix(r.URL.Path, "/moved"); ok {
		s.mu.Unlock()
		ver, _ := strconv.Atoi(r.URL.Query().Get("v"))
		size, _ := strconv.Atoi(r.URL.Query().Get("n"))
		s.send(w, p, cacheReply{"ok", ver, size})
		return
	}
	s.requests++
	q := s.replies[r.URL.Path]
	if len(q) == 0 {
		s.mu.Unlock()
		w.WriteHeader(http.StatusNotFound)
		return
	}
	rep := q[0]
	if len(q) > 1 {
		s.replies[r.URL.Path] = q[1:]
	}
	s.mu.Unlock()
	s.send(w, r.URL.Path, rep)
}

func (s *fileServer) send(w http.ResponseWriter, path string, rep cacheReply) {
	body := cacheContent(rep.Ver, rep.Size)
	whole := func() {
		s.mu.Lock()
		if s.served[path] == nil {
			s.served[path] = map[string]bool{}
		}
		s.served[path][body] = true
		s.mu.Unlock()
	}
	abort := func(length int) {
		if length >= 0 {
			w.Header().Set("Content-Length", strconv.Itoa(length))
		}
		w.WriteHeader(http.StatusOK)
		io.WriteString(w, body[:len(body)/2])
		if f, ok := w.(http.Flusher); ok {
			f.Flush()
		}
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			if tc, ok := c.(*net.TCPConn); ok && rep.Kind == "reset" {
				tc.SetLinger(0)
			}
			c.Close()
		}
	}
	switch rep.Kind {
	case "ok":
		whole()
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		io.WriteString(w, body)
	case "chunked":
		whole()
		for len(body) > 0 {
			n := min(len(body), 1000)
			io.WriteString(w, body[:n])
			w.(http.Flusher).Flush()
			body = body[n:]
		}
	case "redirect":
		w.Header().Set("Location", fmt.Sprintf("/moved%s?v=%d&n=%d", path, rep.Ver, rep.Size))
		w.WriteHeader(http.StatusFound)
	case "404", "500", "403", "204":
		code, _ := strconv.Atoi(rep.Kind)
		w.WriteHeader(code)
		if code != 204 {
			io.WriteString(w, "no such thing")
		}
	case "short": // fewer bytes than announced
		abort(len(body) + 10)
	case "cut": // the last chunk is missing
		abort(-1)
	case "reset", "down": // (down: when another request took the place of this one)
		abort(len(body) + 1)
	}
}

// toServer sends every request to the local server.
type toServer struct {
	addr string
	rt   http.RoundTripper
}

func (t toServer) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.URL.Host != "huggingface.co" && r.URL.Host != t.addr {
		return nil, fmt.Errorf("unexpected host %q", r.URL.Host)
	}
	s, _ := localServer()
	if s.down(r.URL.Path) {
		return nil, fmt.Errorf("connection refused")
	}
	r = r.Clone(r.Context())
	r.URL.Scheme, r.URL.Host = "http", t.addr
	return t.rt.RoundTrip(r)
}

var localServer = sync.OnceValues(func() (*fileServer, string) {
	s := &fileServer{}
	h := httptest.NewServer(s)
	addr := strings.TrimPrefix(h.URL, "http://")
	return s, addr
})

func runFileCache(x *Ctx, c fileCacheCase) error {
	s, addr := localServer()
	top, err := os.MkdirTemp("", "cache")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	// whatever happens stays in there
	oldHome, oldEnv, oldDir, oldWd := os.Getenv("HOME"), os.Getenv("GO_TOKENIZER"), tokenizer.CachedDir, ""
	oldWd, _ = os.Getwd()
	dir := filepath.Join(top, "home", "x", "cache")
	os.MkdirAll(filepath.Join(top, "home", "work"), 0o755)
	os.Setenv("HOME", filepath.Join(top, "home"))
	work := filepath.Join(top, "home", "work")
	if err := os.Chdir(work); err != nil {
		panic(err)
	}
	if c.There {
		os.MkdirAll(dir, 0o755)
	}
	if c.Env {
		os.Setenv("GO_TOKENIZER", dir)
		tokenizer.CachedDir = "NOT_SETTING"
	} else {
		tokenizer.CachedDir = dir
	}
	tr := &http.Transport{DisableKeepAlives: true}
	oldTr := http.DefaultTransport
	http.DefaultTransport = toServer{addr, tr}
	defer func() {
		http.DefaultTransport = oldTr
		tr.CloseIdleConnections()
		os.Chdir(oldWd)
		os.Setenv("HOME", oldHome)
		os.Setenv("GO_TOKENIZER", oldEnv)
		tokenizer.CachedDir = oldDir
	}()
	s.mu.Lock()
	s.replies, s.served, s.requests, s.bad = map[string][]cacheReply{}, map[string]map[string]bool{}, 0, ""
	s.mu.Unlock()

	if c.Blocked {
		os.MkdirAll(filepath.Dir(filepath.Dir(dir)), 0o755)
		os.RemoveAll(filepath.Dir(dir))
		if c.There {
			os.WriteFile(filepath.Dir(dir), []byte("in the way"), 0o644)
		} else { // leads nowhere
			os.Symlink(filepath.Join(top, "no", "where"), filepath.Dir(dir))
		}
	}
	type key struct{ n, f int }
	cached := map[key]string{} // what must be there
	local := map[key]string{}
	localDir := map[key]bool{}
	blocked := map[int]bool{}
	name := func(k key) (string, string) { return cacheNames[k.n], cacheFiles[k.f] }
	url := func(k key) string { n, f := name(k); return "/" + n + "/resolve/main/" + f }
	read := func(p string) (string, error) { b, err := os.ReadFile(p); return string(b), err }

	faults, gets := 0, 0
	for i, st := range c.Steps {
		k := key{st.Name, st.File}
		n, f := name(k)
		bad := func(format string, a ...any) error {
			return fmt.Errorf("step %d, %s of %s %s: %s", i, st.Op, n, f, fmt.Sprintf(format, a...))
		}
		switch st.Op {
		case "put", "putdir":
			p := filepath.Join(work, n, f)
			os.RemoveAll(p)
			delete(local, k)
			localDir[k] = st.Op == "putdir"
			if localDir[k] {
				os.MkdirAll(p, 0o755)
				break
			}
			local[k] = cacheContent(1000+i, st.Size)
			os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, []byte(local[k]), 0o644); err != nil {
				panic(err)
			}
		case "drop":
			delete(local, k)
			delete(localDir, k)
			os.RemoveAll(filepath.Join(work, n, f))
		case "block":
			if p := filepath.Join(dir, n); !c.Blocked && !exists(p) {
				os.MkdirAll(filepath.Dir(p), 0o755)
				if err := os.WriteFile(p, []byte("in the way"), 0o644); err != nil {
					panic(err)
				}
				blocked[k.n] = true
			}
		case "unblock":
			if blocked[k.n] {
				os.Remove(filepath.Join(dir, n))
				delete(blocked, k.n)
			}
			if c.Blocked {
				os.Remove(filepath.Dir(dir))
				c.Blocked = false
			}
		case "get", "together", "various":
			targets := []key{k}
			m := 1 // how many times each
			switch st.Op {
			case "together":
				m = 3
			case "various":
				targets = append(targets, key{k.n, 1 - k.f}, key{(k.n + 1) % len(cacheNames), k.f})
			}
			s.mu.Lock()
			for j, q := range targets {
				s.replies[url(q)] = st.Replies
				if st.Op == "various" {
					s.replies[url(q)] = st.Replies[j : j+1]
				}
				s.served[url(q)] = map[string]bool{}
			}
			before := s.requests
			s.mu.Unlock()
			paths, errs, data := make([]string, m*len(targets)), make([]error, m*len(targets)), make([]string, m*len(targets))
			run := func(j int) {
				n, f := name(targets[j/m])
				errs[j] = Guard(func() error {
					p, err := tokenizer.CachedPath(n, f)
					if err != nil {
						return err
					}
					paths[j] = p
					data[j], err = read(p)
					if err != nil {
						return fmt.Errorf("panic: unreadable: %v", err)
					}
					return nil
				})
			}
			if c.Env { // as for the first time
				tokenizer.CachedDir = "NOT_SETTING"
			}
			withFileLimit(st.Limit, func() {
				if len(errs) == 1 {
					run(0)
					return
				}
				var wg sync.WaitGroup
				for j := range errs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						run(j)
					}()
				}
				wg.Wait()
			})
			gets += len(targets)
			s.mu.Lock()
			made := s.requests - before
			served := map[key]map[string]bool{}
			for _, q := range targets {
				served[q] = s.served[url(q)]
			}
			s.mu.Unlock()
			needed := 0
			for j := range errs {
				k := targets[j/m]
				n, f := name(k)
				want, have := cached[k]
				lo, isLocal := local[k]
				stuck := blocked[k.n] || c.Blocked
				if IsPanic(errs[j]) {
					return bad("%s %s: %v", n, f, errs[j])
				}
				if !have && !isLocal && !localDir[k] {
					needed++
				}
				switch {
				case have && m == 1 || have && served[k][want] == false:
					if errs[j] != nil || data[j] != want {
						return bad("%s %s is cached, but gives %q %v, want %q", n, f, head(data[j], 60), errs[j], head(want, 60))
					}
				case stuck || localDir[k] && !have:
					if errs[j] == nil {
						return bad("%s %s gives %q, but there is no place to write it to, or a directory in the way", n, f, head(data[j], 60))
					}
				case isLocal && !have:
					if st.Limit > 0 && st.Limit < len(lo) {
						faults++
						if errs[j] == nil {
							return bad("%s %s gives %d bytes, but at most %d could be written", n, f, len(data[j]), st.Limit)
						}
						break
					}
					if errs[j] != nil || data[j] != lo {
						return bad("there is a local file %s %s, but it gives %q %v, want %q", n, f, head(data[j], 60), errs[j], head(lo, 60))
					}
				case errs[j] == nil:
					if !served[k][data[j]] {
						return bad("%s %s: %d bytes %q were never sent as a whole", n, f, len(data[j]), head(data[j], 60))
					}
					if st.Limit > 0 && st.Limit < len(data[j]) {
						return bad("%s %s gives %d bytes, but at most %d could be written", n, f, len(data[j]), st.Limit)
					}
				}
			}
			if needed == 0 && made > 0 {
				return bad("%d requests for files which are there", made)
			}
			for t, k := range targets {
				n, f := name(k)
				_, have := cached[k]
				lo, isLocal := local[k]
				stuck := blocked[k.n] || c.Blocked
				if have || stuck || localDir[k] {
					continue
				}
				if isLocal {
					if errs[t*m] == nil {
						cached[k] = lo
					}
					continue
				}
				if m == 1 {
					rep := st.Replies[t]
					good := false
					switch rep.Kind {
					case "ok", "chunked", "redirect":
						good = st.Limit == 0 || rep.Size <= st.Limit
					}
					// the first reply is all that is needed
					first := made == needed
					if good && errs[t] != nil && first {
						return bad("the server sent %s %s whole, but: %v", n, f, errs[t])
					}
					if !good && errs[t] == nil && first {
						return bad("the server answered %s for %s %s (limit %d), but there is no error", rep.Kind, n, f, st.Limit)
					}
					if !good {
						faults++
					}
					if errs[t] == nil {
						cached[k] = data[t]
					}
					continue
				}
				x.Label("concurrent", true)
				// the last one to end decides
				delete(cached, k)
				if b, err := read(filepath.Join(dir, n, f)); err == nil {
					if !served[k][b] {
						return bad("the cache has %d bytes %q which were never sent as a whole", len(b), head(b, 60))
					}
					cached[k] = b
				}
				some := false
				for j := range errs {
					some = some || errs[j] == nil
				}
				if _, ok := cached[k]; ok != some {
					return bad("cached: %v, while errors are %v", ok, errs)
				}
			}
		}
		// all that is in the cache is complete, and nothing else is
		seen := map[string]bool{}
		for n := range cacheNames {
			for f := range cacheFiles {
				q := key{n, f}
				n, f := name(q)
				b, err := read(filepath.Join(dir, n, f))
				want, ok := cached[q]
				if ok && (err != nil || b != want) {
					return bad("now %s %s has %d bytes %q (%v), want %q", n, f, len(b), head(b, 60), err, head(want, 60))
				}
				if !ok && err == nil {
					return bad("now %s %s has %d bytes %q, it was never complete", n, f, len(b), head(b, 60))
				}
				if ok {
					seen[filepath.Join(dir, n, f)] = true
				}
			}
		}
		for n := range blocked {
			seen[filepath.Join(dir, cacheNames[n])] = true
		}
		var more string
		filepath.WalkDir(top, func(p string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() && !seen[p] && more == "" && !strings.HasPrefix(p, work+"/") && p != filepath.Dir(dir) {
				more = p
			}
			return nil
		})
		if more != "" {
			return bad("the file %s stays", strings.TrimPrefix(more, top))
		}
		for k, want := range local {
			n, f := name(k)
			if b, err := read(filepath.Join(work, n, f)); err != nil || b != want {
				return bad("the local file %s %s is now %q %v", n, f, head(b, 60), err)
			}
		}
	}
	x.NonTrivial(gets > 1)
	x.Label("faults", faults > 0)
	return nil
}

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}

// withFileLimit runs f while files cannot be written beyond a size.
func withFileLimit(n int, f func()) {
	if n > 0 {
		signal.Ignore(syscall.SIGXFSZ)
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); err != nil {
			panic(err)
		}
		defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	}
	f()
}

func genFileCache(t *rapid.T) fileCacheCase {
	c := fileCacheCase{Env: weighted(t, "env", 3, 1) == 1, There: rapid.Bool().Draw(t, "there"), Blocked: weighted(t, "blocked", 9, 1) == 1}
	ver := 0
	size := func() int {
		if rapid.IntRange(0, 400).Draw(t, "big") == 400 {
			return 3<<20 + 17
		}
		return rapid.SampledFrom([]int{0, 1, 100, 5000, 70000, 200000}).Draw(t, "size")
	}
	for k := rapid.IntRange(1, 8).Draw(t, "steps"); k > 0; k-- {
		st := cacheStep{Op: pick(t, "op", []string{"get", "get", "get", "get", "get", "together", "various", "various", "put", "put", "putdir", "drop", "block", "unblock", "unblock"}), Name: weighted(t, "name", 4, 1, 1), File: weighted(t, "file", 4, 1)}
		switch st.Op {
		case "put":
			st.Size = size()
		case "get", "together", "various":
			st.Limit = weighted(t, "limit?", 4, 1) * rapid.SampledFrom([]int{3, 50, 4096, 32768, 65536, 100000}).Draw(t, "limit")
			for j := 0; j < 3; j++ {
				ver++
				r := cacheReply{pick(t, "reply", []string{"ok", "ok", "chunked", "redirect", "404", "500", "403", "204", "short", "cut", "reset", "down"}), ver, size()}
				if r.Kind == "reset" || r.Kind == "short" || r.Kind == "down" {
					r.Size += 10
				}
				st.Replies = append(st.Replies, r)
			}
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func init() {
	Prop("C26", "a case counts when files are asked for twice or more",
		"the cache directory is not changed by others", "a body cut short is one the HTTP client can tell: the announced length or the last chunk is missing")
	Reg("C26", "faults", 12000, 200000, genFileCache, runFileCache)
	Reg("C26", "at-once", 2000, 20000, func(t *rapid.T) fileCacheCase {
		c := genFileCache(t)
		c.Env = rapid.Bool().Draw(t, "env2")
		for i := range c.Steps {
			if c.Steps[i].Op == "get" {
				c.Steps[i].Op = "various"
			}
		}
		return c
	}, runFileCache).Race = true
}

// C29: dataset retrieval is faithful, cached, and fails cleanly.
package main

import (
	"bytes"
	"errors"
	"fmt"
	stdio "io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"verif/vk"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
)

// kinds of answers of the server.
const (
	whole = iota
	chunked
	redirected
	notFound
	serverError
	truncated
	reset
	refused
	kinds
)

var kindName = []string{"whole", "chunked", "redirected", "404", "500", "truncated", "reset", "refused"}

// server answers each path in its own way and records the requests.
type server struct {
	mu   sync.Mutex
	kind int
	body []byte
	reqs []string
}

func (s *server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	s.reqs = append(s.reqs, r.Method+" "+r.URL.Path)
	kind, body := s.kind, s.body
	s.mu.Unlock()
	switch kind {
	case chunked:
		for len(body) > 0 {
			n := len(body)/3 + 1
			w.Write(body[:n])
			w.(http.Flusher).Flush()
			body = body[n:]
		}
	case redirected:
		if !strings.HasPrefix(r.URL.Path, "/moved") {
			http.Redirect(w, r, "/moved"+r.URL.Path, http.StatusFound)
			return
		}
		w.Write(body)
	case notFound:
		w.WriteHeader(404)
		w.Write(body)
	case serverError:
		w.WriteHeader(500)
		w.Write(body)
	case truncated, reset:
		h, buf, err := w.(http.Hijacker).Hijack()
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(buf, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(body)+1+len(body)/2)
		buf.Write(body)
		buf.Flush()
		if kind == reset {
			h.(*net.TCPConn).SetLinger(0)
		}
		h.Close()
	default:
		w.Header().Set("Content-Length", fmt.Sprint(len(body)))
		w.Write(body)
	}
}

func content(r *rand.Rand) []byte {
	n := []int{0, 1, 10, 1000, 70000, 1 << 20}[r.Intn(6)]
	if r.Intn(60) == 0 {
		n = 6 << 20
	}
	if n > 1 {
		n = 1 + r.Intn(n)
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

// tree lists the files below d with their contents.
func tree(d string) map[string]string {
	t := map[string]string{}
	filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			q, _ := filepath.Rel(d, p)
			t[q] = string(b)
		}
		return nil
	})
	return t
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func names(a map[string]string) []string {
	var s []string
	for k, v := range a {
		s = append(s, fmt.Sprintf("%s (%d bytes)", k, len(v)))
	}
	return s
}

// deaf reserves a port that nobody listens at: connecting to it is refused.
func deaf() (string, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	a, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("http://127.0.0.1:%d", a.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

func download(m *vk.M) {
	srv := &server{}
	ts := httptest.NewServer(srv)
	defer ts.Close()
	defer http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	deadURL, free := deaf()
	defer free()
	dir := m.Tmp()
	want := tree(dir) // model of the directory
	os.Mkdir(filepath.Join(dir, "sub"), 0o755)
	os.Mkdir(filepath.Join(dir, "v1.0"), 0o755) // a folder whose name has a dot
	defer os.Chdir("/")
	for step := 0; step < 6; step++ {
		srv.kind, srv.body, srv.reqs = m.R.Intn(kinds), content(m.R), nil
		name := []string{"a.data", "b.npy", "raw", "Raw-File_1.DATA", "archive.tar.gz"}[m.R.Intn(5)]
		url := ts.URL + "/x/" + name
		if srv.kind == refused {
			url = deadURL + "/x/" + name
		}
		var dst, at string
		switch m.R.Intn(5) {
		case 4:
			dst, at = filepath.Join(dir, "v1.0"), "v1.0/"+name
			if m.R.Intn(2) == 0 {
				dst += "/"
			}
		case 0: // a directory: the name is that of the remote file
			dst, at = filepath.Join(dir, "sub"), "sub/"+name
		case 1:
			dst, at = filepath.Join(dir, "sub")+"/", "sub/"+name
		case 2:
			at = []string{"c.data", ".hidden.data", "C.Data", "x.d", "a.b.c", "n.1", "p.dir", "q.long-extension", "a b.data"}[m.R.Intn(9)]
			dst = filepath.Join(dir, at)
		default: // below a directory that does not exist
			if m.R.Intn(3) == 0 {
				dst, at = filepath.Join(dir, "none", "d.data"), "none/d.data"
			} else {
				dst, at = filepath.Join(dir, "sub/../sub/e.tar.gz"), "sub/e.tar.gz"
			}
		}
		if m.R.Intn(4) == 0 { // relative to the working directory
			if err := os.Chdir(filepath.Join(dir, "sub")); err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(filepath.Join(dir, "sub"), dst)
			if dst = rel; m.R.Intn(2) == 0 {
				dst = "./" + rel
			}
		}
		override := m.R.Intn(2) == 0
		_, had := want[at]
		err := io.DownloadFromURL(url, dst, override)
		got := tree(dir)
		what := fmt.Sprintf("%s to %s (there before: %v, override %v, %d bytes)", kindName[srv.kind], at, had, override, len(srv.body))
		srv.mu.Lock()
		reqs := append([]string(nil), srv.reqs...)
		srv.mu.Unlock()
		switch {
		case had && !override:
			m.Check(err == nil, "%s: error %v", what, err)
			m.Check(len(reqs) == 0, "%s: requests %v although the file is there", what, reqs)
			m.Count("cached", 1)
		case strings.HasPrefix(at, "none/"):
			m.Check(err != nil, "%s: no error although the folder does not exist", what)
			m.Count("no folder", 1)
		case srv.kind <= redirected:
			m.Check(err == nil, "%s: error %v", what, err)
			m.Check(len(reqs) > 0 && reqs[0] == "GET /x/"+name, "%s: requests %v", what, reqs)
			want[at] = string(srv.body)
			m.Count("downloaded bytes", len(srv.body))
		default:
			m.Check(err != nil, "%s: no error", what)
			if _, there := got[at]; had && !there {
				delete(want, at)
			}
			m.Count("failed: "+kindName[srv.kind], 1)
		}
		m.Check(same(got, want), "%s: the folder now holds %v, want %v", what, names(got), names(want))
		m.Sig("%d %v %v %s", srv.kind, had, override, at)
		m.Count("downloads", 1)
	}
	m.Sample("%v", names(want))
}

// upstream stands in for the network under the default HTTP client.
type upstream struct {
	files map[string][]byte
	fail  map[string]int // answers to give before the file
	reqs  []string
}

func (u *upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	url := r.URL.String()
	u.reqs = append(u.reqs, url)
	res := &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r}
	body := u.files[url]
	switch u.fail[url] {
	case 1:
		return nil, errors.New("network is unreachable")
	case 2:
		res.Status, res.StatusCode = "503 Service Unavailable", 503
		body = []byte("var 0 2\n1\n")
	case 3:
		res.ContentLength = int64(len(body))
		res.Body = stdio.NopCloser(stdio.MultiReader(bytes.NewReader(body[:len(body)/2]), brokenReader{}))
		return res, nil
	}
	if body == nil {
		res.Status, res.StatusCode = "404 Not Found", 404
	}
	res.ContentLength = int64(len(body))
	res.Body = stdio.NopCloser(bytes.NewReader(body))
	return res, nil
}

type brokenReader struct{}

func (brokenReader) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

type table struct {
	cats []int
	rows [][]int
}

func gen(r *rand.Rand) *table {
	t := &table{}
	for j := 1 + r.Intn(5); j > 0; j-- {
		t.cats = append(t.cats, 2+r.Intn(6))
	}
	for i := 1 + r.Intn(6); i > 0; i-- {
		var row []int
		for _, c := range t.cats {
			row = append(row, r.Intn(c))
		}
		t.rows = append(t.rows, row)
	}
	return t
}

func (t *table) file() []byte {
	var b bytes.Buffer
	for j, c := range t.cats {
		fmt.Fprintf(&b, "var %d %d\n", j, c)
	}
	for _, row := range t.rows {
		for j, v := range row {
			if j > 0 {
				fmt.Fprint(&b, " ")
			}
			fmt.Fprint(&b, v)
		}
		fmt.Fprintln(&b)
	}
	return b.Bytes()
}

func (t *table) is(sc map[int]*learn.Variable, D []map[int]int, withScope bool) bool {
	if withScope {
		if len(sc) != len(t.cats) {
			return false
		}
		for j, c := range t.cats {
			if v := sc[j]; v == nil || v.Categories != c || v.Varid != j {
				return false
			}
		}
	}
	if len(D) != len(t.rows) {
		return false
	}
	for i, row := range t.rows {
		if len(D[i]) != len(row) {
			return false
		}
		for j, v := range row {
			if w, ok := D[i][j]; !ok || w != v {
				return false
			}
		}
	}
	return true
}

const base = "https://raw.githubusercontent.com/RenatoGeh/datasets/master/"

var single = map[string]func() (map[int]*learn.Variable, []map[int]int){
	"caltech": data.Caltech, "caltech_4bit": data.Caltech4Bit, "caltech_3bit": data.Caltech3Bit,
	"digits": data.Digits, "digits_x": data.DigitsX, "olivetti": data.Olivetti, "olivetti_3bit": data.Olivetti3Bit,
	"olivetti_padded_u": data.OlivettiPadded, "olivetti_big": data.OlivettiBig, "olivetti_small": data.OlivettiSmall,
}

var pairs = map[string]func() (map[int]*learn.Variable, []map[int]int, []map[int]int){
	"256_1000": data.MNIST1000, "256_2000": data.MNIST2000, "8_1000": data.MNIST3Bits1000, "8_2000": data.MNIST3Bits2000,
}

func datasets(m *vk.M) {
	dir := m.Tmp()
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir("/")
	up := &upstream{files: map[string][]byte{}, fail: map[string]int{}}
	old := http.DefaultTransport
	http.DefaultTransport = up
	defer func() { http.DefaultTransport = old }()
	ref := map[string]*table{}
	cached := map[string]bool{}
	put := func(url string) {
		t := gen(m.R)
		ref[url] = t
		up.files[url] = t.file()
	}
	var sn, pn []string
	for k := range single {
		put(base + k + "/compiled/all.data")
	}
	for _, k := range []string{"caltech", "caltech_4bit", "caltech_3bit", "digits", "digits_x", "olivetti", "olivetti_3bit", "olivetti_padded_u", "olivetti_big", "olivetti_small"} {
		sn = append(sn, k)
	}
	for _, k := range []string{"256_1000", "256_2000", "8_1000", "8_2000"} {
		pn = append(pn, k)
		put(base + "mnist/compiled/test_" + k + ".data")
		put(base + "mnist/compiled/train_" + k + ".data")
	}
	for step := 0; step < 25; step++ {
		up.fail, up.reqs = map[string]int{}, nil
		if m.R.Intn(3) > 0 {
			k := sn[m.R.Intn(len(sn))]
			url := base + k + "/compiled/all.data"
			up.fail[url] = m.R.Intn(4)
			v, D := single[k]()
			switch {
			case cached[url]:
				m.Check(len(up.reqs) == 0, "%s: requests %v although it is cached", k, up.reqs)
				m.Check(ref[url].is(v, D, true), "%s: the cached dataset is not the downloaded one: %v %v", k, v, D)
				m.Count("from the cache", 1)
			case up.fail[url] > 0:
				m.Check(v == nil && D == nil, "%s: a failed download (kind %d) gives a dataset: %v", k, up.fail[url], D)
				m.Count("failed", 1)
			default:
				m.Check(len(up.reqs) == 1 && up.reqs[0] == url, "%s: requests %v", k, up.reqs)
				m.Check(ref[url].is(v, D, true), "%s: returned %v %v, want %v", k, v, D, ref[url])
				cached[url] = true
				m.Count("downloaded", 1)
			}
		} else {
			k := pn[m.R.Intn(len(pn))]
			ut, ur := base+"mnist/compiled/test_"+k+".data", base+"mnist/compiled/train_"+k+".data"
			if m.R.Intn(2) == 0 {
				up.fail[ut] = m.R.Intn(4)
			}
			if m.R.Intn(2) == 0 {
				up.fail[ur] = m.R.Intn(4)
			}
			v, T, R := pairs[k]()
			okT := cached[ut] || up.fail[ut] == 0
			okR := cached[ur] || up.fail[ur] == 0
			for _, u := range up.reqs {
				m.Check((u == ut || u == ur) && !cached[u], "MNIST %s: request of %s (cached %v)", k, u, cached[u])
			}
			if okT && okR {
				m.Check(ref[ut].is(v, T, true), "MNIST %s: test set %v %v, want %v", k, v, T, ref[ut])
				m.Check(ref[ur].is(nil, R, false), "MNIST %s: training set %v, want %v", k, R, ref[ur])
				m.Count("pairs", 1)
			} else {
				m.Check(v == nil && T == nil && R == nil, "MNIST %s: a failed download gives a dataset: %v %v", k, T, R)
				m.Count("failed pairs", 1)
			}
			for _, u := range up.reqs {
				if up.fail[u] == 0 {
					cached[u] = true
				}
			}
		}
	}
	m.Check(len(tree(dir)) == len(cached), "%d files are kept for %d datasets: %v", len(tree(dir)), len(cached), names(tree(dir)))
	m.Sig("%d", m.Seed)
	m.Sample("%d datasets cached", len(cached))
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C29",
		Rule: "histories of downloads from a loopback server that serves whole, chunked and redirected bodies and injects errors, truncation, resets and refused connections, the folder compared with a model after each; histories of dataset calls over a stand-in for the upstream host with injected failures, returned data and requests compared with the published files; distinct by (fault, destination state)",
		Assumptions: []string{
			"the default HTTP client is used",
			"the remote file name has no query part",
		},
		Workloads: []vk.Workload{
			{Name: "download", Quick: 2000, Thorough: 12000, F: download},
			{Name: "datasets", Quick: 1200, Thorough: 8000, F: datasets},
		},
	})
}

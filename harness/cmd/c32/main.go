// C32: a completion job learns from the other classes and draws every half of every image.
package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/app"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
)

type task struct {
	w, h, max int
	rows      [][]int // pixels
	lbl       []int
	conc      int
}

func (t *task) String() string {
	return fmt.Sprintf("%dx%d of %d values, concurrents=%d, labels %v, images %v", t.w, t.h, t.max, t.conc, t.lbl, t.rows)
}

func (t *task) write(f string) {
	var b strings.Builder
	n := t.w * t.h
	for v := 0; v < n; v++ {
		fmt.Fprintf(&b, "var %d %d\n", v, t.max)
	}
	k := 2
	for _, y := range t.lbl {
		if y >= k {
			k = y + 1
		}
	}
	fmt.Fprintf(&b, "var %d %d\n", n, k)
	for i, row := range t.rows {
		for _, x := range row {
			fmt.Fprintf(&b, "%d ", x)
		}
		fmt.Fprintf(&b, "%d\n", t.lbl[i])
	}
	if err := os.WriteFile(f, []byte(b.String()), 0600); err != nil {
		panic(err)
	}
}

func gen(m *vk.M, small bool) *task {
	r := m.R
	t := &task{}
	for {
		t.w, t.h = 1+r.Intn(6), 1+r.Intn(6)
		if small {
			t.w, t.h = 1+r.Intn(4), 1+r.Intn(4)
		}
		if t.w*t.h > 1 && t.w*t.h <= 20 {
			break
		}
	}
	big := r.Intn(15) == 0
	if big && r.Intn(2) == 0 {
		t.w, t.h = 5+r.Intn(16), 1+r.Intn(4)
		if r.Intn(2) == 0 {
			t.w, t.h = t.h, t.w
		}
	}
	t.max = []int{2, 3, 4, 8}[r.Intn(4)]
	n := 1 + r.Intn(8)
	if small {
		n = 2 + r.Intn(4)
	}
	classes := 1 + r.Intn(4)
	if big {
		n = 9 + r.Intn(20)
		if small {
			n = 6 + r.Intn(10)
		}
		if classes > 2 {
			classes = 5 + r.Intn(25)
		}
	}
	for i := 0; i < n; i++ {
		row := make([]int, t.w*t.h)
		y := r.Intn(classes)
		for p := range row {
			row[p] = r.Intn(t.max)
			if r.Intn(2) == 0 {
				row[p] = (y + p) % t.max
			}
		}
		if i > 0 && r.Intn(6) == 0 {
			copy(row, t.rows[r.Intn(i)])
		}
		t.rows = append(t.rows, row)
		t.lbl = append(t.lbl, y)
	}
	t.conc = 1 + r.Intn(4)
	switch r.Intn(6) {
	case 0:
		t.conc = -1
	case 1:
		t.conc = 0
	case 2:
		t.conc = n + 3
	}
	return t
}

func rowKey(D []map[int]int, n int) string {
	var s []string
	for _, I := range D {
		row := make([]int, n)
		for v := range row {
			row[v] = -1
			if x, ok := I[v]; ok {
				row[v] = x
			}
		}
		s = append(s, fmt.Sprint(row, len(I)))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// given says whether a pixel is given when the part typ is completed.
func (t *task) given(typ io.CmplType, p int) bool {
	x, y := p%t.w, p/t.w
	switch typ {
	case io.Top:
		return y >= t.h/2
	case io.Bottom:
		return y < t.h/2
	case io.Left:
		return x >= t.w/2
	}
	return x < t.w/2
}

// drawn reads a completion: the given pixels and the completed ones.
func (t *task) drawn(m *vk.M, f string, typ io.CmplType) (half, cmpl map[int]int) {
	raw, err := os.ReadFile(f)
	m.Must(err == nil, "no image %s: %v", f, err)
	W, H := t.w, t.h
	if typ == io.Top || typ == io.Bottom {
		H++
	} else {
		W++
	}
	tk := strings.Fields(string(raw))
	m.Must(len(tk) >= 4 && tk[0] == "P3", "%s is no colour image: %q", f, raw)
	var v []int
	for _, s := range tk[1:] {
		x, err := strconv.Atoi(s)
		m.Must(err == nil, "%s: %q is no number", f, s)
		v = append(v, x)
	}
	m.Must(v[0] == W && v[1] == H && v[2] == t.max-1, "%s: header %v, want %dx%d and the value %d", f, v[:3], W, H, t.max-1)
	v = v[3:]
	m.Must(len(v) == 3*W*H, "%s: %d samples for %dx%d pixels", f, len(v), W, H)
	half, cmpl = map[int]int{}, map[int]int{}
	p := 0
	for i := 0; i < W*H; i++ {
		px := v[3*i : 3*i+3]
		sep := i%W == W/2
		if H > t.h {
			sep = i/W == H/2
		}
		if sep {
			m.Check(px[0] == 255 && px[1] == 0 && px[2] == 0, "%s: the line at (%d,%d) is %v", f, i%W, i/W, px)
			continue
		}
		if t.given(typ, p) {
			m.Check(px[0] == px[1] && px[1] == px[2], "%s: the given pixel %d is %v", f, p, px)
			half[p] = px[1]
		} else {
			m.Check(px[0] == 0 && px[2] == 0, "%s: the completed pixel %d is %v", f, p, px)
			m.Check(px[1] >= 0 && px[1] < t.max, "%s: pixel %d is completed with %d, not one of %d values", f, p, px[1], t.max)
			cmpl[p] = px[1]
		}
		p++
	}
	m.Count("images_read", 1)
	m.Count("pixels_completed", len(cmpl))
	return
}

func mute(f func()) {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	f()
}

func enter(m *vk.M) string {
	dir := m.Tmp()
	out := filepath.Join(dir, "out")
	if err := os.Mkdir(out, 0700); err != nil {
		panic(err)
	}
	if err := os.Chdir(out); err != nil {
		panic(err)
	}
	return dir
}

// exactly checks that the working directory holds the wanted files and nothing else.
func exactly(m *vk.M, want []string) {
	ent, err := os.ReadDir(".")
	if err != nil {
		panic(err)
	}
	var got []string
	for _, e := range ent {
		got = append(got, e.Name())
	}
	sort.Strings(got)
	sort.Strings(want)
	m.Must(fmt.Sprint(got) == fmt.Sprint(want), "the job wrote %v, want %v", got, want)
}

func completion(m *vk.M) {
	t := gen(m, false)
	m.Note("%v", t)
	r := m.R
	dir := enter(m)
	defer os.Chdir("/")
	f := filepath.Join(dir, "all.data")
	t.write(f)
	sys.Width, sys.Height, sys.Max = t.w, t.h, t.max
	n := t.w * t.h

	// What every job has to learn from: the images of the other classes, and a network of its own.
	cats := map[int]int{}
	for v := 0; v < n; v++ {
		cats[v] = t.max
	}
	nets := map[string]*net.Net{}
	want := map[string]int{}
	keys := make([]string, len(t.rows))
	for i := range t.rows {
		var D []map[int]int
		for j, row := range t.rows {
			if t.lbl[j] != t.lbl[i] {
				I := map[int]int{}
				for v, x := range row {
					I[v] = x
				}
				D = append(D, I)
			}
		}
		k := rowKey(D, n)
		keys[i] = k
		want[k]++
		if nets[k] == nil {
			o := net.Opt{Vars: n, W: []net.WMode{net.WNorm, net.WDirich, net.WFree}[r.Intn(3)], Share: 0.3, Cats: cats, Ties: r.Intn(4) == 0, MaxNodes: 100}
			nets[k] = net.Valid(r, o)
		}
	}
	limit := t.conc
	if limit <= 0 {
		limit = runtime.NumCPU()
	}
	scribble := r.Intn(2) == 0
	delays := make([]int, len(t.rows)+8)
	for i := range delays {
		delays[i] = r.Intn(5)
	}
	var mu sync.Mutex
	running, peak, calls, overlaps := 0, 0, 0, 0
	got := map[string]int{}
	lf := func(sc map[int]*learn.Variable, D spn.Dataset) spn.SPN {
		mu.Lock()
		running++
		if running > peak {
			peak = running
		}
		if running > 1 {
			overlaps++
		}
		d := delays[calls%len(delays)]
		calls++
		mu.Unlock()
		ok := len(sc) == n
		for v := 0; ok && v < n; v++ {
			x := sc[v]
			ok = x != nil && x.Varid == v && x.Categories == t.max
		}
		m.Check(ok, "the learner was given the variables %v, want %d of %d values", sc, n, t.max)
		k := rowKey(D, n)
		mu.Lock()
		got[k]++
		N := nets[k]
		mu.Unlock()
		m.Check(N != nil, "the learner was given %d images that are not all images of the other classes: %s", len(D), k)
		switch d {
		case 0:
		case 1, 2:
			runtime.Gosched()
		default:
			time.Sleep(time.Duration(d-2) * 200 * time.Microsecond)
		}
		if scribble { // the arguments belong to this job alone
			for _, I := range D {
				for v := range I {
					I[v] = 99
				}
				I[n+7] = 1
			}
			for v := range sc {
				delete(sc, v)
			}
		}
		if N == nil {
			o := net.Opt{Vars: n, Cats: cats}
			mu.Lock()
			N = net.Valid(r, o)
			mu.Unlock()
		}
		S := N.Build().Root
		mu.Lock()
		running--
		mu.Unlock()
		return S
	}
	mute(func() { app.ImgCompletion(lf, f, t.conc) })
	mu.Lock()
	defer mu.Unlock()
	m.Check(running == 0, "%d jobs are running after the end", running)
	m.Check(peak <= limit, "%d jobs ran at once, at most %d are allowed", peak, limit)
	m.Check(calls == len(t.rows), "the learner was called %d times for %d images", calls, len(t.rows))
	for k, c := range want {
		m.Check(got[k] == c, "%d networks were learned from the images %s, want %d", got[k], k, c)
	}
	var files []string
	for i := range t.rows {
		for _, q := range []io.CmplType{io.Top, io.Bottom, io.Left, io.Right} {
			files = append(files, fmt.Sprintf("cmpl_%d-%s.pgm", i, q))
		}
	}
	exactly(m, files)
	for i, row := range t.rows {
		N := nets[keys[i]]
		for _, q := range []io.CmplType{io.Top, io.Bottom, io.Left, io.Right} {
			name := fmt.Sprintf("cmpl_%d-%s.pgm", i, q)
			half, cmpl := t.drawn(m, name, q)
			for p, x := range half {
				m.Check(x == row[p], "%s: the given pixel %d is %d, the image has %d", name, p, x, row[p])
			}
			best := N.MaxEval(half)[N.Root()]
			if math.IsInf(best, -1) {
				m.Count("impossible_halves", 1)
				continue
			}
			for p, x := range cmpl {
				half[p] = x
			}
			at := N.MaxEval(half)[N.Root()]
			m.Check(net.Near(at, best), "%s: the completion attains %v, the most probable one %v: %v", name, at, best, cmpl)
			m.Count("completions", 1)
		}
	}
	m.Count("jobs", calls)
	m.Count("jobs_started_while_another_ran", overlaps)
	m.Sig("%v", t)
	m.Sample("%d images %dx%d, %d at once", len(t.rows), t.w, t.h, peak)
}

func test(m *vk.M) {
	t := gen(m, true)
	par := m.R.Intn(3) > 0
	odd := m.R.Intn(3) == 0
	if odd { // all images but one are the same: nothing else can be learned for that one
		if m.R.Intn(2) == 0 {
			t.max = 256
			for _, row := range t.rows {
				for p := range row {
					row[p] = m.R.Intn(t.max)
				}
			}
		}
		o := m.R.Intn(len(t.rows))
		for i := range t.rows {
			if i != o {
				t.rows[i] = append([]int(nil), t.rows[(o+1)%len(t.rows)]...)
			}
		}
	}
	M, g := 1+m.R.Intn(3), 1+m.R.Intn(3)
	m.Note("parallel=%v sums=%d gaussians=%d %v", par, M, g, t)
	dir := enter(m)
	defer os.Chdir("/")
	f := filepath.Join(dir, "all.data")
	t.write(f)
	sys.Width, sys.Height, sys.Max = t.w, t.h, t.max
	mute(func() {
		if par {
			app.ImgTestParallel(f, M, g, 1, 0.1, 1, t.conc)
		} else {
			app.ImgTest(f, M, g, 1, 0.1, 1)
		}
	})
	var files []string
	for i := range t.rows {
		for _, q := range io.Quadrants {
			files = append(files, fmt.Sprintf("cmpl_%s_%d.pgm", q, i))
		}
	}
	exactly(m, files)
	var a, b []string
	for i, row := range t.rows {
		parts := map[io.CmplType]map[int]int{}
		var done []map[int]int
		for _, q := range io.Quadrants {
			half, cmpl := t.drawn(m, fmt.Sprintf("cmpl_%s_%d.pgm", q, i), q)
			parts[q] = half
			done = append(done, cmpl)
		}
		im := map[int]int{}
		for _, q := range io.Quadrants {
			for p, x := range parts[q] {
				y, ok := im[p]
				m.Check(!ok || x == y, "the completions of image %d give pixel %d as %d and as %d", i, p, x, y)
				im[p] = x
			}
		}
		whole := make([]int, t.w*t.h)
		for p := range whole {
			whole[p] = im[p]
		}
		if odd {
			oddOne(m, t, i, whole, done)
		}
		a = append(a, fmt.Sprint(whole))
		b = append(b, fmt.Sprint(row))
		if !par {
			m.Check(a[i] == b[i], "the completions of image %d show %s, want %s", i, a[i], b[i])
		}
	}
	sort.Strings(a)
	sort.Strings(b)
	m.Check(fmt.Sprint(a) == fmt.Sprint(b), "the completions show the images %v, want %v", a, b)
	m.Count("leave_one_out_images", len(t.rows))
	m.Sig("%v %v", par, t)
}

// oddOne checks the completions of the one image that differs from all others: each is learned
// from copies of one image, and can only complete it to that.
func oddOne(m *vk.M, t *task, i int, whole []int, done []map[int]int) {
	n := map[string]int{}
	other := map[string][]int{}
	for _, r := range t.rows {
		n[fmt.Sprint(r)]++
		other[fmt.Sprint(r)] = r
	}
	if n[fmt.Sprint(whole)] != 1 {
		return
	}
	delete(other, fmt.Sprint(whole))
	for _, x := range other {
		for _, c := range done {
			for p, v := range c {
				m.Check(v == x[p], "image %d: all other images have %d at pixel %d, it is completed with %d", i, x[p], p, v)
			}
		}
	}
	m.Count("odd_images_completed", 1)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C32",
		Rule: "random labelled image files (1..8 images of up to 20 pixels, any aspect including single rows and columns, 1..4 classes, duplicates), any number of concurrent jobs, learning functions that record their arguments, are delayed by injected sleeps, overwrite their arguments and return a network of their own; every image file is read back and judged against that network; race-detector and plain builds; distinct by images and settings; the overlap counter says how many jobs started while another ran",
		Assumptions: []string{
			"sys.Width, sys.Height and sys.Max describe the images and do not change meanwhile; the file has at least one image (two for the leave-one-out jobs)",
			"variables are shared between the jobs, the table that holds them is not",
		},
		Workloads: []vk.Workload{
			{Name: "completion", Quick: 1200, Thorough: 15000, F: completion},
			{Name: "completion-race", Quick: 500, Thorough: 6000, Race: true, F: completion},
			{Name: "leave-one-out", Quick: 500, Thorough: 6000, Race: true, F: test},
		},
	})
}

// C31: a classification job trains on one part of the file and counts the right answers on the rest.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/app"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/gens"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
)

type task struct {
	cats []int // the last variable is the label
	rows [][]int
	p    float64
	seed int64
	net  *net.Net // nil: the structure is learned
	k    int
}

func (t *task) String() string {
	return fmt.Sprintf("categories %v p=%v seed=%d clusters=%d rows=%v net=%v", t.cats, t.p, t.seed, t.k, t.rows, t.net)
}

func (t *task) file() string {
	var b strings.Builder
	for v, k := range t.cats {
		fmt.Fprintf(&b, "var %d %d\n", v, k)
	}
	for _, row := range t.rows {
		for j, x := range row {
			if j > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprint(&b, x)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func gen(m *vk.M) *task {
	r := m.R
	t := &task{}
	nv := 2 + r.Intn(5)
	if r.Intn(10) == 0 {
		nv = 7 + r.Intn(12)
	}
	large := r.Intn(40) == 0 // densities below the least number
	if large {
		nv = 300 + r.Intn(500)
	}
	for v := 0; v < nv; v++ {
		t.cats = append(t.cats, 2+r.Intn(4))
	}
	if r.Intn(6) == 0 {
		t.cats[nv-1] = 6 + r.Intn(10)
		if r.Intn(4) == 0 {
			t.cats[nv-1] = 16 + r.Intn(40)
		}
	}
	n := 2 + r.Intn(20)
	if large {
		n = 2 + r.Intn(7)
	} else if r.Intn(8) == 0 {
		n = 25 + r.Intn(80)
		if r.Intn(5) == 0 {
			n = 200 + r.Intn(300)
		}
	}
	noise := r.Float64()
	mode := r.Intn(3)
	for i := 0; i < n; i++ {
		y := r.Intn(t.cats[nv-1])
		row := make([]int, nv)
		for v := range row {
			row[v] = r.Intn(t.cats[v])
			if mode > 0 && r.Float64() > noise {
				row[v] = (y + mode*v) % t.cats[v]
			}
		}
		row[nv-1] = y
		if i > 0 && r.Intn(6) == 0 {
			copy(row, t.rows[r.Intn(i)])
		}
		t.rows = append(t.rows, row)
	}
	t.p = []float64{0.5, 0.7, 0.3, 0.9, 0.1, 0.75, r.Float64()}[r.Intn(7)]
	if t.p == 0 {
		t.p = 0.5
	}
	t.seed = int64(r.Intn(1000))
	if r.Intn(3) == 0 {
		t.seed = -1
	}
	if large {
		t.net = net.Bayes(r, t.cats)
	} else if r.Intn(5) > 0 {
		cats := map[int]int{}
		for v, k := range t.cats {
			cats[v] = k
		}
		o := net.Opt{Vars: nv, W: []net.WMode{net.WNorm, net.WNorm, net.WZero, net.WDirich}[r.Intn(4)], Share: 0.3, Cats: cats,
			ZeroPr: r.Intn(4) == 0, Ties: r.Intn(4) == 0, MaxNodes: 120}
		for {
			t.net = net.Valid(r, o)
			if t.net.Paths() < 1e5 {
				break
			}
		}
	}
	t.k = 1 + r.Intn(3)
	if r.Intn(3) == 0 {
		t.k = -1
	}
	return t
}

func key(row []int) string { return fmt.Sprint(row) }

// call is one call of the learning function.
type call struct {
	train [][]int
	n     *net.Net
}

// learner is the learning function handed to the job: it records what it is given.
func learner(m *vk.M, t *task, calls *[]call) learn.LearnFunc {
	nv := len(t.cats)
	real := gens.Binded(t.k, 0.01, 4, 1)
	return func(sc map[int]*learn.Variable, D spn.Dataset) spn.SPN {
		m.Check(len(sc) == nv, "the learner was given %d variables, the file declares %d", len(sc), nv)
		for v, k := range t.cats {
			x := sc[v]
			m.Must(x != nil && x.Varid == v && x.Categories == k, "the learner was given variable %d as %v, the file declares %d categories", v, x, k)
		}
		c := call{}
		for _, I := range D {
			m.Must(len(I) == nv, "the learner was given the instance %v of a file of %d variables", I, nv)
			row := make([]int, nv)
			for v := range row {
				x, ok := I[v]
				m.Must(ok, "the learner was given the instance %v without x%d", I, v)
				row[v] = x
			}
			c.train = append(c.train, row)
		}
		var S spn.SPN
		if t.net != nil && len(D) >= 0 {
			S = t.net.Build().Root
			c.n = t.net
		} else {
			S = real(sc, D)
			b, err := net.Import(S)
			m.Must(err == nil, "malformed learned network: %v", err)
			c.n = b.Net
		}
		*calls = append(*calls, c)
		return S
	}
}

// score recomputes how many of the rows that were not given to the learner are classified rightly.
func score(m *vk.M, t *task, c call) (lo, hi, total int) {
	left := map[string][][]int{}
	for _, row := range t.rows {
		left[key(row)] = append(left[key(row)], row)
	}
	for _, row := range c.train {
		q := left[key(row)]
		m.Must(len(q) > 0, "the training part holds %v more often than the file", row)
		left[key(row)] = q[1:]
	}
	var ks []string
	for k := range left {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	nv := len(t.cats)
	for _, k := range ks {
		for _, row := range left[k] {
			total++
			e := map[int]int{}
			for v := 0; v < nv-1; v++ {
				e[v] = row[v]
			}
			lp := make([]float64, t.cats[nv-1])
			best := math.Inf(-1)
			for y := range lp {
				e[nv-1] = y
				lp[y] = c.n.Eval(e)[c.n.Root()]
				best = math.Max(best, lp[y])
			}
			if math.IsInf(best, -1) {
				hi++
				m.Count("impossible_images", 1)
				continue
			}
			y := row[nv-1]
			if lp[y] < best-1e-7 {
				m.Count("wrong_answers", 1)
				continue
			}
			alone := true
			for z := range lp {
				if z != y && lp[z] > best-1e-7 {
					alone = false
				}
			}
			hi++
			if alone {
				lo++
				m.Count("right_answers", 1)
			} else {
				m.Count("tied_answers", 1)
			}
		}
	}
	return
}

// quiet runs f with the standard output redirected and returns what it printed.
func quiet(dir string, f func()) string {
	path := filepath.Join(dir, "printed.txt")
	out, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = out
	defer func() { os.Stdout = old; out.Close() }()
	f()
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func one(m *vk.M) {
	t := gen(m)
	m.Note("%v", t)
	sys.Verbose = m.R.Intn(8) == 0
	defer func() { sys.Verbose = false }()
	dir := m.Tmp()
	f := filepath.Join(dir, "all.data")
	raw := []byte(t.file())
	if err := os.WriteFile(f, raw, 0600); err != nil {
		panic(err)
	}
	var calls []call
	lf := learner(m, t, &calls)
	// Several jobs of the same process.
	for k := 0; k < 1+m.R.Intn(3); k++ {
		calls = nil
		var c, n int
		quiet(dir, func() { c, n = app.ImgClassify(lf, f, t.p, t.seed) })
		judge(m, t, calls, 1, c, n)
	}
	now, _ := os.ReadFile(f)
	m.Check(bytes.Equal(now, raw), "the data file was changed")
	m.Sig("%v", t)
	m.Sample("%d rows of %d variables, training part %v", len(t.rows), len(t.cats), t.p)
}

func judge(m *vk.M, t *task, calls []call, its, c, n int) {
	m.Must(len(calls) == its, "the learner was called %d times for %d iterations", len(calls), its)
	lo, hi, total := 0, 0, 0
	for _, x := range calls {
		a, b, k := score(m, t, x)
		want := (1 - t.p) * float64(len(t.rows))
		m.Check(math.Abs(float64(k)-want) < 1+1e-9, "%d of %d rows are tested with a training part of %v", k, len(t.rows), t.p)
		lo, hi, total = lo+a, hi+b, total+k
	}
	m.Check(n == total, "the job reports %d tested instances, %d were not given to the learner", n, total)
	m.Check(lo <= c && c <= hi, "the job reports %d of %d instances as correctly classified, the network classifies %d to %d so", c, n, lo, hi)
	m.Count("jobs", its)
	m.Count("images_classified", total)
}

var final = regexp.MustCompile(`Correct classifications: (\d+)/(\d+)`)

func batch(m *vk.M) {
	t := gen(m)
	its := 1 + m.R.Intn(4)
	if m.R.Intn(12) == 0 {
		its = 5 + m.R.Intn(10)
	}
	m.Note("%d iterations of %v", its, t)
	dir := m.Tmp()
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir("/")
	ds := []string{"digits", "olivetti_3bit", "a.b", "x"}[m.R.Intn(4)]
	sub := filepath.Join("data", ds, "compiled")
	if err := os.MkdirAll(sub, 0700); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(sub, "all.data"), []byte(t.file()), 0600); err != nil {
		panic(err)
	}
	var calls []call
	out := quiet(dir, func() {
		app.ImgBatchClassify(learner(m, t, &calls), ds, t.p, t.seed, t.k, its)
	})
	all := final.FindAllStringSubmatch(out, -1)
	m.Must(len(all) > 0, "no result was printed: %q", out)
	var c, n int
	last := all[len(all)-1]
	fmt.Sscan(last[1], &c)
	fmt.Sscan(last[2], &n)
	judge(m, t, calls, its, c, n)
	if n > 0 {
		want := fmt.Sprintf("%.2f%%", 100*float64(c)/float64(n))
		i := strings.LastIndex(out, last[0])
		m.Check(strings.Contains(out[i:], want), "the final results give no percentage %s: %q", want, out[i:])
	}
	m.Sig("%d %v", its, t)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C31",
		Rule: "random labelled data files (2..18 variables, 2..104 rows, 2..15 classes, noisy and clean, duplicates), training parts of any size, with and without seed, several jobs per process, model networks and learned ones handed over by a recording learning function; the number of right answers is recomputed from the network the learner returned and the rows it was not given; single jobs and batches; distinct by file, network and settings",
		Assumptions: []string{
			"the last declared variable is the label; the training part is larger than zero and smaller than one",
			"labels of equal posterior, and rows of zero density, may count either way",
		},
		Workloads: []vk.Workload{
			{Name: "single", Quick: 2500, Thorough: 40000, F: one},
			{Name: "batch", Quick: 1000, Thorough: 15000, F: batch},
		},
	})
}

// C30: diagnostics go to the chosen log only when asked for and change nothing.
package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/score"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils/cluster"
	"github.com/RenatoGeh/gospn/utils/indep"
)

func restore(v bool) {
	sys.Verbose = v
	sys.SetLogFile("")
}

func history(m *vk.M) {
	dir := m.Tmp()
	so := os.Stdout
	fake, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		panic(err)
	}
	os.Stdout = fake
	defer func() { os.Stdout = so; restore(false); fake.Close() }()
	sys.SetLogFile("")
	want := map[string]string{"stdout": ""}
	cur := "stdout"
	var open []*os.File
	defer func() {
		for _, f := range open {
			f.Close()
		}
	}()
	say := func(s string) {
		if sys.Verbose {
			want[cur] += s
		}
	}
	for i := 0; i < 40; i++ {
		switch m.R.Intn(9) {
		case 0:
			name := fmt.Sprintf("log%d", m.R.Intn(1000000))
			if _, used := want[name]; used {
				continue
			}
			f, err := sys.SetLogFile(filepath.Join(dir, name))
			m.Must(err == nil && f != nil, "SetLogFile: %v", err)
			open = append(open, f)
			m.Check(sys.LogFile() == f, "LogFile is not the file that was set")
			cur, want[name] = name, ""
		case 1:
			_, err := sys.SetLogFile("")
			m.Check(err == nil && sys.LogFile() == os.Stdout, "the log is not back at the standard output: %v", err)
			cur = "stdout"
		case 2:
			before := sys.LogFile()
			_, err := sys.SetLogFile(filepath.Join(dir, "no/such/folder/log"))
			m.Check(err != nil, "SetLogFile in a folder that does not exist gives no error")
			m.Check(sys.LogFile() == before, "a failed SetLogFile changed the log")
		case 3:
			sys.Verbose = !sys.Verbose
		case 4:
			sys.Printf("message %d of %s, %.3f\n", i, "history", 1/float64(i+1))
			say(fmt.Sprintf("message %d of %s, %.3f\n", i, "history", 1/float64(i+1)))
		case 5:
			s := fmt.Sprintf("plain message %d", i)
			sys.Printf(s)
			say(s)
		case 6:
			s := fmt.Sprintf("line 100%% %d", i)
			if m.R.Intn(20) == 0 {
				s += strings.Repeat(" and so on", 1<<uint(m.R.Intn(17)))
			}
			if k := m.R.Intn(12); k < 5 {
				s = []string{"", " ", "\n", "100%d %s", "två\t行\x00\r"}[k]
			}
			sys.Println(s)
			say(s + "\n")
		case 7:
			t0 := time.Now()
			sys.StartTimer()
			d := sys.StopTimer()
			m.Check(d >= 0 && d <= time.Since(t0), "StopTimer = %v, at most %v passed", d, time.Since(t0))
		case 8:
			if sys.Verbose {
				sys.Verbose = false
				sys.MeasureTime(time.Now(), "quiet") // must print nothing
				sys.Verbose = true
			}
		}
		m.Count("operations", 1)
	}
	for k, w := range want {
		b, err := os.ReadFile(filepath.Join(dir, k))
		m.Check(err == nil && string(b) == w, "%s holds %.200q, want %.200q (%v)", k, b, w, err)
		m.Count("bytes logged", len(w))
	}
	m.Sig("%d", m.Seed)
	m.Sample("%d logs", len(want))
}

// Timed messages name what they timed.
func timed(m *vk.M) {
	dir := m.Tmp()
	defer restore(false)
	f, err := sys.SetLogFile(filepath.Join(dir, "log"))
	m.Must(err == nil, "%v", err)
	defer f.Close()
	sys.Verbose = true
	ago := time.Duration(m.R.Intn(5000)) * time.Millisecond
	sys.MeasureTime(time.Now().Add(-ago), "some step")
	b, _ := os.ReadFile(filepath.Join(dir, "log"))
	s := strings.TrimSuffix(strings.TrimPrefix(string(b), "some step took "), ".\n")
	d, err := time.ParseDuration(s)
	m.Check(err == nil && d >= ago && d < ago+30*time.Second, "MeasureTime printed %q for %v", b, ago)
	m.Sig("%v", ago)
}

// run computes a set of deterministic results on a copy of the same inputs.
func run(seed int64, m *vk.M, n *net.Net, D []map[int]int, L []int) (res map[string]interface{}) {
	res = map[string]interface{}{}
	sys.RefreshRandom(seed)
	cp := func() spn.Dataset {
		E := make(spn.Dataset, len(D))
		for i := range D {
			E[i] = net.CopyEv(D[i])
		}
		return E
	}
	vars := n.Scope()
	cv := &learn.Variable{Varid: vars[0], Categories: n.Cats()[vars[0]], Name: "y"}
	b := n.Build()
	var inf, mapv []float64
	for _, I := range D {
		inf = append(inf, spn.Inference(b.Root, I))
		st := spn.NewStorer()
		_, _, M := spn.StoreMAP(b.Root, I, -1, st)
		mapv = append(mapv, b.Root.Max(I), b.Root.Value(M))
	}
	res["inference"], res["MAP"] = inf, mapv
	st := spn.NewStorer()
	dtk := st.NewTicket()
	itk := st.NewTicket()
	spn.StoreInference(b.Root, D[0], itk, st)
	_, _ = learn.DeriveSPN(b.Root, st, dtk, itk, nil)
	var der []float64
	for _, s := range b.Nodes {
		v, ok := st.Single(dtk, s)
		if !ok {
			v = math.Inf(-1)
		}
		der = append(der, v)
	}
	res["derivatives"] = der
	res["valid"] = []bool{spn.Complete(b.Root), spn.Decomposable(b.Root)}
	sc := append([]int(nil), spn.ComputeScope(b.Root)...)
	sort.Ints(sc)
	res["scope"] = sc
	for _, lt := range []int{int(parameters.SoftGD), int(parameters.HardGD)} {
		for _, bs := range []int{1, 2} {
			w := n.Build()
			parameters.Bind(w.Root, parameters.New(true, false, 0.01, lt, 0.1, 1, bs, 0, 2))
			learn.Generative(w.Root, cp())
			x := net.MustImport(w.Root).Net
			res[fmt.Sprintf("generative %v %d", lt, bs)] = x.N
			w = n.Build()
			parameters.Bind(w.Root, parameters.New(true, false, 0.01, lt, 0.1, 1, bs, 0, 2))
			learn.Discriminative(w.Root, cp(), []*learn.Variable{cv})
			res[fmt.Sprintf("discriminative %v %d", lt, bs)] = net.MustImport(w.Root).Net.N
		}
	}
	S := score.NewScore()
	S.EvaluatePosterior(cp(), L, b.Root, cv)
	S2 := score.NewScore()
	S2.EvaluatePosteriorConc(cp(), L, b.Root, cv, 2)
	res["score"] = []int{S.Hits(), S.Misses(), S2.Hits(), S2.Misses()}
	var M [][]int
	for _, I := range D {
		var row []int
		for _, v := range vars {
			row = append(row, I[v])
		}
		M = append(M, row)
	}
	C := cluster.DBSCAN(M, 1.5, 1)
	var cs []string
	for _, c := range C {
		var rows []string
		for i, r := range c {
			rows = append(rows, fmt.Sprint(i, r))
		}
		sort.Strings(rows)
		cs = append(cs, strings.Join(rows, ";"))
	}
	sort.Strings(cs)
	res["dbscan"] = cs
	scope := map[int]*learn.Variable{}
	for _, v := range vars {
		scope[v] = &learn.Variable{Varid: v, Categories: n.Cats()[v]}
	}
	vd := learn.DataToVarData(cp(), scope)
	for name, g := range map[string]*indep.Graph{"graph": indep.NewIndepGraph(vd, 0.05), "ufgraph": indep.NewUFIndepGraph(vd, 0.05)} {
		var ks []string
		for _, k := range g.Kset {
			k = append([]int(nil), k...)
			sort.Ints(k)
			ks = append(ks, fmt.Sprint(k))
		}
		sort.Strings(ks)
		res[name] = ks
	}
	w := n.Build()
	spn.NormalizeSPN(w.Root)
	res["normalized"] = net.MustImport(w.Root).Net.N
	return res
}

func equal(a, b interface{}) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	return fmt.Sprint(a) == fmt.Sprint(b) // infinities and NaNs
}

func verbose(m *vk.M) {
	dir := m.Tmp()
	defer restore(false)
	var n *net.Net
	for {
		n = net.Valid(m.R, net.RandOpt(m.R))
		n = n.Prune()
		ok := len(n.N) < 120 && n.Paths() < 3000 && len(n.Scope()) > 1
		for _, x := range n.N {
			ok = ok && x.K != net.Gauss
			for _, w := range x.W {
				ok = ok && w > 0
			}
			for _, p := range x.Pr {
				ok = ok && p > 0
			}
			ok = ok && x.K != net.Ind
		}
		if ok {
			break
		}
	}
	var D []map[int]int
	var L []int
	for i := 0; i < 3+m.R.Intn(6); i++ {
		I := map[int]int{}
		for _, v := range n.Scope() {
			I[v] = m.R.Intn(n.Cats()[v])
		}
		D = append(D, I)
		L = append(L, I[n.Scope()[0]])
	}
	quiet := filepath.Join(dir, "quiet")
	f, err := sys.SetLogFile(quiet)
	m.Must(err == nil, "%v", err)
	sys.Verbose = false
	a := run(m.Seed, m, n, D, L)
	b, _ := os.ReadFile(quiet)
	f.Close()
	m.Check(len(b) == 0, "diagnostics although not verbose: %.200q", b)
	loud := filepath.Join(dir, "loud")
	f, err = sys.SetLogFile(loud)
	m.Must(err == nil, "%v", err)
	sys.Verbose = true
	c := run(m.Seed, m, n, D, L)
	sys.Verbose = false
	b, _ = os.ReadFile(loud)
	f.Close()
	m.Check(len(b) > 0, "no diagnostics although verbose")
	for k := range a {
		m.Check(equal(a[k], c[k]), "%s differs when verbose: %.300v, quiet %.300v", k, c[k], a[k])
	}
	m.Count("results compared", len(a))
	m.Count("bytes of diagnostics", len(b))
	m.Sig("%s", n.Shape())
	m.Sample("%v", n)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C30",
		Rule: "histories of log redirections, verbosity changes and messages against a model of every log; inference, MAP, derivatives, weight learning, scoring, clustering, independence graphs and normalisation run quiet and verbose on equal inputs and compared; distinct by history or network",
		Assumptions: []string{
			"log files are distinct and not written by others",
		},
		Workloads: []vk.Workload{
			{Name: "history", Quick: 6000, Thorough: 40000, F: history},
			{Name: "timed", Quick: 150, Thorough: 500, F: timed},
			{Name: "verbose", Quick: 1200, Thorough: 6000, F: verbose},
		},
	})
}

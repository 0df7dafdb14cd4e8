// C16: concurrent use is race-free and gives the sequential results.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"verif/lref"
	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/dennis"
	"github.com/RenatoGeh/gospn/learn/gens"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/score"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
)

var clock int64

// together runs f(0..n-1) in n goroutines released at once and reports how many
// pairs of operations overlapped in time.
func together(m *vk.M, n int, f func(g int)) {
	var wg, ready sync.WaitGroup
	start := make(chan struct{})
	type span struct{ a, b int64 }
	sp := make([]span, n)
	ready.Add(n)
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			ready.Done()
			<-start
			sp[g].a = atomic.AddInt64(&clock, 1)
			f(g)
			sp[g].b = atomic.AddInt64(&clock, 1)
		}(g)
	}
	ready.Wait()
	close(start)
	wg.Wait()
	over := 0
	for i := range sp {
		for j := i + 1; j < n; j++ {
			if sp[i].a < sp[j].b && sp[j].a < sp[i].b {
				over++
			}
		}
	}
	m.Count("goroutines", n)
	m.Count("overlapping_pairs", over)
}

func yield(r *rand.Rand) {
	for k := r.Intn(4); k > 0; k-- {
		runtime.Gosched()
	}
}

type ask struct {
	op   int
	i    int // index of the evidence
	node int
	y    int
}

type ans struct {
	vals []float64
	st   map[int]int
	tr   map[int]int
}

var opNames = []string{"Inference", "Value", "Max", "ArgMax", "InferenceY", "StoreInference", "StoreMAP", "TraceMAP", "DeriveSPN", "DeriveWeights", "DeriveHard", "TopSort", "Search", "Height"}

func coll(y int) common.Collection {
	switch y % 3 {
	case 0:
		return &common.Queue{}
	case 1:
		return &common.Stack{}
	}
	return nil
}

// do performs one query on the shared network.
func do(b *net.Built, E []map[int]int, q ask) ans {
	e := E[q.i]
	var a ans
	root := b.Root
	table := func(st *spn.Storer, tk int) {
		for _, s := range b.Nodes {
			v, _ := st.Single(tk, s)
			a.vals = append(a.vals, v)
		}
	}
	switch q.op {
	case 0:
		a.vals = []float64{spn.Inference(root, e)}
	case 1:
		a.vals = []float64{b.Nodes[q.node].Value(e)}
	case 2:
		a.vals = []float64{b.Nodes[q.node].Max(e)}
	case 3:
		s, v := b.Nodes[q.node].ArgMax(e)
		a.st, a.vals = s, []float64{v}
	case 4:
		sc := b.Net.Scope()
		v := sc[q.y%len(sc)]
		c := net.CopyEv(e)
		delete(c, v)
		a.vals = []float64{spn.InferenceY(root, c, v, 0)}
	case 5:
		st := spn.NewStorer()
		_, tk := spn.StoreInference(root, e, -1, st)
		table(st, tk)
	case 6:
		st := spn.NewStorer()
		_, tk, s := spn.StoreMAP(root, e, -1, st)
		table(st, tk)
		a.st = s
	case 7:
		a.tr = map[int]int{}
		for s, k := range spn.TraceMAP(root, e) {
			a.tr[b.Index[s]] = k
		}
	case 8, 9:
		st := spn.NewStorer()
		_, itk := spn.StoreInference(root, e, -1, st)
		_, tk := learn.DeriveSPN(root, st, -1, itk, coll(q.y))
		table(st, tk)
		if q.op == 9 {
			_, wt := learn.DeriveWeights(root, st, -1, tk, itk, coll(q.y/3))
			for i, x := range b.Net.N {
				for j := range x.W {
					v, _ := st.Entry(wt, b.Nodes[i], j)
					a.vals = append(a.vals, v)
				}
			}
		}
	case 10:
		st := spn.NewStorer()
		tk := learn.DeriveHard(root, st, -1, e)
		for i, x := range b.Net.N {
			for j := range x.W {
				v, _ := st.Entry(tk, b.Nodes[i], j)
				a.vals = append(a.vals, v)
			}
		}
	case 11:
		var c common.Collection
		switch q.y % 3 {
		case 0:
			c = spn.TopSortTarjan(root, &common.Queue{})
		case 1:
			c = spn.TopSortDFS(root, &common.Queue{})
		default:
			c = spn.TopSortTarjanRec(root, &common.Queue{})
		}
		for !c.Empty() {
			a.vals = append(a.vals, float64(b.Index[c.Take().(spn.SPN)]))
		}
	case 12:
		f := func(s spn.SPN) int { a.vals = append(a.vals, float64(b.Index[s])); return 0 }
		if q.y%2 == 0 {
			spn.BreadthFirst(root, f)
		} else {
			spn.DepthFirst(root, f)
		}
	case 13:
		a.vals = []float64{float64(spn.ComputeHeight(root))}
	}
	return a
}

func queries(m *vk.M) {
	var n *net.Net
	switch m.R.Intn(5) {
	case 0:
		n = net.Skip(m.R, 2+m.R.Intn(5))
	case 1:
		n = net.Ladder(m.R, 2+m.R.Intn(6))
	default:
		o := net.RandOpt(m.R)
		o.MaxNodes = 80
		n = net.Valid(m.R, o)
	}
	var E []map[int]int
	for i := 0; i < 4; i++ {
		E = append(E, n.RandEv(m.R, []float64{0, 0.3, 0.7, 1}[m.R.Intn(4)]))
	}
	m.Note("net %v", n)
	m.Note("evidence %v", E)
	G := []int{2, 3, 4, 8, 8, 16}[m.R.Intn(6)]
	var Q [][]ask
	hot := -1
	if m.R.Intn(3) == 0 {
		hot = m.R.Intn(len(opNames)) // everybody does the same
	}
	for g := 0; g < G; g++ {
		var l []ask
		for k := 1 + m.R.Intn(8); k > 0; k-- {
			q := ask{m.R.Intn(len(opNames)), m.R.Intn(len(E)), m.R.Intn(len(n.N)), m.R.Intn(100)}
			if hot >= 0 {
				q.op = hot
			}
			if n.Leaf(n.Root()) && (q.op == 8 || q.op == 9 || q.op == 10 || q.op == 7) {
				q.op = 0
			}
			l = append(l, q)
		}
		Q = append(Q, l)
	}
	// Expected results: a network of its own, one call after the other.
	ref := n.Build()
	want := make([][]ans, G)
	tie := false
	for g := range Q {
		for _, q := range Q[g] {
			x := do(ref, E, q)
			if q.op == 7 || q.op == 10 { // the trace is only determined without ties
				for k := 0; k < 3; k++ {
					y := do(ref, E, q)
					tie = tie || fmt.Sprint(x) != fmt.Sprint(y)
				}
			}
			want[g] = append(want[g], x)
		}
	}
	b := n.Build() // fresh: first uses happen concurrently
	snap := net.Take(b.Root)
	got := make([][]ans, G)
	seeds := make([]int64, G)
	ev := make([][]map[int]int, G) // each goroutine has its own evidence
	for g := range seeds {
		seeds[g] = m.R.Int63()
		for _, e := range E {
			ev[g] = append(ev[g], net.CopyEv(e))
		}
	}
	together(m, G, func(g int) {
		r := rand.New(rand.NewSource(seeds[g]))
		for _, q := range Q[g] {
			yield(r)
			got[g] = append(got[g], do(b, ev[g], q))
		}
	})
	for g := range Q {
		for k, q := range Q[g] {
			w, x := want[g][k], got[g][k]
			name := opNames[q.op]
			m.Count("queries", 1)
			m.Count("q_"+name, 1)
			impossible := math.IsInf(n.MaxEval(E[q.i])[n.Root()], -1)
			if (q.op == 7 || q.op == 10) && (tie || impossible || hasTies(n)) {
				continue
			}
			ok := len(w.vals) == len(x.vals)
			for i := 0; ok && i < len(w.vals); i++ {
				ok = net.Near(w.vals[i], x.vals[i])
			}
			m.Check(ok, "%s under concurrency = %v, sequentially %v (evidence %v)", name, x.vals, w.vals, E[q.i])
			if w.st != nil && !math.IsInf(w.vals[len(w.vals)-1], -1) {
				same := len(w.st) == len(x.st)
				for v := range w.st {
					_, in := x.st[v]
					same = same && in
				}
				m.Check(same, "%s under concurrency assigns %v, sequentially %v", name, x.st, w.st)
				if !hasTies(n) {
					m.Check(net.SameEv(w.st, x.st), "%s under concurrency assigns %v, sequentially %v", name, x.st, w.st)
					m.Count("states_compared", 1)
				}
			}
			if w.tr != nil {
				m.Check(net.SameEv(w.tr, x.tr), "%s under concurrency = %v, sequentially %v", name, x.tr, w.tr)
			}
		}
		for i := range E {
			m.Check(net.SameEv(ev[g][i], E[i]), "the evidence %v became %v", E[i], ev[g][i])
		}
	}
	d := snap.Changed()
	m.Check(d == "", "queries changed the network: %s", d)
	m.Sig("%s|%v|%d|%d", n.Shape(), E, G, hot)
	m.Sample("%d goroutines on %v", G, n)
}

// hasTies says whether the network may offer equal best choices.
func hasTies(n *net.Net) bool {
	for i := range n.N {
		x := &n.N[i]
		if x.K >= net.Multi && x.K != net.Gauss {
			p := append([]float64(nil), x.Pr...)
			sort.Float64s(p)
			for j := 1; j < len(p); j++ {
				if p[j]-p[j-1] < 1e-9 {
					return true
				}
			}
		}
		seen := map[int]bool{}
		for _, c := range x.Ch {
			if seen[c] {
				return true
			}
			seen[c] = true
		}
	}
	// Sums with equal or zero products are rare with random weights; rule out
	// the degenerate ones.
	for i := range n.N {
		for _, w := range n.N[i].W {
			if w < 1e-12 {
				return true
			}
		}
		if x := &n.N[i]; x.K != net.Sum && x.K != net.Prod && x.K != net.Gauss && len(x.Pr) == 0 {
			return true
		}
	}
	return false
}

type data struct {
	sc   map[int]*learn.Variable
	D    []map[int]int
	ids  []int
	pval float64
	eps  float64
	mp   int
	k, g int
	nv   int
}

func mk(r *rand.Rand) *data {
	t := &data{sc: map[int]*learn.Variable{}}
	t.nv = 2 + r.Intn(5)
	n := 4 + r.Intn(30)
	cats := 2 + r.Intn(3)
	for v := 0; v < t.nv; v++ {
		t.sc[v] = &learn.Variable{Varid: v, Categories: cats, Name: fmt.Sprintf("X%d", v)}
		t.ids = append(t.ids, v)
	}
	dep := r.Float64()
	for i := 0; i < n; i++ {
		I := map[int]int{}
		z := r.Intn(cats)
		for v := 0; v < t.nv; v++ {
			I[v] = r.Intn(cats)
			if r.Float64() < dep {
				I[v] = (z + v) % cats
			}
		}
		t.D = append(t.D, I)
	}
	t.pval = []float64{0.0001, 0.01, 0.05, 0.3, 0.9, 1}[r.Intn(6)]
	t.eps = []float64{0, 0.5, 1, 1.5, 3}[r.Intn(5)]
	t.mp = 1 + r.Intn(3)
	t.k = []int{-1, 0, 0, 1, 2, 3}[r.Intn(6)]
	t.g = 1 + r.Intn(3)
	return t
}

func valid(m *vk.M, who string, S spn.SPN, t *data) *net.Net {
	b, err := net.Import(S)
	m.Must(err == nil, "%s: malformed network under concurrency: %v", who, err)
	n := b.Net
	m.Check(n.Complete() && n.Decomposable(), "%s: invalid network under concurrency: %v", who, n)
	ok, why := n.Normalized(1e-9)
	m.Check(ok, "%s: not normalised under concurrency: %s", who, why)
	m.Check(fmt.Sprint(n.Scope()) == fmt.Sprint(t.ids), "%s: scope %v, want %v", who, n.Scope(), t.ids)
	return n
}

// structures: several learners at work at the same time, concurrent ones too.
func structures(m *vk.M) {
	G := []int{2, 3, 4, 6}[m.R.Intn(4)]
	T := make([]*data, G)
	kind := make([]int, G)
	procs := make([]int, G)
	ref := make([]*net.Net, G)
	got := make([]spn.SPN, G)
	P := make([]*parameters.P, G)
	names := []string{"Learn", "LearnConcurrent", "LearnGauss", "LearnGaussConcurrent", "dennis.Structure", "dennis.LearnGD"}
	do := func(g int) spn.SPN {
		t := T[g]
		switch kind[g] {
		case 0:
			return gens.Learn(t.sc, t.D, t.k, t.pval, t.eps, t.mp)
		case 1:
			return gens.LearnConcurrent(t.sc, t.D, t.k, t.pval, t.eps, t.mp, procs[g])
		case 2:
			return gens.LearnGauss(t.sc, t.D, t.k, t.pval, t.eps, t.mp, t.g)
		case 3:
			return gens.LearnGaussConcurrent(t.sc, t.D, t.k, t.pval, t.eps, t.mp, t.g, procs[g])
		case 4:
			return dennis.Structure(t.D, t.sc, max(t.k, 1), 1+t.g%2, t.g, 0.5)
		default:
			return dennis.LearnGD(t.D, t.sc, max(t.k, 1), 1+t.g%2, t.g, 0.5, P[g], 0)
		}
	}
	for g := range T {
		if g > 0 && m.R.Intn(4) == 0 {
			T[g] = T[g-1] // the same dataset and scope, shared
		} else {
			T[g] = mk(m.R)
		}
		kind[g] = m.R.Intn(6)
		procs[g] = []int{-1, 0, 2, 3, 8}[m.R.Intn(5)]
		P[g] = parameters.Default()
		P[g].LearningType = []int{parameters.SoftGD, parameters.HardGD}[m.R.Intn(2)]
		P[g].BatchSize = m.R.Intn(3)
		P[g].Iterations = 1
		P[g].Eta = 0.01
		m.Note("%s procs %d %+v", names[kind[g]], procs[g], *T[g])
		if kind[g] < 4 && T[g].k <= 0 {
			ref[g] = net.MustImport(do(g)).Net
		}
	}
	keep := make([][]map[int]int, G)
	for g := range T {
		for _, I := range T[g].D {
			keep[g] = append(keep[g], net.CopyEv(I))
		}
	}
	together(m, G, func(g int) { got[g] = do(g) })
	for g := range T {
		m.Must(got[g] != nil, "%s returned no network", names[kind[g]])
		n := valid(m, names[kind[g]], got[g], T[g])
		for i := range keep[g] {
			m.Check(net.SameEv(keep[g][i], T[g].D[i]), "%s changed instance %d", names[kind[g]], i)
		}
		m.Count("networks", 1)
		m.Count("l_"+names[kind[g]], 1)
		if kind[g] == 5 {
			p, ok := parameters.Retrieve(got[g])
			m.Check(ok && p == P[g], "dennis.LearnGD bound other parameters")
			parameters.Unbind(got[g])
		}
		if ref[g] == nil {
			continue
		}
		m.Check(len(n.N) == len(ref[g].N), "%s under concurrency gives %d nodes, sequentially %d", names[kind[g]], len(n.N), len(ref[g].N))
		for i := 0; i < 6; i++ {
			e := net.CopyEv(T[g].D[m.R.Intn(len(T[g].D))])
			for v := range e {
				if m.R.Intn(3) == 0 {
					delete(e, v)
				}
			}
			a, b := n.Eval(e)[n.Root()], ref[g].Eval(e)[ref[g].Root()]
			m.Check(net.Near(a, b), "%s under concurrency: log-probability of %v = %v, sequentially %v", names[kind[g]], e, a, b)
			m.Count("densities_compared", 1)
		}
	}
	m.Sig("%v|%v|%v", kind, procs, T[0].D)
	m.Sample("%d learners at once", G)
}

// weights: weight learning on networks of one's own, with parameters of one's own.
func weights(m *vk.M) {
	G := []int{2, 3, 4, 8}[m.R.Intn(4)]
	type job struct {
		n    *net.Net
		ref  *net.Net
		b    *net.Built
		D    spn.Dataset
		Y    []*learn.Variable
		p    lref.P
		disc bool
		upd  int
	}
	var J []*job
	for tries := 0; len(J) < G && tries < 60; tries++ {
		o := net.RandOpt(m.R)
		o.W, o.ZeroPr, o.MaxNodes = net.WNorm, false, 60
		o.Vars = 2 + m.R.Intn(4)
		j := &job{n: net.Valid(m.R, o), disc: m.R.Intn(2) == 0}
		if j.n.Leaf(j.n.Root()) {
			continue
		}
		j.p = lref.P{Eta: []float64{0.0005, 0.002, 0.01}[m.R.Intn(3)], Lambda: []float64{0, 0.01, 0.1}[m.R.Intn(3)],
			Batch: m.R.Intn(4), Iter: 1 + m.R.Intn(2), Norm: m.R.Intn(3) > 0, Hard: m.R.Intn(2) == 0}
		sc, cats := j.n.Scope(), j.n.Cats()
		y := sc[m.R.Intn(len(sc))]
		j.Y = []*learn.Variable{{Varid: y, Categories: cats[y], Name: "y"}}
		for i := 0; i < 6; i++ {
			e := j.n.RandEv(m.R, 0.8)
			if j.disc {
				e[y] = net.DrawVal(m.R, cats[y])
			}
			if !math.IsInf(j.n.Eval(e)[j.n.Root()], -1) {
				j.D = append(j.D, e)
			}
		}
		if len(j.D) == 0 {
			continue
		}
		j.ref = j.n.Clone()
		var l *lref.L
		if j.disc {
			l = lref.Discriminative(j.ref, j.D, []int{y}, j.p)
		} else {
			l = lref.Generative(j.ref, j.D, j.p)
		}
		if l.Ill != "" {
			continue
		}
		j.upd = l.Updates
		j.b = j.n.Build()
		J = append(J, j)
	}
	if len(J) < 2 {
		return
	}
	together(m, len(J), func(g int) {
		j := J[g]
		lt := parameters.SoftGD
		if j.p.Hard {
			lt = parameters.HardGD
		}
		parameters.Bind(j.b.Root, parameters.New(j.p.Norm, false, 0.01, lt, j.p.Eta, 1.0, j.p.Batch, j.p.Lambda, j.p.Iter))
		runtime.Gosched()
		if j.disc {
			learn.Discriminative(j.b.Root, j.D, j.Y)
		} else {
			learn.Generative(j.b.Root, j.D)
		}
		parameters.Unbind(j.b.Root)
	})
	for g, j := range J {
		m.Note("job %d disc %v %+v net %v data %v label %d", g, j.disc, j.p, j.n, j.D, j.Y[0].Varid)
		for i := range j.ref.N {
			if j.ref.N[i].K != net.Sum {
				continue
			}
			w := j.b.Nodes[i].(*spn.Sum).Weights()
			for k := range w {
				m.Check(net.Close(w[k], j.ref.N[i].W[k], 1e-6), "learner %d of %d: weight %d of sum %d = %v, alone %v", g, len(J), k, i, w[k], j.ref.N[i].W[k])
				m.Count("weights_compared", 1)
			}
		}
		m.Count("updates", j.upd)
	}
	m.Sig("%d|%s|%v", len(J), J[0].n.Shape(), J[0].p)
}

// scores: several concurrent evaluations of one shared network at once.
func scores(m *vk.M) {
	o := net.RandOpt(m.R)
	o.W, o.Ties, o.ZeroPr, o.MaxNodes = net.WNorm, false, false, 60
	o.Kinds = []net.Kind{net.Multi}
	o.Vars = 2 + m.R.Intn(4)
	n := net.Valid(m.R, o)
	sc, cats := n.Scope(), n.Cats()
	cv := sc[m.R.Intn(len(sc))]
	C := cats[cv]
	V := &learn.Variable{Varid: cv, Categories: C, Name: "class"}
	var T spn.Dataset
	var L []int
	var want []string
	for i := 0; i < 10+m.R.Intn(30); i++ {
		e := n.RandEv(m.R, 0.8)
		delete(e, cv)
		best, bv, second := 0, math.Inf(-1), math.Inf(-1)
		for l := 0; l < C; l++ {
			e[cv] = l
			v := n.Eval(e)[n.Root()]
			if v > bv {
				second, bv, best = bv, v, l
			} else if v > second {
				second = v
			}
		}
		delete(e, cv)
		if bv-second < 1e-7 || math.IsInf(bv, -1) {
			continue
		}
		T = append(T, e)
		L = append(L, m.R.Intn(C))
		want = append(want, fmt.Sprintf("%d/%d", best, L[len(L)-1]))
	}
	if len(T) == 0 {
		return
	}
	M := make([][]int, C)
	for i := range M {
		M[i] = make([]int, C)
	}
	for i, w := range want {
		var p, l int
		fmt.Sscanf(w, "%d/%d", &p, &l)
		_ = i
		M[l][p]++
	}
	m.Note("net %v class %d data %v labels %v", n, cv, T, L)
	b := n.Build()
	G := 1 + m.R.Intn(4)
	S := make([]*score.S, G)
	K := make([]int, G)
	D := make([]spn.Dataset, G)
	for g := range S {
		S[g] = score.NewScore()
		K[g] = []int{-1, 0, 1, 2, 3, 8, len(T)}[m.R.Intn(7)]
		for _, e := range T {
			D[g] = append(D[g], net.CopyEv(e))
		}
	}
	together(m, G, func(g int) {
		if g == 3 {
			S[g].EvaluatePosterior(D[g], L, b.Root, V)
		} else {
			S[g].EvaluatePosteriorConc(D[g], L, b.Root, V, K[g])
		}
	})
	for g := range S {
		m.Check(S[g].Total() == len(T), "evaluation with %d jobs registered %d of %d instances", K[g], S[g].Total(), len(T))
		m.Check(S[g].Hits()+S[g].Misses() == S[g].Total(), "hits %d + misses %d != total %d", S[g].Hits(), S[g].Misses(), S[g].Total())
		c := S[g].ConfusionMatrix(C)
		m.Check(fmt.Sprint(c) == fmt.Sprint(M), "evaluation with %d jobs: confusion %v, sequentially %v", K[g], c, M)
		m.Count("instances_scored", len(T))
	}
	m.Sig("%s|%v|%v", n.Shape(), K, T)
}

// draws: the shared generator hands each number of its sequence to one caller.
func draws(m *vk.M) {
	seed := m.R.Int63()
	op := m.R.Intn(4)
	G := []int{2, 4, 8, 16}[m.R.Intn(4)]
	k := 5 + m.R.Intn(40)
	one := func() string {
		switch op {
		case 0:
			return fmt.Sprint(sys.RandFloat64())
		case 1:
			return fmt.Sprint(sys.RandNormFloat64())
		case 2:
			return fmt.Sprint(sys.RandIntn(1 << 40))
		}
		return fmt.Sprint(sys.RandomComb(4, 4, 9))
	}
	sys.RefreshRandom(seed)
	var want []string
	for i := 0; i < G*k; i++ {
		want = append(want, one())
	}
	next := one()
	sys.RefreshRandom(seed)
	out := make([][]string, G)
	together(m, G, func(g int) {
		for i := 0; i < k; i++ {
			out[g] = append(out[g], one())
			if (i+g)%5 == 0 {
				runtime.Gosched()
			}
		}
	})
	pos := map[string][]int{}
	for i, w := range want {
		pos[w] = append(pos[w], i)
	}
	var got []string
	switches := 0
	for g := range out {
		last := -1
		for _, x := range out[g] {
			got = append(got, x)
			p := pos[x]
			if len(p) == 1 {
				m.Check(p[0] > last, "goroutine %d drew number %d after number %d of the sequence", g, p[0], last)
				if p[0] != last+1 {
					switches++
				}
				last = p[0]
			}
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	m.Check(strings.Join(want, " ") == strings.Join(got, " "), "%d goroutines drew other numbers than the seeded sequence holds", G)
	m.Check(one() == next, "the generator is not at its expected position after %d concurrent draws", G*k)
	m.Count("draws", G*k)
	m.Count("interleavings_in_sequence", switches)
	m.Sig("%d|%d|%d|%d", op, G, k, switches)
}

// reseeds: one goroutine reseeds the shared generator while others draw from it.
func reseeds(m *vk.M) {
	G := []int{2, 4, 8, 16}[m.R.Intn(4)]
	k := 5 + m.R.Intn(40)
	seed := m.R.Int63()
	bad := make([]string, G)
	together(m, G, func(g int) {
		for i := 0; i < k; i++ {
			if g == 0 {
				sys.RefreshRandom(seed + int64(i))
				runtime.Gosched()
				continue
			}
			switch (i + g) % 4 {
			case 0:
				if x := sys.RandFloat64(); x < 0 || x >= 1 {
					bad[g] = fmt.Sprint("RandFloat64 ", x)
				}
			case 1:
				sys.RandNormFloat64()
			case 2:
				if x := sys.RandIntn(i + 1); x < 0 || x > i {
					bad[g] = fmt.Sprintf("RandIntn(%d) = %d", i+1, x)
				}
			default:
				seen := map[[2]int]bool{}
				for _, p := range sys.RandomComb(4, 4, 9) {
					seen[p] = true
				}
				if len(seen) != 9 {
					bad[g] = fmt.Sprintf("RandomComb drew %d distinct pairs of 9", len(seen))
				}
			}
		}
	})
	for g := range bad {
		m.Check(bad[g] == "", "goroutine %d: %s", g, bad[g])
	}
	sys.RefreshRandom(seed)
	a := []float64{sys.RandFloat64(), sys.RandNormFloat64(), sys.RandFloat64()}
	sys.RefreshRandom(seed)
	b := []float64{sys.RandFloat64(), sys.RandNormFloat64(), sys.RandFloat64()}
	m.Check(fmt.Sprint(a) == fmt.Sprint(b), "draws after reseeding differ: %v and %v", a, b)
	m.Count("reseeds", k)
	m.Count("draws", (G-1)*k)
	m.Sig("reseed|%d|%d|%d", G, k, seed)
}

// bindings: parameters of distinct objects do not disturb each other.
func bindings(m *vk.M) {
	G := []int{2, 4, 8, 16}[m.R.Intn(4)]
	per := 1 + m.R.Intn(4)
	type obj struct {
		s spn.SPN
		p *parameters.P
	}
	objs := make([][]obj, G)
	steps := make([][]int, G)
	for g := range objs {
		for i := 0; i < per; i++ {
			var s spn.SPN
			switch m.R.Intn(3) {
			case 0:
				s = spn.NewSum()
			case 1:
				s = spn.NewProduct()
			default:
				s = spn.NewMultinomial(0, []float64{0.5, 0.5})
			}
			objs[g] = append(objs[g], obj{s: s})
		}
		for i := 0; i < 30; i++ {
			steps[g] = append(steps[g], m.R.Intn(4*per))
		}
	}
	errs := make([]string, G)
	together(m, G, func(g int) {
		for i, st := range steps[g] {
			o := &objs[g][st/4]
			switch st % 4 {
			case 0, 1:
				o.p = parameters.New(i%2 == 0, false, float64(i), i%4, float64(g), 1, i, 0.1, g)
				parameters.Bind(o.s, o.p)
			case 2:
				parameters.Unbind(o.s)
				o.p = nil
			}
			p, ok := parameters.Retrieve(o.s)
			if ok != (o.p != nil) || ok && p != o.p {
				errs[g] = fmt.Sprintf("step %d: Retrieve = %v, %v; bound %v", i, p, ok, o.p)
			}
			if parameters.Exists(o.s) != (o.p != nil) {
				errs[g] = fmt.Sprintf("step %d: Exists = %v, bound %v", i, o.p == nil, o.p)
			}
		}
	})
	for g := range objs {
		m.Check(errs[g] == "", "goroutine %d: %s", g, errs[g])
		for _, o := range objs[g] {
			p, ok := parameters.Retrieve(o.s)
			m.Check(ok == (o.p != nil) && (!ok || p == o.p), "after all: Retrieve = %v, %v; bound %v", p, ok, o.p)
			parameters.Unbind(o.s)
		}
	}
	m.Count("binding_steps", 30*G)
	m.Sig("%d|%d|%v", G, per, steps[0])
}

// conversions: the buffered image conversion writes what the plain one writes.
func conversions(m *vk.M) {
	G := 1 + m.R.Intn(3)
	dirs := make([]string, G)
	for g := range dirs {
		dirs[g] = m.Tmp()
		w, h, top := 1+m.R.Intn(4), 1+m.R.Intn(4), 1+m.R.Intn(255)
		for c := 0; c < 1+m.R.Intn(3); c++ {
			d := filepath.Join(dirs[g], fmt.Sprintf("class%d", c))
			os.Mkdir(d, 0o755)
			for i := 0; i < 1+m.R.Intn(12); i++ {
				s := fmt.Sprintf("P2\n%d %d\n%d\n", w, h, top)
				for j := 0; j < w*h; j++ {
					s += fmt.Sprintf("%d\n", m.R.Intn(top+1))
				}
				os.WriteFile(filepath.Join(d, fmt.Sprintf("i%d.pgm", i)), []byte(s), 0o644)
			}
		}
	}
	lines := func(f string) string {
		raw, err := os.ReadFile(f)
		m.Must(err == nil, "no output: %v", err)
		l := strings.Split(strings.TrimSpace(string(raw)), "\n")
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	want := make([]string, G)
	for g, d := range dirs {
		io.PGMFToData(d, "plain.data")
		want[g] = lines(filepath.Join(d, "compiled", "plain.data"))
	}
	for k := 0; k < 2; k++ {
		together(m, G, func(g int) { io.BufferedPGMFToData(dirs[g], "buf.data") })
		for g, d := range dirs {
			got := lines(filepath.Join(d, "compiled", "buf.data"))
			m.Check(got == want[g], "buffered conversion wrote\n%s\nthe plain one\n%s", got, want[g])
			m.Count("lines_compared", strings.Count(got, "\n")+1)
		}
	}
	m.Sig("%v", want)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C16",
		Rule: "all workloads run in the race-detector build; goroutines start at a barrier with injected yields: query mixes on a fresh shared network, several structure learners, several weight learners, several concurrent evaluations, draws from the shared generator, parameter bindings, buffered conversions, each against the sequential results; distinct by network, data and schedule parameters; the overlap counters say how many operations really overlapped",
		Assumptions: []string{
			"each goroutine uses storage and evidence of its own; the network is not modified meanwhile; reseeding is not concurrent",
			"tie breaks draw from the shared generator, so that traces and states are compared on networks without ties only",
			"the Poon learner keeps its image size in package variables and is not used concurrently",
		},
		Workloads: []vk.Workload{
			{Name: "queries", Quick: 1600, Thorough: 15000, Race: true, F: queries},
			{Name: "structures", Quick: 500, Thorough: 5000, Race: true, F: structures},
			{Name: "weights", Quick: 800, Thorough: 8000, Race: true, F: weights},
			{Name: "scores", Quick: 500, Thorough: 5000, Race: true, F: scores},
			{Name: "draws", Quick: 600, Thorough: 8000, Race: true, F: draws},
			{Name: "reseeds", Quick: 600, Thorough: 8000, Race: true, F: reseeds},
			{Name: "bindings", Quick: 600, Thorough: 8000, Race: true, F: bindings},
			{Name: "conversions", Quick: 250, Thorough: 2000, Race: true, F: conversions},
		},
	})
}

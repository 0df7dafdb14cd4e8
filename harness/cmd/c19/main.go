// C19: dataset manipulation conserves (instance, label) pairs and does not alias.
package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"verif/vk"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/learn"
)

type ds struct {
	D   []map[int]int
	L   []int
	c   int // number of classes
	Sc  map[int]*learn.Variable
	ids []int
}

func str(I map[int]int) string {
	k := make([]int, 0, len(I))
	for v := range I {
		k = append(k, v)
	}
	sort.Ints(k)
	s := ""
	for _, v := range k {
		s += fmt.Sprintf("%d=%d ", v, I[v])
	}
	return s
}

func strs(D []map[int]int) []string {
	s := make([]string, len(D))
	for i, I := range D {
		s[i] = str(I)
	}
	return s
}

func bag(s []string) map[string]int {
	b := map[string]int{}
	for _, x := range s {
		b[x]++
	}
	return b
}

func sameBag(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	p := bag(a)
	for _, x := range b {
		p[x]--
		if p[x] < 0 {
			return false
		}
	}
	return true
}

func sameSeq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func pairs(D []map[int]int, L []int) []string {
	s := make([]string, len(D))
	for i, I := range D {
		s[i] = str(I)
		if L != nil {
			s[i] += fmt.Sprintf("-> %d", L[i])
		}
	}
	return s
}

// gen draws a dataset; when tagged every instance is unique.
func gen(m *vk.M, n int) *ds {
	r := m.R
	x := &ds{c: 1 + r.Intn(5), Sc: map[int]*learn.Variable{}}
	nv := 1 + r.Intn(5)
	if r.Intn(12) == 0 {
		if x.c = 1 + r.Intn(40); r.Intn(10) == 0 {
			x.c = 200 + r.Intn(500)
		}
	}
	if n < 500 && r.Intn(12) == 0 {
		if nv = 1 + r.Intn(150); n < 30 && r.Intn(20) == 0 {
			nv = 400 + r.Intn(1200)
		}
	}
	wide := r.Intn(6) == 0 // values far outside the categories
	id := r.Intn(3)
	for i := 0; i < nv; i++ {
		x.ids = append(x.ids, id)
		x.Sc[id] = &learn.Variable{Varid: id, Categories: 1 + (id*7+len(x.D))%9, Name: fmt.Sprintf("X%d", id)}
		if r.Intn(3) == 0 {
			id += 1 + r.Intn(40)
		} else {
			id++
		}
	}
	tag := r.Intn(3) != 0
	skew := r.Intn(3)
	for i := 0; i < n; i++ {
		I := map[int]int{}
		for _, v := range x.ids {
			I[v] = r.Intn(4)
			if wide {
				I[v] = r.Intn(1<<21) - 1<<20
			}
		}
		if tag {
			I[x.ids[0]] = i
		}
		x.D = append(x.D, I)
		l := r.Intn(x.c)
		if skew == 1 && r.Intn(4) != 0 {
			l = 0
		} else if skew == 2 {
			l = i * x.c / n
		}
		x.L = append(x.L, l)
	}
	return x
}

func size(m *vk.M) int {
	if m.R.Intn(40) == 0 {
		return 250 + m.R.Intn(3000)
	}
	switch m.R.Intn(6) {
	case 0:
		return m.R.Intn(4)
	case 1:
		return 60 + m.R.Intn(140)
	}
	return 1 + m.R.Intn(40)
}

// guard checks that op neither modifies its inputs nor returns anything aliasing them.
type guard struct {
	m *vk.M
	x *ds
	d []string
	l []int
	p []map[int]int
}

func watch(m *vk.M, x *ds) *guard {
	g := &guard{m: m, x: x, d: strs(x.D), l: append([]int(nil), x.L...), p: append([]map[int]int(nil), x.D...)}
	return g
}

func (g *guard) same(what string) {
	g.m.Check(sameSeq(strs(g.x.D), g.d), "%s modified the instances of its input", what)
	ok := len(g.l) == len(g.x.L)
	for i := range g.l {
		ok = ok && g.x.L[i] == g.l[i]
	}
	g.m.Check(ok, "%s modified the labels of its input", what)
}

// alias scribbles over the output and over the input.
func (g *guard) alias(what string, D [][]map[int]int, L [][]int) {
	g.same(what)
	seen := map[uintptr]bool{}
	for _, I := range g.p {
		seen[reflect.ValueOf(I).Pointer()] = true
	}
	for _, d := range D {
		for _, I := range d {
			p := reflect.ValueOf(I).Pointer()
			g.m.Check(!seen[p], "%s returned instances sharing storage", what)
			seen[p] = true
		}
	}
	for _, d := range D {
		for _, I := range d {
			I[-7] = 99
			for k := range I {
				I[k]++
			}
		}
	}
	for _, l := range L {
		for i := range l {
			l[i] += 1000
		}
	}
	g.same(what + " (writing to its result)")
	// each output map must be its own
	var before []string
	for _, d := range D {
		before = append(before, strs(d)...)
	}
	if len(D) > 0 && len(D[0]) > 0 {
		D[0][0][-9] = 1
		k := 0
		for i, d := range D {
			for j, I := range d {
				if i+j > 0 {
					g.m.Check(str(I) == before[k], "%s returned instances sharing storage", what)
				}
				k++
			}
		}
		delete(D[0][0], -9)
	}
	for i := range g.x.D {
		g.x.D[i] = map[int]int{}
		for k := range g.p[i] {
			g.p[i][k] += 5000
		}
	}
	for i := range g.x.L {
		g.x.L[i] = -3
	}
	var after []string
	for _, d := range D {
		after = append(after, strs(d)...)
	}
	g.m.Check(sameSeq(before, after), "%s: writing to the input changes its result", what)
}

var dyadic = [][]float64{{0.5, 0.5}, {0.25, 0.75}, {0.75, 0.25}, {0.25, 0.25, 0.5}, {0.125, 0.875}, {1}, {0, 1}, {1, 0}, {0.5, 0.25, 0.125, 0.125}, {0.25, 0.25, 0.25, 0.25}}

func props(m *vk.M) ([]float64, bool) {
	switch m.R.Intn(3) {
	case 0:
		return append([]float64(nil), dyadic[m.R.Intn(len(dyadic))]...), true
	case 1:
		all := [][]float64{{0.3, 0.7}, {0.7, 0.3}, {0.1, 0.9}, {0.2, 0.8}, {0.9, 0.1}, {1.0 / 3, 1.0 / 3, 1.0 / 3}, {0.6, 0.4}, {0.29, 0.71}, {0.1, 0.2, 0.3, 0.4}}
		return append([]float64(nil), all[m.R.Intn(len(all))]...), false
	}
	k := 1 + m.R.Intn(6)
	if m.R.Intn(6) == 0 {
		k = 7 + m.R.Intn(30)
	}
	p := make([]float64, k)
	s := 0.0
	for i := range p {
		p[i] = m.R.Float64() + 0.01
		s += p[i]
	}
	for i := range p {
		p[i] /= s
	}
	return p, false
}

func near(x float64) (int, bool) {
	r := math.Round(x)
	return int(r), math.Abs(x-r) < 1e-9
}

func partition(m *vk.M) {
	x := gen(m, size(m))
	p, _ := props(m)
	in := strs(x.D)
	q := append([]float64(nil), p...)
	g := watch(m, x)
	P := data.Partition(x.D, p)
	m.Must(len(P) == len(p), "Partition returned %d parts for %d proportions", len(P), len(p))
	for i := range q {
		m.Check(q[i] == p[i], "Partition modified the proportions")
	}
	var out []string
	for i, d := range P {
		w := float64(len(x.D)) * p[i]
		k, exact := near(w)
		if exact {
			m.Check(len(d) == k, "part %d has %d of %d instances for proportion %v, want %d", i, len(d), len(x.D), p[i], k)
		}
		m.Check(math.Abs(float64(len(d))-w) < 1+1e-9, "part %d has %d of %d instances for proportion %v", i, len(d), len(x.D), p[i])
		out = append(out, strs(d)...)
	}
	m.Check(sameBag(in, out), "Partition lost, repeated or changed instances: %v -> %v", in, out)
	if len(in) >= 80 && len(bag(in)) == len(in) {
		m.Check(!sameSeq(in, out), "Partition is not random: the order is that of the input")
		m.Count("randomness_checked", 1)
	}
	g.alias("Partition", P, nil)
	m.Count("instances", len(in))
	m.Sig("%v|%v", in, p)
	m.Sample("Partition of %d instances by %v", len(in), p)
}

func partitionByLabels(m *vk.M) {
	x := gen(m, size(m))
	p, _ := props(m)
	in := pairs(x.D, x.L)
	N := make([]int, x.c)
	for _, l := range x.L {
		N[l]++
	}
	g := watch(m, x)
	P, L := data.PartitionByLabels(x.D, x.L, x.c, p)
	m.Must(len(P) == len(p) && len(L) == len(p), "PartitionByLabels returned %d parts, %d label vectors for %d proportions", len(P), len(L), len(p))
	n := float64(len(x.D))
	all := true
	for i := range p {
		for j := range N {
			_, ok := near(float64(N[j]) * p[i])
			all = all && ok
		}
	}
	var out []string
	for i := range P {
		m.Must(len(P[i]) == len(L[i]), "part %d has %d instances and %d labels", i, len(P[i]), len(L[i]))
		out = append(out, pairs(P[i], L[i])...)
		cnt := make([]int, x.c)
		for _, l := range L[i] {
			if l >= 0 && l < x.c {
				cnt[l]++
			}
		}
		for j := range N {
			w := float64(N[j]) * p[i]
			m.Check(float64(cnt[j]) >= math.Floor(w-1e-9), "part %d has %d instances of class %d (of %d, proportion %v)", i, cnt[j], j, N[j], p[i])
			if all {
				k, _ := near(w)
				m.Check(cnt[j] == k, "part %d has %d instances of class %d, want exactly %d", i, cnt[j], j, k)
			}
		}
		w := n * p[i]
		m.Check(math.Abs(float64(len(P[i]))-w) < 1+1e-6, "part %d has %d of %v instances for proportion %v", i, len(P[i]), n, p[i])
		if k, ok := near(w); ok && allInt(n, p) {
			m.Check(len(P[i]) == k, "part %d has %d instances, want exactly %d", i, len(P[i]), k)
		}
	}
	m.Check(sameBag(in, out), "PartitionByLabels does not conserve (instance, label) pairs: %v -> %v", in, out)
	if all {
		m.Count("exact", 1)
	}
	g.alias("PartitionByLabels", P, L)
	m.Count("instances", len(in))
	m.Sig("%v|%v", in, p)
	m.Sample("PartitionByLabels of %d instances of classes %v by %v", len(in), N, p)
}

func allInt(n float64, p []float64) bool {
	for _, q := range p {
		if _, ok := near(n * q); !ok {
			return false
		}
	}
	return true
}

func split(m *vk.M) {
	x := gen(m, size(m))
	in := pairs(x.D, x.L)
	g := watch(m, x)
	S := data.Split(x.D, x.c, x.L)
	m.Must(len(S) == x.c, "Split returned %d parts for %d classes", len(S), x.c)
	for l := range S {
		var w []string
		for i := range x.D {
			if x.L[i] == l {
				w = append(w, str(x.D[i]))
			}
		}
		m.Check(sameSeq(strs(S[l]), w), "Split class %d: %v, want %v", l, strs(S[l]), w)
	}
	g.alias("Split", S, nil)
	m.Count("instances", len(in))
	m.Sig("%v", in)
}

func copyOp(m *vk.M) {
	x := gen(m, size(m))
	in := pairs(x.D, x.L)
	g := watch(m, x)
	D, L := data.Copy(x.D, nil)
	m.Check(L == nil, "Copy without labels returned labels")
	m.Check(sameSeq(strs(D), strs(x.D)), "Copy differs from its input")
	D, L = data.Copy(x.D, x.L)
	m.Must(len(L) == len(x.L), "Copy returned %d labels for %d", len(L), len(x.L))
	m.Check(sameSeq(pairs(D, L), in), "Copy differs from its input")
	g.alias("Copy", [][]map[int]int{D}, [][]int{L})
	m.Count("instances", len(in))
	m.Sig("%v", in)
}

func shuffle(m *vk.M) {
	x := gen(m, size(m))
	lab := m.R.Intn(3) != 0
	ptr := map[string]int{}
	for _, I := range x.D {
		ptr[fmt.Sprintf("%p", I)]++
	}
	L := x.L
	if !lab {
		L = nil
	}
	in := pairs(x.D, L)
	data.Shuffle(x.D, L)
	out := pairs(x.D, L)
	m.Check(sameBag(in, out), "Shuffle separated instances from labels or lost some: %v -> %v", in, out)
	for _, I := range x.D {
		ptr[fmt.Sprintf("%p", I)]--
	}
	for _, k := range ptr {
		m.Check(k == 0, "Shuffle is not in place")
	}
	if len(in) >= 80 && len(bag(in)) == len(in) {
		m.Check(!sameSeq(in, out), "Shuffle left %d instances in order", len(in))
		m.Count("randomness_checked", 1)
	}
	m.Count("instances", len(in))
	m.Sig("%v", in)
}

func join(m *vk.M) {
	x, y := gen(m, size(m)), gen(m, size(m))
	mode := m.R.Intn(4)
	L, K := x.L, y.L
	if mode == 1 {
		L = nil
	} else if mode == 2 {
		K = nil
	} else if mode == 3 {
		L, K = nil, nil
	}
	if L == nil && mode%2 == 0 { // an empty dataset with (no) labels
		L = []int{}
	}
	if K == nil && mode < 2 {
		K = []int{}
	}
	var w []string
	if mode == 0 {
		w = append(pairs(x.D, L), pairs(y.D, K)...)
	} else {
		w = append(strs(x.D), strs(y.D)...)
	}
	g, h := watch(m, x), watch(m, y)
	J, P := data.Join(x.D, y.D, L, K)
	if mode == 0 {
		m.Must(len(P) == len(J), "Join returned %d labels for %d instances", len(P), len(J))
		m.Check(sameSeq(pairs(J, P), w), "Join: %v, want %v", pairs(J, P), w)
	} else {
		m.Check(P == nil, "Join returned labels although one dataset has none")
		m.Check(sameSeq(strs(J), w), "Join: %v, want %v", strs(J), w)
	}
	h.same("Join")
	g.alias("Join", [][]map[int]int{J}, [][]int{P})
	h.same("Join (writing to its result)")
	m.Count("instances", len(w))
	m.Sig("%v|%d", w, mode)
}

func subtract(m *vk.M) {
	x := gen(m, size(m))
	in := pairs(x.D, x.L)
	l := m.R.Intn(x.c + 1)
	var ws, wt []string
	for i := range x.D {
		if x.L[i] == l {
			wt = append(wt, in[i])
		} else {
			ws = append(ws, in[i])
		}
	}
	g := watch(m, x)
	S, P, T, Q := data.SubtractLabel(x.D, x.L, l)
	m.Must(len(S) == len(P) && len(T) == len(Q), "SubtractLabel returned %d/%d and %d/%d instances/labels", len(S), len(P), len(T), len(Q))
	m.Check(sameSeq(pairs(S, P), ws), "SubtractLabel %d: rest %v, want %v", l, pairs(S, P), ws)
	m.Check(sameSeq(pairs(T, Q), wt), "SubtractLabel %d: subtracted %v, want %v", l, pairs(T, Q), wt)
	g.alias("SubtractLabel", [][]map[int]int{S, T}, [][]int{P, Q})

	x = gen(m, size(m))
	v := x.ids[m.R.Intn(len(x.ids))]
	V := x.Sc[v]
	if m.R.Intn(5) == 0 {
		v = 777
		V = &learn.Variable{Varid: v, Categories: 2}
	}
	var w []string
	for _, I := range x.D {
		J := map[int]int{}
		for k, y := range I {
			if k != v {
				J[k] = y
			}
		}
		w = append(w, str(J))
	}
	g = watch(m, x)
	E := data.SubtractVariable(x.D, V)
	m.Check(sameSeq(strs(E), w), "SubtractVariable %d: %v, want %v", v, strs(E), w)
	g.alias("SubtractVariable", [][]map[int]int{E}, nil)
	m.Count("instances", len(in)+len(w))
	m.Sig("%v|%v", in, w)
}

func identical(m *vk.M) {
	x := gen(m, size(m))
	D, L := []map[int]int{}, append([]int{}, x.L...)
	for _, I := range x.D {
		J := map[int]int{}
		for k, v := range I {
			J[k] = v
		}
		D = append(D, J)
	}
	lab := m.R.Intn(2) == 0
	ask := func() bool {
		if lab && x.L != nil {
			return data.Identical(x.D, D, x.L, L)
		}
		return data.Identical(x.D, D, nil, nil)
	}
	m.Check(ask(), "equal datasets are not identical")
	n := len(D)
	if n > 0 {
		i := m.R.Intn(n)
		switch k := x.ids[m.R.Intn(len(x.ids))]; m.R.Intn(7) {
		case 0:
			D[i][k]++
			m.Check(!ask(), "identical although instance %d differs in a value", i)
		case 1:
			delete(D[i], k)
			m.Check(!ask(), "identical although instance %d of the second lacks a variable", i)
		case 2:
			D[i][9999] = 0
			m.Check(!ask(), "identical although instance %d of the second has one more variable", i)
		case 3:
			delete(D[i], k)
			D[i][9999] = 0
			m.Check(!ask(), "identical although instance %d has another variable", i)
		case 4:
			D = D[:n-1]
			L = L[:n-1]
			m.Check(!ask(), "identical although the second lacks an instance")
		case 5:
			D = append(D, map[int]int{})
			L = append(L, 0)
			m.Check(!ask(), "identical although the second has one more instance")
		default:
			L[i]++
			m.Check(ask() == !lab, "identical = %v with labels compared=%v and one label different", ask(), lab)
		}
	}
	a, b := x.D, D
	m.Count("instances", len(a)+len(b))
	m.Sig("%v", pairs(x.D, x.L))
}

func labels(m *vk.M) {
	x := gen(m, size(m))
	lv := x.ids[len(x.ids)-1]
	var w []string
	var wl []int
	full := strs(x.D)
	for _, I := range x.D {
		J := map[int]int{}
		for k, v := range I {
			if k != lv {
				J[k] = v
			}
		}
		w = append(w, str(J))
		wl = append(wl, I[lv])
	}
	g := watch(m, x)
	S, D, V, L := data.ExtractLabels(x.Sc, x.D)
	m.Must(V != nil && V.Varid == lv, "ExtractLabels: label variable %v, want %d", V, lv)
	m.Check(len(S) == len(x.Sc), "ExtractLabels: scope of %d variables, want the original %d", len(S), len(x.Sc))
	for k, v := range x.Sc {
		m.Check(S[k] == v, "ExtractLabels altered the scope")
	}
	m.Check(sameSeq(strs(D), w), "ExtractLabels: %v, want %v", strs(D), w)
	m.Must(len(L) == len(wl), "ExtractLabels: %d labels for %d instances", len(L), len(wl))
	for i := range wl {
		m.Check(L[i] == wl[i], "ExtractLabels: label of instance %d = %d, want %d", i, L[i], wl[i])
	}
	y := &ds{D: D, L: L}
	h := watch(m, y)
	T := data.MergeLabel(D, L, V)
	m.Check(sameSeq(strs(T), full), "merging the extracted labels back: %v, want %v", strs(T), full)
	g.same("MergeLabel")
	h.alias("MergeLabel", [][]map[int]int{T}, nil)
	g.same("ExtractLabels (writing to its result)")
	m.Count("instances", len(full))
	m.Sig("%v", full)
}

func divide(m *vk.M) {
	x := gen(m, size(m))
	n := 1 + m.R.Intn(12)
	if m.R.Intn(3) == 0 && len(x.D) > 0 {
		n = 1 + m.R.Intn(len(x.D)+2)
	}
	in := pairs(x.D, x.L)
	g := watch(m, x)
	P, L := data.Divide(x.D, x.L, n)
	m.Must(len(P) == len(L), "Divide returned %d parts and %d label vectors", len(P), len(L))
	m.Check(len(P) <= n, "Divide returned %d parts, want %d", len(P), n)
	if len(in) >= n {
		m.Check(len(P) == n, "Divide returned %d parts, want %d", len(P), n)
	}
	lo, hi := len(in), 0
	var out []string
	for i := range P {
		m.Must(len(P[i]) == len(L[i]), "part %d has %d instances and %d labels", i, len(P[i]), len(L[i]))
		out = append(out, pairs(P[i], L[i])...)
		if len(P[i]) < lo {
			lo = len(P[i])
		}
		if len(P[i]) > hi {
			hi = len(P[i])
		}
	}
	m.Check(hi-lo <= 1, "Divide: part sizes range from %d to %d", lo, hi)
	m.Check(sameBag(in, out), "Divide does not conserve (instance, label) pairs: %v -> %v", in, out)
	g.alias("Divide", P, L)
	m.Count("instances", len(in))
	m.Sig("%v|%d", in, n)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C19",
		Rule: "random datasets (empty, small, large, tagged or with repeated instances, gaps in variable ids, balanced, skewed and sorted labels) and proportions (dyadic, decimal, random); multiset conservation of (instance, label), documented sizes and order, inputs compared before/after, results and inputs overwritten to expose aliasing; distinct by dataset and parameters",
		Assumptions: []string{
			"labels lie in 0..c-1, datasets are consistent, proportions are non-negative and sum to one",
			"randomness of shuffling/partitioning is only checked as 'not the identity on at least 80 distinct instances'",
		},
		Workloads: []vk.Workload{
			{Name: "partition", Quick: 3000, Thorough: 60000, F: partition},
			{Name: "partition_by_labels", Quick: 5000, Thorough: 100000, F: partitionByLabels},
			{Name: "split", Quick: 2000, Thorough: 40000, F: split},
			{Name: "copy", Quick: 1500, Thorough: 30000, F: copyOp},
			{Name: "shuffle", Quick: 2000, Thorough: 40000, F: shuffle},
			{Name: "join", Quick: 2000, Thorough: 40000, F: join},
			{Name: "subtract", Quick: 2500, Thorough: 50000, F: subtract},
			{Name: "identical", Quick: 3000, Thorough: 60000, F: identical},
			{Name: "labels", Quick: 2500, Thorough: 50000, F: labels},
			{Name: "divide", Quick: 4000, Thorough: 80000, F: divide},
		},
	})
}

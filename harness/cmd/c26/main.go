// C26: seeded randomness is reproducible; parameters stay bound to their object.
package main

import (
	"math"
	"math/rand"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils/cluster"
)

// play performs the program of draws and returns everything drawn.
func play(m *vk.M, prog [][3]int) []float64 {
	var out []float64
	for _, op := range prog {
		switch op[0] {
		case 0:
			x := sys.RandIntn(op[1])
			m.Check(x >= 0 && x < op[1], "RandIntn(%d) = %d", op[1], x)
			out = append(out, float64(x))
		case 1:
			x := sys.RandFloat64()
			m.Check(x >= 0 && x < 1, "RandFloat64() = %v", x)
			out = append(out, x)
		case 2:
			x := sys.RandNormFloat64()
			m.Check(!math.IsNaN(x) && !math.IsInf(x, 0), "RandNormFloat64() = %v", x)
			out = append(out, x)
		case 3:
			u, v := 1+op[1]%7, 1+op[2]%7
			if op[2]%97 == 0 {
				u, v = 20+op[1]%60, 10+op[2]%90
				if op[1]%4 == 0 {
					u, v = 1+op[1]%400, 1+op[1]/400%40
					if op[1]%8 == 0 {
						u, v = v, u
					}
				}
			}
			k := op[1] % (u*v + 1)
			C := sys.RandomComb(u, v, k)
			m.Check(len(C) == k, "RandomComb(%d, %d, %d) returned %d pairs", u, v, k, len(C))
			seen := map[[2]int]bool{}
			for _, p := range C {
				m.Check(p[0] >= 0 && p[0] < u && p[1] >= 0 && p[1] < v, "RandomComb(%d, %d, %d): pair %v outside the grid", u, v, k, p)
				m.Check(!seen[p], "RandomComb(%d, %d, %d): pair %v twice", u, v, k, p)
				seen[p] = true
				out = append(out, float64(p[0]), float64(p[1]))
			}
		case 4: // ties of a multinomial's mode
			n := 2 + op[1]%5
			d := make([]float64, n)
			for i := range d {
				d[i] = 1 / float64(n)
			}
			s, _ := spn.NewMultinomial(3, d).ArgMax(spn.VarSet{})
			out = append(out, float64(s[3]))
			s, _ = spn.NewCountingMultinomial(3, make([]int, n)).ArgMax(spn.VarSet{})
			out = append(out, float64(s[3]))
		case 5:
			c := common.RandColor().String()
			for _, b := range []byte(c) {
				out = append(out, float64(b))
			}
		}
		m.Count("draws", 1)
	}
	return out
}

func equal(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func reseed(m *vk.M) {
	n := 5 + m.R.Intn(80)
	if m.R.Intn(50) == 0 {
		n = 3000
	}
	prog := make([][3]int, n)
	for i := range prog {
		prog[i] = [3]int{m.R.Intn(6), 1 + m.R.Intn([]int{1, 3, 10, 1 << 30, 1 << 31, 1 << 40, 1 << 62}[m.R.Intn(7)]), 1 + m.R.Intn(100)}
	}
	seed := []int64{0, 1, -1, 101010101, m.R.Int63(), -m.R.Int63(), math.MaxInt64, math.MinInt64}[m.R.Intn(8)]
	// Some draws before.
	for i := m.R.Intn(5); i > 0; i-- {
		sys.RandFloat64()
	}
	g := sys.RefreshRandom(seed)
	m.Check(g != nil && g == sys.Random, "RefreshRandom does not return the generator in use")
	m.Check(sys.Seed() == seed, "Seed() = %d after RefreshRandom(%d)", sys.Seed(), seed)
	a := play(m, prog)
	for i := m.R.Intn(3); i > 0; i-- {
		sys.RandIntn(5)
	}
	if m.R.Intn(2) == 0 {
		sys.RefreshRandom(seed + 1)
		m.Check(sys.Seed() == seed+1, "Seed() = %d after RefreshRandom(%d)", sys.Seed(), seed+1)
		b := play(m, prog)
		if len(a) > 0 {
			m.Count("other_seed_differs", map[bool]int{true: 0, false: 1}[equal(a, b)])
		}
	}
	rand.Int() // the global generator has no influence
	sys.RefreshRandom(seed)
	b := play(m, prog)
	m.Check(equal(a, b), "draws after reseeding with %d differ:\n%v\n%v", seed, a, b)
	// A prefix of the program repeats as well.
	sys.RefreshRandom(seed)
	c := play(m, prog[:n/2])
	m.Check(len(c) <= len(a) && equal(a[:len(c)], c), "a shorter run after reseeding with %d differs", seed)
	m.Sig("%v|%d", prog, seed)
	m.Sample("%d draws after reseeding with %d", n, seed)
}

// reseedMAP: random tie breaking in MAP inference and in k-medoid repeats.
func reseedMAP(m *vk.M) {
	o := net.RandOpt(m.R)
	o.Ties = true
	o.MaxNodes = 100
	n := net.Valid(m.R, o)
	b := n.Build()
	e := n.RandEv(m.R, 0.3)
	if math.IsInf(n.MaxEval(e)[n.Root()], -1) {
		e = map[int]int{}
	}
	seed := m.R.Int63()
	run := func() map[int]int {
		sys.RefreshRandom(seed)
		_, _, s := spn.StoreMAP(b.Root, e, -1, spn.NewStorer())
		return s
	}
	a := run()
	for i := 0; i < 3; i++ {
		c := run()
		m.Check(net.SameEv(a, c), "MAP states after reseeding with %d differ: %v and %v", seed, a, c)
	}
	var D [][]int
	for i := 0; i < 6+m.R.Intn(12); i++ {
		D = append(D, []int{m.R.Intn(4), m.R.Intn(4)})
	}
	km := func() []map[int][]int {
		sys.RefreshRandom(seed)
		return cluster.KMode(2, D)
	}
	p := km()
	q := km()
	ok := len(p) == len(q)
	for i := range p {
		ok = ok && len(p[i]) == len(q[i])
		for k := range p[i] {
			_, e := q[i][k]
			ok = ok && e
		}
	}
	m.Check(ok, "k-mode clusterings after reseeding with %d differ", seed)
	m.Count("map_states", 4)
	m.Sig("%s|%v|%d", n.Shape(), e, seed)
}

type obj struct{ id int }

func (o *obj) Parameters() *parameters.P {
	p, e := parameters.Retrieve(o)
	if !e {
		p = parameters.Default()
		parameters.Bind(o, p)
	}
	return p
}

func isDefault(p *parameters.P) bool {
	return *p == parameters.P{Normalize: true, HardWeight: false, SmoothSum: 0.01, LearningType: parameters.SoftGD, Eta: 0.1, Epsilon: 1.0, BatchSize: 0, Lambda: 0.01, Iterations: 4}
}

func binding(m *vk.M) {
	var O []parameters.Parametrizable
	objects := 2 + m.R.Intn(7)
	if m.R.Intn(50) == 0 {
		objects = 100
	}
	for i := 0; i < objects; i++ {
		switch m.R.Intn(7) {
		case 0:
			O = append(O, spn.NewSum())
		case 1:
			O = append(O, spn.NewProduct())
		case 2:
			O = append(O, spn.NewIndicator(1, 1))
		case 3:
			O = append(O, spn.NewGaussianParams(1, 0, 1))
		case 4:
			O = append(O, spn.NewEmptyMultinomial(1, 3))
		case 5:
			O = append(O, &spn.Node{})
		default:
			O = append(O, &obj{i})
		}
	}
	model := map[int]*parameters.P{}
	vals := map[*parameters.P]parameters.P{}
	mk := func() *parameters.P {
		r := m.R
		n, h, sm, t := r.Intn(2) == 0, r.Intn(2) == 0, r.Float64(), r.Intn(4)
		eta, eps, bs, l, it := r.Float64(), r.Float64(), r.Intn(9), r.Float64(), r.Intn(9)
		for _, f := range []*float64{&sm, &eta, &eps, &l} {
			switch r.Intn(8) {
			case 0:
				*f = 0
			case 1:
				*f = []float64{-1, 1, 1e9, 1e-300, math.Inf(1), -0.5}[r.Intn(6)]
			}
		}
		if r.Intn(6) == 0 {
			bs, it = []int{0, -1, 1 << 20, 1 << 40}[r.Intn(4)], []int{0, -1, 1 << 20, 1 << 40}[r.Intn(4)]
		}
		p := parameters.New(n, h, sm, t, eta, eps, bs, l, it)
		m.Check(*p == parameters.P{Normalize: n, HardWeight: h, SmoothSum: sm, LearningType: t, Eta: eta, Epsilon: eps, BatchSize: bs, Lambda: l, Iterations: it}, "New: %+v", *p)
		vals[p] = *p
		return p
	}
	audit := func() {
		for i, o := range O {
			w, have := model[i]
			p, ok := parameters.Retrieve(o)
			m.Check(ok == have && parameters.Exists(o) == have, "object %d (%T): Retrieve found=%v, Exists=%v, want %v", i, o, ok, parameters.Exists(o), have)
			if have {
				m.Check(p == w, "object %d (%T): Retrieve returned another parameter set", i, o)
				m.Check(o.Parameters() == w, "object %d (%T): Parameters() returned another parameter set", i, o)
				if v, known := vals[w]; known {
					m.Check(*w == v, "object %d: parameters changed from %+v to %+v", i, v, *w)
				}
			}
			m.Count("objects_audited", 1)
		}
	}
	steps := 10 + m.R.Intn(40)
	if m.R.Intn(50) == 0 {
		steps = 500
	}
	for t := 0; t < steps; t++ {
		i := m.R.Intn(len(O))
		switch m.R.Intn(6) {
		case 0, 1:
			p := mk()
			parameters.Bind(O[i], p)
			model[i] = p
		case 2:
			parameters.Unbind(O[i])
			delete(model, i)
		case 3:
			p := O[i].Parameters()
			m.Must(p != nil, "Parameters() of object %d (%T) is nil", i, O[i])
			if w, have := model[i]; have {
				m.Check(p == w, "Parameters() of object %d (%T) is not the bound set", i, O[i])
			} else {
				m.Check(isDefault(p), "Parameters() of the unbound object %d (%T) is %+v", i, O[i], *p)
				for j, q := range model {
					m.Check(q != p, "objects %d and %d share a default parameter set", i, j)
				}
				model[i] = p
				vals[p] = *p
				// kept
				m.Check(O[i].Parameters() == p, "object %d (%T) does not keep its default parameters", i, O[i])
			}
		case 4: // one set shared by several objects, changed in place
			j := m.R.Intn(len(O))
			p := mk()
			parameters.Bind(O[i], p)
			parameters.Bind(O[j], p)
			model[i], model[j] = p, p
			p.Eta = 42
			vals[p] = *p
		default:
			d := parameters.Default()
			m.Check(isDefault(d), "Default() = %+v", *d)
			d.Eta, d.Normalize, d.Iterations = 9, false, 77 // must not affect later defaults
		}
		audit()
	}
	for _, o := range O {
		parameters.Unbind(o)
	}
	for t, w := range map[int][2]int{parameters.HardGD: {parameters.GD, parameters.Hard}, parameters.SoftGD: {parameters.GD, parameters.Soft}, parameters.HardEM: {parameters.EM, parameters.Hard}, parameters.SoftEM: {parameters.EM, parameters.Soft}} {
		m.Check(parameters.Method(t) == w[0], "Method(%d) = %d", t, parameters.Method(t))
		m.Check(parameters.Hardness(t) == w[1], "Hardness(%d) = %d", t, parameters.Hardness(t))
	}
	m.Sig("%d", m.Seed)
	m.Sample("binding history over %d objects", len(O))
}

// many binds thousands of objects at the same time.
func many(m *vk.M) {
	n := 1000 << uint(m.R.Intn(5))
	O := make([]*obj, n)
	P := make([]*parameters.P, n)
	for i := range O {
		O[i], P[i] = &obj{i}, parameters.Default()
		P[i].Iterations = i
		parameters.Bind(O[i], P[i])
	}
	gone := map[int]bool{}
	for k := 0; k < n/10; k++ {
		i := m.R.Intn(n)
		parameters.Unbind(O[i])
		gone[i] = true
	}
	for i, o := range O {
		p, ok := parameters.Retrieve(o)
		m.Check(ok == !gone[i] && (!ok || p == P[i] && p.Iterations == i), "object %d of %d: found=%v after unbinding=%v", i, n, ok, gone[i])
		parameters.Unbind(o)
		m.Count("objects_audited", 1)
	}
	m.Sig("many|%d|%d", n, m.Seed)
}

// large: draws over ranges wider than 32 bits use the whole range.
func large(m *vk.M) {
	sys.RefreshRandom(m.R.Int63())
	n := 1<<uint(20+m.R.Intn(43)) - m.R.Intn(1000)
	seen := map[int]bool{}
	top, low := 0, n
	for k := 0; k < 400; k++ {
		x := sys.RandIntn(n)
		m.Check(x >= 0 && x < n, "RandIntn(%d) = %d", n, x)
		seen[x] = true
		top, low = max(top, x), min(low, x)
	}
	m.Check(len(seen) > 300 && top > n/2 && low < n/2, "400 draws below %d lie in [%d, %d] and take %d values", n, low, top, len(seen))
	m.Count("draws", 400)
	m.Sig("large|%d", n)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C26",
		Rule: "random programs of draws replayed after reseeding (extreme and random seeds, other seeds in between); random binding histories over nodes of every kind against a model; distinct by program and seed, or by history",
		Assumptions: []string{
			"the seeded generator is the one of package sys; shuffling in package data and k-means initialisation draw from Go's global generator",
		},
		Workloads: []vk.Workload{
			{Name: "reseed", Quick: 20000, Thorough: 100000, F: reseed},
			{Name: "reseed_map", Quick: 10000, Thorough: 50000, F: reseedMAP},
			{Name: "large", Quick: 300, Thorough: 5000, F: large},
			{Name: "many", Quick: 15, Thorough: 200, F: many},
			{Name: "binding", Quick: 20000, Thorough: 80000, F: binding},
		},
	})
}

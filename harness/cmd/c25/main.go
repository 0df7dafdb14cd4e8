// C25: leaf distributions estimated from data match their definition.
package main

import (
	"math"
	"math/big"
	"sort"

	"verif/vk"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/utils"
)

func counts(m *vk.M) []int {
	n := 1 + m.R.Intn(8)
	if m.R.Intn(6) == 0 {
		n = 20 + m.R.Intn(240)
	}
	if m.R.Intn(50) == 0 {
		n = 260 + m.R.Intn(2000)
		if m.R.Intn(10) == 0 {
			n = 5000 + m.R.Intn(5000)
		}
	}
	c := make([]int, n)
	hi := []int{1, 2, 5, 100, 1000000, 1 << uint(30+m.R.Intn(18))}[m.R.Intn(6)]
	if n > 2300 && hi > 1000000 {
		hi = 1000000
	}
	for i := range c {
		c[i] = m.R.Intn(hi + 1)
		if m.R.Intn(3) == 0 {
			c[i] = 0
		}
	}
	switch m.R.Intn(8) {
	case 0:
		for i := range c {
			c[i] = 0
		}
		c[m.R.Intn(n)] = 1 + m.R.Intn(hi)
	case 1:
		for i := range c {
			c[i] = hi
		}
	}
	return c
}

func total(c []int) int {
	s := 0
	for _, x := range c {
		s += x
	}
	return s
}

// moments of the distribution giving weight w to 0..n-1, in multi-precision.
func moments(w []float64) (float64, float64) {
	s, sx, sxx := big.NewFloat(0).SetPrec(200), big.NewFloat(0).SetPrec(200), big.NewFloat(0).SetPrec(200)
	for i, x := range w {
		t := big.NewFloat(x).SetPrec(200)
		s.Add(s, t)
		t = new(big.Float).SetPrec(200).Mul(t, big.NewFloat(float64(i)))
		sx.Add(sx, t)
		t = new(big.Float).SetPrec(200).Mul(t, big.NewFloat(float64(i)))
		sxx.Add(sxx, t)
	}
	return fin(s, sx, sxx)
}

func fin(s, sx, sxx *big.Float) (float64, float64) {
	mu := new(big.Float).SetPrec(200).Quo(sx, s)
	v := new(big.Float).SetPrec(200).Quo(sxx, s)
	v.Sub(v, new(big.Float).SetPrec(200).Mul(mu, mu))
	a, _ := mu.Float64()
	b, _ := v.Float64()
	if b < 0 {
		b = 0
	}
	return a, math.Sqrt(b)
}

func valueMoments(x []float64) (float64, float64) {
	s, sx, sxx := big.NewFloat(0).SetPrec(200), big.NewFloat(0).SetPrec(200), big.NewFloat(0).SetPrec(200)
	for _, v := range x {
		s.Add(s, big.NewFloat(1))
		t := big.NewFloat(v).SetPrec(200)
		sx.Add(sx, t)
		sxx.Add(sxx, new(big.Float).SetPrec(200).Mul(t, t))
	}
	return fin(s, sx, sxx)
}

// near allows rounding, relative to the spread of the support.
func near(a, b, scale float64) bool {
	return math.Abs(a-b) <= 1e-9*(1+scale)*1e-2 || math.Abs(a-b) <= 1e-11*(math.Abs(a)+math.Abs(b))
}

// nearSD compares deviations through their squares: a deviation of zero is computed with
// rounding of the size of the square root.
func nearSD(a, b, scale float64) bool {
	return near(a, b, scale) || math.Abs(a*a-b*b) <= 1e-13*(1+scale*scale)
}

func fl(c []int) []float64 {
	f := make([]float64, len(c))
	for i, x := range c {
		f[i] = float64(x)
	}
	return f
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// leaf checks a multinomial against the distribution it must have.
func leaf(m *vk.M, who string, l *spn.Multinomial, v int, w []float64, tol float64) {
	pr := l.Pr()
	m.Must(len(pr) == len(w), "%s: %d probabilities, want %d", who, len(pr), len(w))
	s, best := 0.0, 0.0
	for i := range w {
		m.Check(math.Abs(pr[i]-w[i]) <= tol, "%s: P(%d) = %v, want %v", who, i, pr[i], w[i])
		g := l.Value(spn.VarSet{v: i})
		m.Check(math.Abs(math.Exp(g)-w[i]) <= 1e-12, "%s: Value(%d) = %v, want ln %v", who, i, g, w[i])
		s += pr[i]
		best = math.Max(best, w[i])
	}
	m.Check(l.Value(spn.VarSet{v + 1: 0}) == 0, "%s: unobserved value is not 1", who)
	if tol > 0 {
		m.Check(math.Abs(s-1) < 1e-9, "%s: probabilities sum to %v", who, s)
	}
	st, mv := l.ArgMax(spn.VarSet{})
	i, ok := st[v]
	m.Must(ok && i >= 0 && i < len(w), "%s: mode %v out of range", who, st)
	m.Check(w[i] >= best-1e-12, "%s: reported mode %d has probability %v, the largest is %v", who, i, w[i], best)
	m.Check(math.Abs(math.Exp(mv)-best) < 1e-12, "%s: value of the mode %v, want ln %v", who, mv, best)
	m.Check(math.Abs(math.Exp(l.Max(spn.VarSet{}))-best) < 1e-12, "%s: Max = %v, want ln %v", who, l.Max(spn.VarSet{}), best)
	mu, sd := moments(pr)
	// moments() normalises; the leaf's own probabilities are normalised here
	if math.Abs(s-1) < 1e-9 {
		sc := float64(len(w))
		a, b := l.MuSigma()
		m.Check(near(l.Mean(), mu, sc*sc) && near(a, mu, sc*sc), "%s: Mean = %v, %v, want %v", who, l.Mean(), a, mu)
		m.Check(nearSD(l.StdDev(), sd, 10*sc) && nearSD(b, sd, 10*sc), "%s: StdDev = %v, %v, want %v", who, l.StdDev(), b, sd)
	}
	m.Check(len(l.Sc()) >= 1, "%s: empty scope", who)
	m.Check(l.Type() == "leaf" && l.SubType() == "multinomial", "%s: type %s/%s", who, l.Type(), l.SubType())
	m.Count("leaves", 1)
}

func multinomial(m *vk.M) {
	c := counts(m)
	if m.R.Intn(15) == 0 {
		for i := range c {
			c[i] = 0
		}
	}
	keep := append([]int(nil), c...)
	v := m.R.Intn(50)
	n := float64(total(c) + len(c))
	w := make([]float64, len(c))
	for i := range c {
		w[i] = float64(c[i]+1) / n
	}
	leaf(m, "NewCountingMultinomial", spn.NewCountingMultinomial(v, c), v, w, 1e-12)
	sc := []int{v, v + 3, v + 9}
	l := spn.NewScopedCountingMultinomial(v, sc, c)
	leaf(m, "NewScopedCountingMultinomial", l, v, w, 1e-12)
	m.Check(same(l.Sc(), []int{v, v + 3, v + 9}), "NewScopedCountingMultinomial: scope %v, want %v", l.Sc(), sc)
	m.Check(same(c, keep), "construction modified the counts")
	// A distribution given directly, with ties and zeros.
	d := make([]float64, len(c))
	switch m.R.Intn(3) {
	case 0:
		copy(d, w)
	case 1:
		t := float64(total(c))
		if t == 0 {
			t, c[0] = 1, 1
		}
		for i := range d {
			d[i] = float64(c[i]) / t
		}
	default:
		s := 0.0
		for i := range d {
			d[i] = m.R.Float64()
			s += d[i]
		}
		for i := range d {
			d[i] /= s
		}
	}
	dk := append([]float64(nil), d...)
	leaf(m, "NewMultinomial", spn.NewMultinomial(v, d), v, dk, 1e-15)
	for i := range d {
		m.Check(d[i] == dk[i], "NewMultinomial modified the distribution")
	}
	k := len(c)
	u := make([]float64, k)
	for i := range u {
		u[i] = 1 / float64(k)
	}
	leaf(m, "NewEmptyMultinomial", spn.NewEmptyMultinomial(v, k), v, u, 1e-12)
	for _, l := range []*spn.Multinomial{spn.NewMultinomial(v, d), spn.NewCountingMultinomial(v, keep), spn.NewEmptyMultinomial(v, k)} {
		m.Check(same(l.Sc(), []int{v}), "scope %v, want [%d]", l.Sc(), v)
	}
	m.Sig("%v", keep)
	m.Sample("multinomial leaves from counts %v", keep)
}

func gaussian(m *vk.M) {
	c := counts(m)
	if total(c) == 0 {
		c[m.R.Intn(len(c))] = 1
	}
	keep := append([]int(nil), c...)
	v := m.R.Intn(50)
	mu, sd := moments(fl(c))
	sc := float64(len(c))
	chk := func(who string, g *spn.Gaussian, wm, ws, sc float64) {
		a, b := g.Params()
		m.Check(near(a, wm, sc*10), "%s: mean %v, want %v", who, a, wm)
		m.Check(nearSD(b, ws, sc*10), "%s: deviation %v, want %v", who, b, ws)
		m.Check(same(g.Sc(), []int{v}), "%s: scope %v", who, g.Sc())
		m.Count("leaves", 1)
	}
	chk("NewGaussian", spn.NewGaussian(v, c), mu, sd, sc)
	hi := 0
	for i := range c {
		if c[i] > c[hi] {
			hi = i
		}
	}
	g := spn.NewGaussianMode(v, c)
	a, b := g.Params()
	i := int(a)
	m.Check(float64(i) == a && i >= 0 && i < len(c) && c[i] == c[hi], "NewGaussianMode: centred on %v, the mode is %d", a, hi)
	m.Check(nearSD(b, sd, sc*10), "NewGaussianMode: deviation %v, want %v", b, sd)
	chk("NewGaussianFit", spn.NewGaussianFit(v, fl(c)), mu, sd, sc)
	m.Check(near(utils.Mean(c), mu, sc*10), "utils.Mean = %v, want %v", utils.Mean(c), mu)
	m.Check(nearSD(utils.StdDev(c), sd, sc*10), "utils.StdDev = %v, want %v", utils.StdDev(c), sd)
	x, y := utils.MuSigma(c)
	m.Check(near(x, mu, sc*10) && nearSD(y, sd, sc*10), "utils.MuSigma = %v, %v, want %v, %v", x, y, mu, sd)
	m.Check(same(c, keep), "construction modified the counts")

	// From raw values.
	n := 1 + m.R.Intn(40)
	if m.R.Intn(40) == 0 {
		n = 100 + m.R.Intn(5000)
	}
	raw := make([]float64, n)
	off := []float64{0, 0, 128, -1000, 1e6}[m.R.Intn(5)]
	wid := []float64{0, 1, 50, 1000}[m.R.Intn(4)]
	top := 0.0
	for i := range raw {
		raw[i] = off + wid*m.R.NormFloat64()
		if m.R.Intn(2) == 0 {
			raw[i] = math.Round(raw[i])
		}
		top = math.Max(top, math.Abs(raw[i]))
	}
	rk := append([]float64(nil), raw...)
	rmu, rsd := valueMoments(raw)
	chk("NewGaussianRaw", spn.NewGaussianRaw(v, raw), rmu, rsd, top)
	for i := range raw {
		m.Check(raw[i] == rk[i], "NewGaussianRaw modified its argument")
	}
	p := spn.NewGaussianParams(v, rmu, rsd+0.1)
	a, b = p.Params()
	m.Check(a == rmu && b == rsd+0.1, "NewGaussianParams(%v, %v) has parameters %v, %v", rmu, rsd+0.1, a, b)
	m.Sig("%v|%v", keep, raw)
}

func quantiles(m *vk.M) {
	k := m.R.Intn(30)
	if m.R.Intn(5) == 0 {
		k = 30 + m.R.Intn(200)
	}
	if m.R.Intn(60) == 0 {
		k = 300 + m.R.Intn(5000)
	}
	q := 1 + m.R.Intn(10)
	if m.R.Intn(4) == 0 {
		q = 1 + m.R.Intn(k+3)
	}
	X := make([]int, k)
	hi := []int{1, 3, 256, 100000}[m.R.Intn(4)]
	for i := range X {
		X[i] = m.R.Intn(hi)
	}
	if m.R.Intn(300) == 0 { // nearly constant
		k = 15000 + m.R.Intn(40000)
		q = 1 + m.R.Intn(3)
		X = make([]int, k)
		for j := 0; j < 1+m.R.Intn(3); j++ {
			X[m.R.Intn(k)]++
		}
	}
	if m.R.Intn(3) != 0 {
		sort.Ints(X)
	}
	keep := append([]int(nil), X...)
	P := utils.PartitionQuantiles(X, q)
	m.Check(same(X, keep), "PartitionQuantiles modified its argument")
	sort.Ints(X)
	w := q
	if w > k {
		w = k
	}
	m.Must(len(P) == w, "PartitionQuantiles of %d values into %d: %d parts", k, q, len(P))
	at := 0
	for i, t := range P {
		m.Must(len(t) == 3, "part %d is %v", i, t)
		n := int(t[2])
		m.Must(float64(n) == t[2] && n >= 1 && at+n <= k, "part %d of %d has size %v (%d values, %d covered before)", i, w, t[2], k, at)
		f := make([]float64, n)
		for j := range f {
			f[j] = float64(X[at+j])
		}
		mu, sd := valueMoments(f)
		if sd == 0 {
			sd = 0.5
		}
		m.Check(near(t[0], mu, float64(hi)), "part %d (values %d..%d of %v): mean %v, want %v", i, at, at+n-1, X, t[0], mu)
		m.Check(nearSD(t[1], sd, float64(hi)), "part %d (values %d..%d of %v): deviation %v, want %v", i, at, at+n-1, X, t[1], sd)
		at += n
	}
	m.Check(at == k, "the parts cover %d of %d values", at, k)
	if w > 0 && k%w == 0 {
		for i, t := range P {
			m.Check(int(t[2]) == k/w, "part %d has %v of %d values in %d parts", i, t[2], k, w)
		}
	}
	m.Count("quantiles", w)
	if w > 0 {
		m.Sig("%v|%d", keep, q)
	}
	m.Sample("%d values into %d quantiles", k, q)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C25",
		Rule: "random count vectors (one category, all zero, one non-zero, equal, large) and value vectors (constant, offset, wide) against multi-precision moments; distinct by data",
		Assumptions: []string{
			"Gaussian leaves are built from at least one observation",
			"deviations are compared within floating-point rounding of the squared values",
		},
		Workloads: []vk.Workload{
			{Name: "multinomial", Quick: 16000, Thorough: 100000, F: multinomial},
			{Name: "gaussian", Quick: 20000, Thorough: 120000, F: gaussian},
			{Name: "quantiles", Quick: 20000, Thorough: 150000, F: quantiles},
		},
	})
}

// C14: independence tests and graphs match their statistical definition.
package main

import (
	"math"
	"sort"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/utils/indep"
)

// pvalue is P(X > x) for the chi-square distribution with df degrees of freedom,
// by the recurrence Q(a+1, x) = Q(a, x) + x^a e^-x / Gamma(a+1).
func pvalue(x float64, df int) float64 {
	if x <= 0 {
		return 1
	}
	h := x / 2
	var q, a float64
	if df%2 == 0 {
		if df == 0 {
			return 0
		}
		q, a = math.Exp(-h), 1
	} else {
		q, a = math.Erfc(math.Sqrt(h)), 0.5
	}
	for a < float64(df)/2-0.25 {
		lg, _ := math.Lgamma(a + 1)
		q += math.Exp(a*math.Log(h) - h - lg)
		a++
	}
	return math.Min(q, 1)
}

const gap = 1e-9 // decisions closer to the significance level are not judged

func totals(t [][]int, p, q int) [][]int {
	d := make([][]int, p+1)
	for i := range d {
		d[i] = make([]int, q+1)
	}
	for i := 0; i < p; i++ {
		for j := 0; j < q; j++ {
			x := t[i][j]
			d[i][j] = x
			d[i][q] += x
			d[p][j] += x
			d[p][q] += x
		}
	}
	return d
}

// stats are Pearson's and the G statistic.
func stats(d [][]int, p, q int) (float64, float64) {
	var chi, g float64
	n := float64(d[p][q])
	for i := 0; i < p; i++ {
		for j := 0; j < q; j++ {
			e := float64(d[i][q]) * float64(d[p][j]) / n
			o := float64(d[i][j])
			if e > 0 {
				chi += (o - e) * (o - e) / e
			}
			if o > 0 {
				// o ln(o/e) - (o - e) >= 0 is summed without cancellation; sum of o-e is zero
				r := (o - e) / e
				g += o*math.Log1p(r) - (o - e)
			} else {
				g += e
			}
		}
	}
	if g < 0 {
		g = 0
	}
	return chi, 2 * g
}

func table(m *vk.M) ([][]int, int, int) {
	p, q := 1+m.R.Intn(5), 1+m.R.Intn(5)
	if m.R.Intn(3) != 0 {
		p, q = 2+m.R.Intn(3), 2+m.R.Intn(3)
	}
	if m.R.Intn(25) == 0 {
		p, q = 2+m.R.Intn(20), 2+m.R.Intn(20)
	}
	if m.R.Intn(150) == 0 {
		p, q = 2+m.R.Intn(60), 2+m.R.Intn(60)
		if m.R.Intn(4) == 0 {
			p, q = 2+m.R.Intn(200), 2+m.R.Intn(200)
		}
	}
	hi := []int{2, 5, 20, 100, 10000, 1000000}[m.R.Intn(6)]
	t := make([][]int, p)
	r, c := make([]int, p), make([]int, q)
	for i := range r {
		r[i] = m.R.Intn(hi) + 1
	}
	for j := range c {
		c[j] = m.R.Intn(30) + 1
	}
	mode := m.R.Intn(6)
	for i := range t {
		t[i] = make([]int, q)
		for j := range t[i] {
			switch mode {
			case 0:
				t[i][j] = m.R.Intn(hi + 1)
			case 1: // exactly proportional
				t[i][j] = r[i] * c[j]
			case 2: // almost proportional
				t[i][j] = r[i]*c[j] + m.R.Intn(2)
			case 3: // diagonal
				if i == j {
					t[i][j] = m.R.Intn(hi + 1)
				}
			case 4: // proportional with noise at the scale of the fluctuations
				x := float64(r[i] * c[j])
				t[i][j] = int(math.Max(0, x+math.Sqrt(x)*m.R.NormFloat64()*1.2))
			default: // empty rows and columns
				if i > 0 && j < q-1 {
					t[i][j] = m.R.Intn(hi + 1)
				}
			}
		}
	}
	s := 0
	for i := range t {
		for _, x := range t[i] {
			s += x
		}
	}
	if s == 0 {
		t[m.R.Intn(p)][m.R.Intn(q)] = 1
	}
	return t, p, q
}

func tests(m *vk.M) {
	t, p, q := table(m)
	d := totals(t, p, q)
	keep := totals(t, p, q)
	df := (p - 1) * (q - 1)
	chi, g := stats(d, p, q)
	pc, pg := pvalue(chi, df), pvalue(g, df)
	if df == 0 {
		pc, pg = 1, 1
	}
	m.Note("table %v chi %v g %v", t, chi, g)
	for _, s := range []float64{0, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.3, 0.5, 0.9, 0.99, m.R.Float64(), pc * 0.999, pc*1.001 + 1e-8, pg * 0.999, pg*1.001 + 1e-8} {
		got := indep.ChiSquareTest(p, q, d, s)
		if math.Abs(pc-s) > gap || s == 0 {
			m.Check(got == (pc >= s), "ChiSquareTest(%v, significance %v) = %v, p-value %v (statistic %v, %d degrees of freedom)", t, s, got, pc, chi, df)
			m.Count("decisions", 1)
		}
		got = indep.GTest(p, q, d, d[p][q], s)
		if math.Abs(pg-s) > 10*gap+math.Sqrt(1e-15*float64(d[p][q])) || s == 0 {
			m.Check(got == (pg >= s), "GTest(%v, significance %v) = %v, p-value %v (statistic %v, %d degrees of freedom)", t, s, got, pg, g, df)
			m.Count("decisions", 1)
		}
	}
	for i := range d {
		for j := range d[i] {
			m.Check(d[i][j] == keep[i][j], "the test modified its table")
		}
	}
	x := math.Exp(m.R.Float64()*12 - 4)
	k := 1 + m.R.Intn(30)
	c := indep.ChiSquare(x, k)
	m.Check(math.Abs(c-(1-pvalue(x, k))) < 1e-9, "ChiSquare(%v, %d) = %v, want %v", x, k, c, 1-pvalue(x, k))
	switch m.R.Intn(4) {
	case 0:
		if m.R.Intn(100) == 0 {
			k = 600 + m.R.Intn(20000)
			x = float64(k) + math.Sqrt(2*float64(k))*(m.R.Float64()*8-4)
			break
		}
		k = 1 + m.R.Intn(600)
		x = float64(k) * (m.R.Float64()*2 + 0.01)
	case 1:
		x *= math.Pow(10, -12*m.R.Float64())
	case 2:
		x = []float64{0, 1e-300, 1, 2, 2.2, 3, 1000}[m.R.Intn(7)]
	}
	w := pvalue(x, k)
	m.Check(math.Abs(indep.Chisquare(k, x)-w) < 1e-9, "Chisquare(%d, %v) = %v, want %v", k, x, indep.Chisquare(k, x), w)
	m.Check(math.Abs(indep.Chisqr(k, x)-(1-w)) < 1e-9, "Chisqr(%d, %v) = %v, want %v", k, x, indep.Chisqr(k, x), 1-w)
	m.Count("distribution values", 3)
	m.Sig("%v", t)
	m.Sample("table %v: chi-square p-value %.4g, G p-value %.4g", t, pc, pg)
}

func graphs(m *vk.M) {
	nv := 1 + m.R.Intn(7)
	n := []int{1, 2, 5, 20, 60, 200}[m.R.Intn(6)]
	many, link := m.R.Intn(40), 2
	if many == 0 {
		nv = 8 + m.R.Intn(24)
	} else if many == 1 {
		// Many variables in several groups.
		nv, n, link = 30+m.R.Intn(70), 20+m.R.Intn(60), 2+m.R.Intn(6)
	} else if m.R.Intn(40) == 0 {
		n = 300 + m.R.Intn(4000)
		if m.R.Intn(5) == 0 {
			n += 5000
		}
	}
	ids := net.VarIDs(m.R, nv, m.R.Intn(2) == 0)
	m.R.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	nv = len(ids)
	V := make([]*utils.VarData, nv)
	K := make([][]int, nv)
	noise := m.R.Float64()
	if many == 1 {
		noise *= 0.3
	}
	for i := range V {
		c := 2 + m.R.Intn(3)
		if m.R.Intn(12) == 0 {
			c = 1
		}
		x := make([]int, n)
		src := -1
		if i > 0 && (link == 2 && m.R.Intn(2) == 0 || link > 2 && m.R.Intn(link) != 0) {
			src = m.R.Intn(i)
		}
		for k := range x {
			x[k] = m.R.Intn(c)
			if m.R.Intn(10) == 0 {
				x[k] = 0
			}
			if src >= 0 && m.R.Float64() > noise*0.8 {
				x[k] = V[src].Data[k] % c
			}
		}
		V[i] = utils.NewVarData(ids[i], c, x)
		K[i] = append([]int(nil), x...)
	}
	sig := []float64{0.0001, 0.01, 0.05, 0.2, 0.5, 0.9, m.R.Float64()}[m.R.Intn(7)]
	if many == 1 {
		sig = []float64{1e-12, 1e-6, 1e-5, 0.0001}[m.R.Intn(4)]
	}
	// Reference components.
	cl := make([]int, nv)
	for i := range cl {
		cl[i] = i
	}
	edges := 0
	for i := 0; i < nv; i++ {
		for j := i + 1; j < nv; j++ {
			p, q := V[i].Categories, V[j].Categories
			t := make([][]int, p)
			for a := range t {
				t[a] = make([]int, q)
			}
			for k := 0; k < n; k++ {
				t[V[i].Data[k]][V[j].Data[k]]++
			}
			_, g := stats(totals(t, p, q), p, q)
			pv := pvalue(g, (p-1)*(q-1))
			if (p-1)*(q-1) == 0 {
				pv = 1
			}
			if math.Abs(pv-sig) < 10*gap {
				return // undecided at this precision
			}
			if pv < sig {
				edges++
				a, b := cl[i], cl[j]
				for k := range cl {
					if cl[k] == b {
						cl[k] = a
					}
				}
			}
		}
	}
	for name, f := range map[string]func([]*utils.VarData, float64) *indep.Graph{"NewIndepGraph": indep.NewIndepGraph, "NewUFIndepGraph": indep.NewUFIndepGraph} {
		G := f(V, sig)
		at := map[int]int{}
		for c, k := range G.Kset {
			m.Check(len(k) > 0, "%s: set %d is empty", name, c)
			for _, v := range k {
				_, dup := at[v]
				m.Check(!dup, "%s: variable %d is in two sets of %v", name, v, G.Kset)
				at[v] = c
			}
		}
		m.Check(len(at) == nv, "%s: sets %v over variables %v", name, G.Kset, ids)
		for i := range ids {
			_, ok := at[ids[i]]
			m.Check(ok, "%s: variable %d is in no set of %v", name, ids[i], G.Kset)
			for j := range ids {
				m.Check((at[ids[i]] == at[ids[j]]) == (cl[i] == cl[j]), "%s at significance %v: variables %d and %d together=%v, dependence graph says %v; sets %v", name, sig, ids[i], ids[j], at[ids[i]] == at[ids[j]], cl[i] == cl[j], G.Kset)
			}
		}
		for i := range V {
			m.Check(V[i].Varid == ids[i] && len(V[i].Data) == n, "%s modified its input", name)
			for k := range K[i] {
				m.Check(V[i].Data[k] == K[i][k], "%s modified its input", name)
			}
		}
		m.Count("graphs", 1)
	}
	m.Count("dependencies", edges)
	var s []int
	for _, c := range cl {
		s = append(s, c)
	}
	sort.Ints(s)
	if nv > 1 {
		m.Sig("%v|%v|%v", K, ids, sig)
	}
	m.Sample("%d variables, %d instances, significance %.3g: %d dependent pairs", nv, n, sig, edges)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C14",
		Rule: "random contingency tables (random, exactly and almost proportional, diagonal, with empty rows and columns, counts up to 3e7, up to 21x21) at fixed and random significance levels and just below and above the p-value; random datasets with planted dependencies of random strength; reference p-values by recurrence, components by relabelling; distinct by table or dataset",
		Assumptions: []string{
			"decisions within 1e-9 of the significance level (for the G test, within the rounding of its statistic) are not judged; tables have at least one observation",
		},
		Workloads: []vk.Workload{
			{Name: "tests", Quick: 160000, Thorough: 200000, F: tests},
			{Name: "graphs", Quick: 16000, Thorough: 100000, F: graphs},
		},
	})
}

// C23: log-space arithmetic against multi-precision arithmetic.
package main

import (
	"math"
	"math/big"
	"sync"

	"verif/vk"

	"github.com/RenatoGeh/gospn/utils"
)

const prec = 320

func bf(x float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(x) }

// bigExp is e^x for a finite big x, by argument reduction and Taylor series.
func bigExp(x *big.Float) *big.Float {
	const k = 40
	f, _ := x.Float64()
	if f < -1e6 {
		return bf(0)
	}
	// e^x = (e^(x/2^s))^(2^s) with |x/2^s| < 2^-12
	s := 0
	for t := math.Abs(f); t > 1.0/4096; t /= 2 {
		s++
	}
	y := new(big.Float).SetPrec(prec).SetMantExp(x, -s)
	r, t := bf(1), bf(1)
	for i := 1; i < k; i++ {
		t.Mul(t, y)
		t.Quo(t, bf(float64(i)))
		r.Add(r, t)
	}
	for i := 0; i < s; i++ {
		r.Mul(r, r)
	}
	return r
}

var (
	ln2Once sync.Once
	ln2     *big.Float
)

// bigLog is ln(x) of a positive big x, by Newton's iteration on e^y = m.
func bigLog(x *big.Float) *big.Float {
	ln2Once.Do(func() { ln2 = newton(bf(2)) })
	m := new(big.Float).SetPrec(prec)
	e := x.MantExp(m)
	l := newton(m)
	return l.Add(l, new(big.Float).SetPrec(prec).Mul(ln2, bf(float64(e))))
}

func newton(m *big.Float) *big.Float {
	f, _ := m.Float64()
	y := bf(math.Log(f))
	for i := 0; i < 4; i++ {
		// y += m*e^-y - 1
		n := new(big.Float).SetPrec(prec).Neg(y)
		t := bigExp(n)
		t.Mul(t, m)
		t.Sub(t, bf(1))
		y.Add(y, t)
	}
	return y
}

// within compares g with the exact value w; scale is the magnitude of the quantities the
// result is computed from.
func within(g float64, w *big.Float, scale float64, n int) bool {
	if math.IsNaN(g) || math.IsInf(g, 0) {
		return false
	}
	d := new(big.Float).SetPrec(prec).Sub(bf(g), w)
	f, _ := d.Float64()
	return math.Abs(f) <= 4e-15*float64(n+2)*(1+scale)
}

func perm(m *vk.M, a []float64) []float64 {
	b := append([]float64(nil), a...)
	m.R.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
	return b
}

func bitsEq(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// logs draws log-space values.
func logs(m *vk.M, n int) []float64 {
	a := make([]float64, n)
	mode := m.R.Intn(8)
	base := 0.0
	switch m.R.Intn(5) {
	case 0:
		base = -1e5 * m.R.Float64()
	case 1:
		base = 1e4 * m.R.Float64()
	case 2:
		base = -800
	case 3:
		base = 800
	}
	for i := range a {
		switch mode {
		case 0:
			a[i] = base
		case 1:
			a[i] = base + m.R.NormFloat64()
		case 2:
			a[i] = base + 40*m.R.NormFloat64()
		case 3:
			a[i] = base + 2000*m.R.NormFloat64()
		case 4:
			a[i] = base + float64(i)*1e-3
		case 5:
			a[i] = []float64{math.Inf(-1), base, base + 1, 0, -0.0, -745, 709.9, -1e300, 5e-324}[m.R.Intn(9)]
		case 6:
			a[i] = -math.Exp(m.R.Float64()*20 - 10)
		default:
			a[i] = m.R.NormFloat64() * math.Pow(10, float64(m.R.Intn(6)))
		}
		if m.R.Intn(12) == 0 {
			a[i] = math.Inf(-1)
		}
	}
	if m.R.Intn(40) == 0 {
		for i := range a {
			a[i] = math.Inf(-1)
		}
	}
	return a
}

func length(m *vk.M) int {
	switch m.R.Intn(5) {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		if m.R.Intn(20) == 0 {
			if m.R.Intn(50) == 0 {
				return 3000 + m.R.Intn(12000)
			}
			return 200 + m.R.Intn(3000)
		}
		return 20 + m.R.Intn(60)
	}
	return 1 + m.R.Intn(10)
}

func maxOf(a []float64) (float64, float64) {
	x, s := math.Inf(-1), 0.0
	for _, v := range a {
		x = math.Max(x, v)
	}
	if !math.IsInf(x, 0) {
		s = math.Abs(x)
	}
	return x, s
}

// exactLSE is ln(sum e^a).
func exactLSE(a []float64) (*big.Float, bool) {
	mx, _ := maxOf(a)
	if math.IsInf(mx, -1) {
		return nil, false
	}
	s := bf(0)
	for _, v := range a {
		if !math.IsInf(v, -1) {
			s.Add(s, bigExp(new(big.Float).SetPrec(prec).Sub(bf(v), bf(mx))))
		}
	}
	l := bigLog(s)
	return l.Add(l, bf(mx)), true
}

func logSumExp(m *vk.M) {
	a := logs(m, length(m))
	b := append([]float64(nil), a...)
	w, ok := exactLSE(a)
	_, sc := maxOf(a)
	for k := 0; k < 3; k++ {
		g := utils.LogSumExp(a)
		m.Check(bitsEq(a, b), "LogSumExp modified its argument")
		if ok {
			f, _ := w.Float64()
			m.Check(within(g, w, sc, len(a)), "LogSumExp(%v) = %v, want %v", a, g, f)
		} else {
			m.Check(math.IsInf(g, -1), "LogSumExp(%v) = %v, want -Inf", a, g)
		}
		a = perm(m, a)
		b = append([]float64(nil), a...)
	}
	l, r := a[0], a[len(a)-1]
	for k := 0; k < 2; k++ {
		g := utils.LogSumExpPair(l, r)
		w, ok := exactLSE([]float64{l, r})
		_, sc := maxOf([]float64{l, r})
		if ok {
			f, _ := w.Float64()
			m.Check(within(g, w, sc, 2), "LogSumExpPair(%v, %v) = %v, want %v", l, r, g, f)
		} else {
			m.Check(math.IsInf(g, -1), "LogSumExpPair(%v, %v) = %v, want -Inf", l, r, g)
		}
		l, r = r, l
	}
	m.Count("values", len(a))
	m.Sig("%v", a)
	m.Sample("LogSumExp of %d values, max magnitude %.3g", len(a), sc)
}

// probs draws non-negative reals over the whole range.
func probs(m *vk.M, n int) []float64 {
	a := make([]float64, n)
	mode := m.R.Intn(6)
	for i := range a {
		switch mode {
		case 0:
			a[i] = m.R.Float64()
		case 1:
			a[i] = math.Exp(-700 * m.R.Float64())
		case 2:
			a[i] = math.Exp(1400*m.R.Float64() - 700)
		case 3:
			a[i] = []float64{0, 1, 3e-308, 1e-300, math.MaxFloat64, 2.3e-308, 1e308, 0.5, 1 - 1e-16}[m.R.Intn(9)]
		case 4:
			a[i] = float64(m.R.Intn(4))
		default:
			a[i] = 1 / float64(n)
		}
		if m.R.Intn(15) == 0 {
			a[i] = 0
		}
	}
	return a
}

func logSum(m *vk.M) {
	a := probs(m, length(m))
	if m.R.Intn(30) == 0 {
		a = nil
	}
	s, pr := bf(0), bf(1)
	slog, mlog := 0.0, 0.0
	for _, v := range a {
		s.Add(s, bf(v))
		pr.Mul(pr, bf(v))
		if v > 0 {
			slog += math.Abs(math.Log(v))
			mlog = math.Max(mlog, math.Abs(math.Log(v)))
		}
	}
	for k := 0; k < 2; k++ {
		b := append([]float64(nil), a...)
		g := utils.LogSum(a)
		if s.Sign() == 0 {
			m.Check(math.IsInf(g, -1), "LogSum(%v) = %v, want -Inf", a, g)
		} else {
			w := bigLog(s)
			f, _ := w.Float64()
			m.Check(within(g, w, mlog, len(a)), "LogSum(%v) = %v, want %v", a, g, f)
		}
		g = utils.LogProd(a)
		if pr.Sign() == 0 {
			m.Check(math.IsInf(g, -1), "LogProd(%v) = %v, want -Inf", a, g)
		} else {
			w := bigLog(pr)
			f, _ := w.Float64()
			m.Check(within(g, w, slog, len(a)), "LogProd(%v) = %v, want %v", a, g, f)
		}
		m.Check(bitsEq(a, b), "LogSum or LogProd modified its argument")
		a = perm(m, a)
	}
	if len(a) >= 2 {
		l, r := a[0], a[1]
		for k := 0; k < 2; k++ {
			g := utils.LogSumPair(l, r)
			t := new(big.Float).SetPrec(prec).Add(bf(l), bf(r))
			if t.Sign() == 0 {
				m.Check(math.IsInf(g, -1), "LogSumPair(%v, %v) = %v, want -Inf", l, r, g)
			} else {
				w := bigLog(t)
				f, _ := w.Float64()
				sc := math.Abs(math.Log(math.Max(l, r)))
				m.Check(within(g, w, sc, 2), "LogSumPair(%v, %v) = %v, want %v", l, r, g, f)
			}
			l, r = r, l
		}
	}
	for _, v := range a {
		if v > 0 {
			l := utils.Log(v)
			w := bigLog(bf(v))
			m.Check(within(l, w, math.Abs(l), 1), "Log(%v) = %v", v, l)
			x := utils.AntiLog(l)
			if v < 1e300 && v > 1e-300 {
				m.Check(math.Abs(x/v-1) <= 1e-15*(4+math.Abs(l)), "AntiLog(Log(%v)) = %v", v, x)
			}
		}
	}
	m.Count("values", len(a))
	m.Sig("%v", a)
}

func signed(m *vk.M) {
	a := logs(m, length(m))
	s := make([]int, len(a))
	for i := range s {
		s[i] = []int{1, -1, 1, -1, 0}[m.R.Intn(5)]
	}
	if m.R.Intn(4) == 0 && len(a) > 1 { // exact or near cancellation
		a[1], s[0], s[1] = a[0], 1, -1
		if m.R.Intn(2) == 0 {
			a[1] += m.R.NormFloat64() * 1e-9
		}
	}
	if m.R.Intn(20) == 0 {
		for i := range s {
			s[i] = 0
		}
	}
	for k := 0; k < 2; k++ {
		mx := math.Inf(-1)
		for i, v := range a {
			if s[i] != 0 {
				mx = math.Max(mx, v)
			}
		}
		b, t := append([]float64(nil), a...), append([]int(nil), s...)
		g, sg := utils.LogSumLog(a, s)
		m.Check(bitsEq(a, b), "LogSumLog modified its first argument")
		for i := range t {
			m.Check(t[i] == s[i], "LogSumLog modified its second argument")
		}
		if math.IsInf(mx, -1) {
			m.Check(sg == 0 || math.IsInf(g, -1), "LogSumLog(%v, %v) = (%v, %d), want zero", a, s, g, sg)
		} else {
			w := bf(0)
			for i, v := range a {
				if s[i] != 0 && !math.IsInf(v, -1) {
					x := bigExp(new(big.Float).SetPrec(prec).Sub(bf(v), bf(mx)))
					if s[i] < 0 {
						x.Neg(x)
					}
					w.Add(w, x)
				}
			}
			got := bf(0)
			m.Check(!math.IsNaN(g), "LogSumLog(%v, %v) = NaN", a, s)
			m.Check(sg >= -1 && sg <= 1, "LogSumLog sign %d", sg)
			bad := math.IsNaN(g) || math.IsInf(g, 1)
			if !bad && sg != 0 && !math.IsInf(g, -1) {
				if g-mx > 50 {
					bad = true
				} else {
					got = bigExp(new(big.Float).SetPrec(prec).Sub(bf(g), bf(mx)))
				}
				if sg < 0 {
					got.Neg(got)
				}
			}
			d, _ := new(big.Float).Sub(got, w).Float64()
			wf, _ := w.Float64()
			m.Check(!bad && math.Abs(d) <= 4e-15*float64(len(a)+2)*(1+math.Abs(wf)*(1+math.Abs(mx))), "LogSumLog(%v, %v) = (%v, %d): scaled sum %v, want %v", a, s, g, sg, got, wf)
		}
		// another order
		p := m.R.Perm(len(a))
		na, ns := make([]float64, len(a)), make([]int, len(a))
		for i, j := range p {
			na[i], ns[i] = a[j], s[j]
		}
		a, s = na, ns
	}
	m.Count("values", len(a))
	m.Sig("%v|%v", a, s)
}

func trim(m *vk.M) {
	n := m.R.Intn(12)
	if m.R.Intn(30) == 0 {
		n = 100 + m.R.Intn(3000)
	}
	vals := []float64{0, 1, 2, math.Inf(-1), math.Inf(1), -1.5, math.MaxFloat64}
	a := make([]float64, n)
	hi := 1 + m.R.Intn(len(vals))
	for i := range a {
		a[i] = vals[m.R.Intn(hi)]
	}
	c := vals[m.R.Intn(len(vals))]
	w := map[float64]int{}
	keep := 0
	for _, v := range a {
		if v != c {
			w[v]++
			keep++
		}
	}
	in := append([]float64(nil), a...)
	g := utils.Trim(a, c)
	m.Check(len(g) == keep, "Trim(%v, %v) = %v", in, c, g)
	for _, v := range g {
		w[v]--
		m.Check(w[v] >= 0, "Trim(%v, %v) = %v", in, c, g)
	}
	m.Check(math.IsInf(utils.LogZero, -1), "LogZero = %v", utils.LogZero)
	m.Check(math.IsInf(utils.Inf(-1), -1) && math.IsInf(utils.Inf(1), 1), "Inf")
	m.Count("values", n)
	m.Sig("%v|%v", in, c)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C23",
		Rule: "random argument vectors (equal, clustered, spread over thousands of units, exact and near cancellation, minus infinity, subnormals, extremes, all-zero) against 320-bit arithmetic, each also in another order; distinct by arguments",
		Assumptions: []string{
			"rounding allowance 4e-15 per term, relative to the magnitude of the inputs",
			"probabilities are finite and non-negative, log values below plus infinity; LogSumExp is given at least one value",
			"probabilities are not subnormal: math.Log of this Go release on amd64 is itself wrong there",
		},
		Workloads: []vk.Workload{
			{Name: "logsumexp", Quick: 12000, Thorough: 100000, F: logSumExp},
			{Name: "logsum", Quick: 12000, Thorough: 100000, F: logSum},
			{Name: "signed", Quick: 12000, Thorough: 120000, F: signed},
			{Name: "trim", Quick: 12000, Thorough: 100000, F: trim},
		},
	})
}

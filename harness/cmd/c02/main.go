// C02: a valid normalised network with discrete leaves is a probability distribution.
package main

import (
	"math"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/spn"
)

// build makes the network with leaves from the various multinomial constructors.
func build(m *vk.M, n *net.Net) *net.Built {
	b := n.Build()
	if m.R.Intn(3) > 0 {
		return b
	}
	// Rebuild with counting and uniform leaves.
	nodes := make([]spn.SPN, len(n.N))
	for i, x := range n.N {
		switch x.K {
		case net.Multi:
			c := make([]int, len(x.Pr))
			for j := range c {
				c[j] = m.R.Intn(20)
			}
			switch m.R.Intn(3) {
			case 0:
				nodes[i] = spn.NewCountingMultinomial(x.Var, c)
			case 1:
				nodes[i] = spn.NewEmptyMultinomial(x.Var, len(c))
			default:
				nodes[i] = spn.NewScopedCountingMultinomial(x.Var, []int{x.Var}, c)
			}
		case net.Ind:
			nodes[i] = spn.NewIndicator(x.Var, x.Val)
		case net.Sum:
			s := spn.NewSum()
			for j, c := range x.Ch {
				s.AddChildW(nodes[c], x.W[j])
			}
			nodes[i] = s
		case net.Prod:
			s := spn.NewProduct()
			for _, c := range x.Ch {
				s.AddChild(nodes[c])
			}
			nodes[i] = s
		}
	}
	return &net.Built{Net: n, Nodes: nodes, Root: nodes[len(nodes)-1]}
}

func run(m *vk.M) {
	o := net.RandOpt(m.R)
	if o.Vars > 6 {
		o.Vars = 6
	}
	if o.MaxCats > 5 {
		o.MaxCats = 5
	}
	o.Kinds = [][]net.Kind{{net.Multi}, {net.Multi, net.Ind}, {net.Ind}}[m.R.Intn(3)]
	o.W = []net.WMode{net.WNorm, net.WZero, net.WDirich, net.WFree}[m.R.Intn(4)]
	if m.Idx%20 == 7 { // few variables of many values
		o.Vars, o.MaxCats = 1+m.R.Intn(2), 60
	}
	n := net.Valid(m.R, o)
	if m.Idx%40 == 3 {
		n, o.W = net.Wide(m.R, 1+m.R.Intn(5), 30+m.R.Intn(200)), net.WNorm
	}
	b := build(m, n)
	if o.W == net.WFree {
		// Normalised by the library.
		spn.NormalizeSPN(b.Root)
	}
	cats := n.Cats()
	sc := n.Scope()
	tot := 1
	for _, v := range sc {
		tot *= cats[v]
	}
	if tot > 3000 {
		sc2 := 0
		for tot > 3000 && sc2 < len(sc) {
			tot /= cats[sc[sc2]]
			sc2++
		}
	}
	m.Note("net %v", n)
	m.Sig("%s", n.Shape())
	m.Sample("%v", n)
	st := spn.NewStorer()
	infer := func(e map[int]int) float64 {
		switch m.R.Intn(3) {
		case 0:
			if n.Paths() < 5000 {
				return b.Root.Value(e)
			}
			return spn.Inference(b.Root, e)
		case 1:
			_, tk := spn.StoreInference(b.Root, e, -1, st)
			v, _ := st.Single(tk, b.Root)
			st.Delete(tk)
			return v
		default:
			return spn.Inference(b.Root, e)
		}
	}
	for k := 0; k < 3; k++ {
		z := infer(map[int]int{})
		m.Check(math.Abs(z) < 1e-9, "value of the empty evidence is exp(%v), not one", z)
	}
	// Exhaustive: every partial assignment over a random subset.
	for k := 0; k < 4; k++ {
		e := map[int]int{}
		var free []int
		size := 1
		for _, v := range sc {
			if m.R.Intn(2) == 0 || size*cats[v] > 3000 {
				e[v] = m.R.Intn(cats[v])
			} else {
				free = append(free, v)
				size *= cats[v]
			}
		}
		lpart := infer(e)
		part := math.Exp(lpart)
		var ls []float64
		var rec func(i int) float64
		rec = func(i int) float64 {
			if i == len(free) {
				v := infer(e)
				m.Check(v <= 1e-9 && !math.IsNaN(v), "value of %v is exp(%v), above one", e, v)
				ls = append(ls, v)
				return math.Exp(v)
			}
			t := 0.0
			for x := 0; x < cats[free[i]]; x++ {
				e[free[i]] = x
				t += rec(i + 1)
			}
			delete(e, free[i])
			return t
		}
		tot := rec(0)
		m.Check(math.Abs(tot-part) <= 1e-9*math.Max(1e-3, part), "value of %v is %v but its %d completions sum to %v", e, part, size, tot)
		if ltot := lse(ls); !math.IsInf(ltot, -1) || !math.IsInf(lpart, -1) {
			m.Check(math.Abs(ltot-lpart) <= 1e-9, "value of %v is exp(%v) but its %d completions sum to exp(%v)", e, lpart, size, ltot)
		}
		m.Count("completions_summed", size)
		m.Count("marginals_compared", 1)
		// Monotone and conditional.
		if len(free) > 0 {
			v := free[m.R.Intn(len(free))]
			s := 0.0
			for x := 0; x < cats[v]; x++ {
				p := spn.InferenceY(b.Root, e, v, x)
				m.Check(p <= math.Log(part)+1e-9 || (part == 0 && math.IsInf(p, -1)), "adding x%d=%d raised the value from %v to exp(%v)", v, x, part, p)
				s += math.Exp(p - math.Log(part))
			}
			if part > 0 {
				m.Check(math.Abs(s-1) < 1e-9, "posterior of x%d given %v sums to %v", v, e, s)
			}
		}
	}
}

// lse is the log of the sum of the exponentials.
func lse(a []float64) float64 {
	mx := math.Inf(-1)
	for _, x := range a {
		mx = math.Max(mx, x)
	}
	if math.IsInf(mx, -1) {
		return mx
	}
	t := 0.0
	for _, x := range a {
		t += math.Exp(x - mx)
	}
	return mx + math.Log(t)
}

// long judges mixtures of long products: values far below the smallest float.
func long(m *vk.M) {
	vars, comps := 50+m.R.Intn(2500), 1+m.R.Intn(4)
	tiny := m.R.Intn(2) == 0
	cats := make([]int, vars)
	for v := range cats {
		cats[v] = 2 + m.R.Intn(3)
	}
	root := spn.NewSum()
	ws, tot := make([]float64, comps), 0.0
	for c := range ws {
		ws[c] = m.R.Float64() + 1e-3
		tot += ws[c]
	}
	for c := 0; c < comps; c++ {
		p := spn.NewProduct()
		for v := 0; v < vars; v++ {
			pr, t := make([]float64, cats[v]), 0.0
			for j := range pr {
				pr[j] = m.R.Float64() + 1e-3
				if tiny && m.R.Intn(3) > 0 && j > 0 {
					pr[j] *= math.Pow(10, -float64(m.R.Intn(250)))
				}
				t += pr[j]
			}
			for j := range pr {
				pr[j] /= t
			}
			p.AddChild(spn.NewMultinomial(v, pr))
		}
		root.AddChildW(p, ws[c]/tot)
	}
	m.Note("vars %d comps %d tiny %v", vars, comps, tiny)
	m.Sig("%d/%d/%v", vars/50, comps, tiny)
	st := spn.NewStorer()
	infer := func(e map[int]int) float64 {
		switch m.R.Intn(3) {
		case 0:
			return root.Value(e)
		case 1:
			_, tk := spn.StoreInference(root, e, -1, st)
			v, _ := st.Single(tk, root)
			st.Delete(tk)
			return v
		}
		return spn.Inference(root, e)
	}
	z := infer(map[int]int{})
	m.Check(math.Abs(z) < 1e-9, "value of the empty evidence is exp(%v), not one", z)
	low := 0.0
	for k := 0; k < 4; k++ {
		e := map[int]int{}
		hide := []int{0, 1, vars / 2, vars}[k]
		perm := m.R.Perm(vars)
		for i, v := range perm {
			if i >= hide {
				e[v] = m.R.Intn(cats[v])
			}
		}
		if hide == 0 {
			hide = 1
			delete(e, perm[0])
		}
		v := perm[0]
		part := infer(e)
		var ls []float64
		for x := 0; x < cats[v]; x++ {
			var l float64
			if m.R.Intn(2) == 0 {
				l = spn.InferenceY(root, e, v, x)
			} else {
				e[v] = x
				l = infer(e)
				delete(e, v)
			}
			m.Check(l <= part+1e-9+1e-12*math.Abs(part), "adding x%d=%d raised the value from exp(%v) to exp(%v)", v, x, part, l)
			ls = append(ls, l)
		}
		s := lse(ls)
		m.Check(math.Abs(s-part) <= 1e-9+1e-12*math.Abs(part), "value with %d of %d variables observed is exp(%v) but the values of the %d extensions by x%d sum to exp(%v)", len(e), vars, part, cats[v], v, s)
		low = math.Min(low, part)
		m.Count("long_marginals_compared", 1)
	}
	if low < -1000 {
		m.Count("cases_below_exp_-1000", 1)
	}
}

func main() {
	vk.Main(&vk.Prop{
		ID:          "C02",
		Rule:        "random complete, decomposable, normalised networks over discrete variables; every completion of random partial evidence is summed; distinct by graph",
		Assumptions: []string{"tolerance 1e-9", "at most 3000 completions per evidence"},
		Workloads:   []vk.Workload{{Name: "marginals", Quick: 10000, Thorough: 150000, F: run}, {Name: "long", Quick: 60, Thorough: 2000, F: long}},
	})
}

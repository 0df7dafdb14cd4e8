// C09: discriminative weight learning follows the conditional gradient.
package main

import (
	"math"

	"verif/lref"
	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
)

func run(m *vk.M, n *net.Net, hard bool) {
	if n.Leaf(n.Root()) {
		return
	}
	for i := range n.N {
		// The gradient is a quotient: densities of e^-1e9 would leave nothing but rounding.
		if x := &n.N[i]; x.K == net.Gauss && x.Sig > 0 {
			x.Sig = math.Max(x.Sig, 0.05)
		}
	}
	p := lref.P{Eta: []float64{0.0005, 0.002, 0.01, 0.05}[m.R.Intn(4)], Lambda: []float64{0, 0.01, 0.1}[m.R.Intn(3)],
		Batch: m.R.Intn(6), Iter: m.R.Intn(4), Norm: m.R.Intn(3) > 0, Hard: hard}
	if p.Iter == 0 && m.R.Intn(3) > 0 {
		p.Iter = 2
	}
	sc := n.Scope()
	cats := n.Cats()
	// Label variables.
	ny := 1
	if len(sc) > 2 && m.R.Intn(4) == 0 {
		ny = 2
	}
	if len(sc) > 4 && m.R.Intn(12) == 0 {
		ny = 3
	}
	if len(sc) > 5 && m.R.Intn(20) == 0 {
		ny = 4 + m.R.Intn(3)
	}
	var Y []int
	var YV []*learn.Variable
	for _, k := range m.R.Perm(len(sc))[:min(ny, len(sc))] {
		Y = append(Y, sc[k])
		YV = append(YV, &learn.Variable{Varid: sc[k], Categories: cats[sc[k]], Name: "y"})
	}
	size := m.R.Intn(8)
	if m.R.Intn(30) == 0 {
		size = 15 + m.R.Intn(20)
	}
	if m.R.Intn(80) == 0 { // long runs: many instances, large batches or many iterations
		size = 40 + m.R.Intn(60)
		p.Batch = []int{0, 7, 16, 32, 50, 64, 100, 200}[m.R.Intn(8)]
		p.Iter = 1 + m.R.Intn(2)
	} else if m.R.Intn(40) == 0 {
		p.Iter = 4 + m.R.Intn(8)
	} else if m.R.Intn(500) == 0 && len(n.N) < 40 {
		size, p.Batch, p.Iter, p.Norm = 300+m.R.Intn(300), []int{0, 3, 250, 1000}[m.R.Intn(4)], 1, true
	} else if m.R.Intn(500) == 0 && len(n.N) < 40 {
		size, p.Iter, p.Norm = 1+m.R.Intn(3), 60+m.R.Intn(100), true
	}
	if m.R.Intn(20) == 0 {
		p.Batch = 6 + m.R.Intn(10)
	}
	var D spn.Dataset
	for tries := 0; len(D) < size && tries < 200+size; tries++ {
		e := n.RandEv(m.R, []float64{1, 1, 0.7, 0.3}[m.R.Intn(4)])
		for _, y := range Y {
			e[y] = net.DrawVal(m.R, cats[y])
		}
		if math.IsInf(n.Eval(e)[n.Root()], -1) {
			continue
		}
		D = append(D, e)
		if m.R.Intn(6) == 0 && len(D) < size {
			D = append(D, e) // the same map object twice
		}
	}
	keep := make([]map[int]int, len(D))
	for i, e := range D {
		keep[i] = net.CopyEv(e)
	}
	b := n.Build()
	lt := parameters.SoftGD
	if hard {
		lt = parameters.HardGD
	}
	ref := n.Clone()
	entry := m.R.Intn(2) == 0
	switch {
	case entry && !hard && m.R.Intn(6) == 0:
		p = lref.P{Eta: 0.1, Lambda: 0.01, Batch: 0, Iter: 4, Norm: true}
	case entry:
		parameters.Bind(b.Root, parameters.New(p.Norm, false, 0.01, lt, p.Eta, 1.0, p.Batch, p.Lambda, p.Iter))
	default:
		parameters.Bind(b.Root, parameters.New(!p.Norm, true, 0.5, 1-lt, p.Eta*3, 2.0, p.Batch+1, p.Lambda, p.Iter))
	}
	defer parameters.Unbind(b.Root)
	m.Note("net %v", n)
	m.Note("data %v labels %v params %+v entry %v", D, Y, p, entry)
	l := lref.Discriminative(ref, keep, Y, p)
	if l.Ill != "" {
		m.Count("undetermined_skipped", 1)
		return
	}
	var r spn.SPN
	switch {
	case entry:
		r = learn.Discriminative(b.Root, D, YV)
	case hard && (p.Batch > 1 || p.Batch == 1 && m.R.Intn(2) == 0):
		r = learn.DiscriminativeHardBGD(b.Root, p.Eta, 1, D, YV, p.Norm, p.Batch)
	case hard:
		r = learn.DiscriminativeHardGD(b.Root, p.Eta, 1, D, YV, p.Norm)
	case p.Batch > 1 || p.Batch == 1 && m.R.Intn(2) == 0:
		r = learn.DiscriminativeBGD(b.Root, p.Eta, 1, D, YV, p.Norm, p.Batch)
	default:
		r = learn.DiscriminativeGD(b.Root, p.Eta, 1, D, YV, p.Norm)
	}
	m.Check(r == b.Root, "the learner returned another node")
	for i := range D {
		m.Check(net.SameEv(D[i], keep[i]), "instance %d was modified: %v became %v", i, keep[i], D[i])
	}
	for i, y := range YV {
		m.Check(y.Varid == Y[i] && y.Categories == cats[Y[i]], "label variable %d was modified", i)
	}
	got, err := net.Import(b.Root)
	m.Must(err == nil, "malformed network after learning: %v", err)
	for i := range n.N {
		x := &ref.N[i]
		if x.K != net.Sum {
			continue
		}
		gw := b.Nodes[i].(*spn.Sum).Weights()
		if !m.Check(len(gw) == len(x.W), "sum %d has %d weights", i, len(gw)) {
			return
		}
		s := 0.0
		for j := range x.W {
			s += gw[j]
			m.Check(net.Close(gw[j], x.W[j], 1e-6), "sum %d weight %d = %v after %d updates, documented update gives %v (was %v)", i, j, gw[j], l.Updates, x.W[j], n.N[i].W[j])
			m.Check(!p.Norm || !l.Touched[i] || gw[j] >= 0, "sum %d weight %d = %v is negative", i, j, gw[j])
			m.Count("weights_compared", 1)
		}
		if p.Norm && l.Touched[i] {
			m.Check(math.Abs(s-1) < 1e-9, "weights of updated sum %d add up to %v", i, s)
		}
		copy(x.W, gw)
	}
	d := net.Diff(net.MustImport(ref.Build().Root).Net, got.Net)
	m.Check(d == "", "learning changed more than weights: %s", d)
	m.Count("updates_followed", l.Updates)
	if l.Updates > 0 {
		m.Sig("%s|%v|%v|%d|%d|%v|%d", n.Shape(), p.Norm, hard, p.Batch, p.Iter, entry, len(Y))
		m.Sample("%v on %d instances, labels %v, %+v", n, len(D), Y, p)
	}
}

func opt(m *vk.M) net.Opt {
	o := net.RandOpt(m.R)
	o.W = net.WNorm
	if m.R.Intn(3) == 0 {
		o.W = net.WFree
	}
	o.ZeroPr = false
	if o.Vars > 8 {
		o.Vars = 8
	}
	if o.Vars < 2 {
		o.Vars = 2
	}
	return o
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C09",
		Rule: "random networks, labelled datasets (one or two label variables, partial instances), rates, regularisation, batch sizes and iteration counts through the entry point and the four learners; a case counts when at least one update was followed; distinct by graph and parameters",
		Assumptions: []string{"cases whose update is numerically undetermined (ties, cancelling weights, zero probability, negative weights) are skipped and counted",
			"tolerance 1e-6"},
		Workloads: []vk.Workload{
			{Name: "soft", Quick: 8000, Thorough: 150000, F: func(m *vk.M) { run(m, net.Valid(m.R, opt(m)), false) }},
			{Name: "softdag", Quick: 4000, Thorough: 60000, F: func(m *vk.M) { run(m, net.Arbitrary(m.R, nil, net.WNorm, false), false) }},
			{Name: "hard", Quick: 14000, Thorough: 200000, F: func(m *vk.M) { run(m, net.Valid(m.R, opt(m)), true) }},
			{Name: "wide", Quick: 600, Thorough: 8000, F: func(m *vk.M) {
				if m.Idx%2 == 0 {
					run(m, net.Wide(m.R, 2+m.R.Intn(3), 40+m.R.Intn(120)), m.Idx%4 == 0)
				} else {
					run(m, net.Wide(m.R, 6+m.R.Intn(60), 2+m.R.Intn(3)), m.Idx%4 == 1)
				}
			}},
		},
	})
}

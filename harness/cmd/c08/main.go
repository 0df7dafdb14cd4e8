// C08: generative weight learning applies exactly the documented update.
package main

import (
	"math"

	"verif/lref"
	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
)

func coll(m *vk.M) common.Collection {
	return []common.Collection{nil, &common.Queue{}, &common.Stack{}}[m.R.Intn(3)]
}

func run(m *vk.M, n *net.Net, hard bool, scale ...float64) {
	if n.Leaf(n.Root()) {
		return
	}
	p := lref.P{Eta: []float64{0.001, 0.01, 0.1, 0.5}[m.R.Intn(4)], Lambda: []float64{0, 0.01, 0.1}[m.R.Intn(3)],
		Batch: m.R.Intn(6), Iter: m.R.Intn(4), Norm: m.R.Intn(3) > 0, Hard: hard}
	if m.R.Intn(12) == 0 { // heavy decay; beyond 1/2 only normalisation keeps weights non-negative
		if p.Lambda = 0.45; p.Norm && m.R.Intn(2) == 0 {
			p.Lambda = 0.6
		}
	}
	if p.Iter == 0 && m.R.Intn(3) > 0 {
		p.Iter = 2
	}
	size := m.R.Intn(8)
	if m.R.Intn(30) == 0 {
		size = 20 + m.R.Intn(30)
	}
	if m.R.Intn(80) == 0 { // long runs: many instances, large batches or many iterations
		size = 50 + m.R.Intn(80)
		p.Batch = []int{0, 7, 16, 32, 50, 64, 100, 200}[m.R.Intn(8)]
		p.Iter = 1 + m.R.Intn(2)
	} else if m.R.Intn(40) == 0 {
		p.Iter = 5 + m.R.Intn(12)
	} else if m.R.Intn(400) == 0 && len(n.N) < 60 {
		size, p.Batch, p.Iter, p.Norm = 300+m.R.Intn(500), []int{0, 3, 250, 1000}[m.R.Intn(4)], 1, true
	} else if m.R.Intn(400) == 0 && len(n.N) < 60 {
		size, p.Iter, p.Norm = 1+m.R.Intn(3), 60+m.R.Intn(200), true
	}
	if m.R.Intn(20) == 0 {
		p.Batch = 6 + m.R.Intn(10)
	}
	if len(scale) > 0 { // weights and rate of another order of magnitude
		p.Eta *= scale[0]
		p.Norm = true
	}
	var D spn.Dataset
	for len(D) < size {
		e := n.RandEv(m.R, []float64{1, 1, 0.7, 0.3}[m.R.Intn(4)])
		if hard && math.IsInf(n.MaxEval(e)[n.Root()], -1) {
			if m.R.Intn(20) == 0 {
				return
			}
			continue
		}
		D = append(D, e)
		if m.R.Intn(5) == 0 && len(D) < size {
			D = append(D, e) // the same map object twice
		}
	}
	keep := make([]map[int]int, len(D))
	for i, e := range D {
		keep[i] = net.CopyEv(e)
	}
	b := n.Build()
	lt := parameters.SoftGD
	if hard {
		lt = parameters.HardGD
	}
	entry := m.R.Intn(2) == 0
	bound := true
	ref := n.Clone()
	switch {
	case entry && !hard && len(scale) == 0 && m.R.Intn(6) == 0:
		// Nothing bound: the defaults.
		bound = false
		p = lref.P{Eta: 0.1, Lambda: 0.01, Batch: 0, Iter: 4, Norm: true}
	case entry:
		parameters.Bind(b.Root, parameters.New(p.Norm, false, 0.01, lt, p.Eta, 1.0, p.Batch, p.Lambda, p.Iter))
	default:
		// The arguments prevail over the bound rate, batch size and flag.
		parameters.Bind(b.Root, parameters.New(!p.Norm, true, 0.5, 1-lt, p.Eta*3, 2.0, p.Batch+1, p.Lambda, p.Iter))
	}
	defer parameters.Unbind(b.Root)
	m.Note("net %v", n)
	m.Note("data %v params %+v entry %v", D, p, entry)
	l := lref.Generative(ref, keep, p)
	if l.Ill != "" {
		m.Count("undetermined_skipped", 1)
		return
	}
	var r spn.SPN
	switch {
	case entry:
		r = learn.Generative(b.Root, D)
	case hard && p.Batch > 1:
		r = learn.GenerativeHardBGD(b.Root, p.Eta, 1, D, coll(m), p.Norm, p.Batch)
	case hard:
		r = learn.GenerativeHardGD(b.Root, p.Eta, 1, D, coll(m), p.Norm)
	case p.Batch > 1 || (p.Batch == 1 && p.Lambda == 0 && m.R.Intn(2) == 0):
		r = learn.GenerativeBGD(b.Root, p.Eta, 1, D, coll(m), p.Norm, p.Batch)
	default:
		r = learn.GenerativeGD(b.Root, p.Eta, 1, D, coll(m), p.Norm)
	}
	m.Check(r == b.Root, "the learner returned another node")
	for i := range D {
		m.Check(net.SameEv(D[i], keep[i]), "instance %d was modified: %v became %v", i, keep[i], D[i])
	}
	got, err := net.Import(b.Root)
	m.Must(err == nil, "malformed network after learning: %v", err)
	for i := range n.N {
		x := &ref.N[i]
		if x.K != net.Sum {
			continue
		}
		gw := b.Nodes[i].(*spn.Sum).Weights()
		if !m.Check(len(gw) == len(x.W), "sum %d has %d weights", i, len(gw)) {
			return
		}
		s := 0.0
		for j := range x.W {
			s += gw[j]
			m.Check(net.Close(gw[j], x.W[j], 1e-7), "sum %d weight %d = %v after %d updates, documented update gives %v (was %v)", i, j, gw[j], l.Updates, x.W[j], n.N[i].W[j])
			m.Check(!p.Norm || !l.Touched[i] || gw[j] >= 0, "sum %d weight %d = %v is negative", i, j, gw[j])
			m.Count("weights_compared", 1)
		}
		if p.Norm && l.Touched[i] {
			m.Check(math.Abs(s-1) < 1e-9, "weights of updated sum %d add up to %v", i, s)
		}
		copy(x.W, gw)
	}
	d := net.Diff(net.MustImport(ref.Build().Root).Net, got.Net)
	m.Check(d == "", "learning changed more than weights: %s", d)
	m.Count("updates_followed", l.Updates)
	if l.Updates > 0 {
		m.Sig("%s|%v|%v|%d|%d|%v|%v", n.Shape(), p.Norm, hard, p.Batch, p.Iter, entry, bound)
		m.Sample("%v on %d instances, %+v", n, len(D), p)
	}
}

func opt(m *vk.M) net.Opt {
	o := net.RandOpt(m.R)
	if o.W == net.WWild || o.W == net.WZero {
		o.W = net.WNorm
	}
	o.ZeroPr = false
	if o.Vars > 10 {
		o.Vars = 10
	}
	return o
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C08",
		Rule: "random networks, datasets (partial and repeated instances), rates, regularisation, batch sizes and iteration counts through the entry point and the four learners; a case counts when at least one update was followed; distinct by graph and parameters",
		Assumptions: []string{"the documented update is the one in the learners' comments and the README's rule as implemented at the pinned commit",
			"hard learners are judged when the max-product trace has no near-tie", "tolerance 1e-7 relative"},
		Workloads: []vk.Workload{
			{Name: "soft", Quick: 16000, Thorough: 150000, F: func(m *vk.M) { run(m, net.Valid(m.R, opt(m)), false) }},
			{Name: "softdag", Quick: 12000, Thorough: 100000, F: func(m *vk.M) { run(m, net.Arbitrary(m.R, nil, net.WNorm, m.R.Intn(3) == 0), false) }},
			{Name: "hard", Quick: 20000, Thorough: 200000, F: func(m *vk.M) { run(m, net.Valid(m.R, opt(m)), true) }},
			{Name: "wide", Quick: 600, Thorough: 8000, F: func(m *vk.M) {
				if m.Idx%60 == 0 {
					run(m, net.Wide(m.R, 1+m.R.Intn(2), 500+m.R.Intn(1000)), m.Idx%120 == 0)
				} else if m.Idx%2 == 0 {
					run(m, net.Wide(m.R, 1+m.R.Intn(4), 40+m.R.Intn(120)), m.Idx%4 == 0)
				} else {
					// A rate for which the tiny derivatives of long products matter.
					k := 30 + m.R.Intn(60)
					n := net.Wide(m.R, k, 2+m.R.Intn(3))
					if m.Idx%4 == 1 {
						run(m, n, true)
					} else {
						run(m, n, false, math.Pow(2, float64(k)))
					}
				}
			}},
			{Name: "tiny", Quick: 1500, Thorough: 20000, F: func(m *vk.M) {
				n := net.Valid(m.R, opt(m))
				s := math.Pow(10, -5-40*m.R.Float64())
				if x := &n.N[n.Root()]; x.K == net.Sum {
					for j := range x.W {
						x.W[j] *= s
					}
					run(m, n, false, s)
				}
			}},
		},
	})
}

// C03: MAP inference returns a maximising, evidence-consistent, complete assignment.
package main

import (
	"math"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/spn"
)

func check(m *vk.M, n *net.Net, evs int) {
	b := n.Build()
	network(m, b, evs)
	if m.R.Intn(3) == 0 && b.Edit(m.R, false) {
		// The same nodes with other weights.
		m.Count("edited_networks", 1)
		network(m, b, 2)
	}
}

func network(m *vk.M, b *net.Built, evs int) {
	n := b.Net
	snap := net.Take(b.Root)
	m.Note("net %v", n)
	paths := n.Paths()
	sc := n.Scope()
	st := spn.NewStorer()
	nontrivial := false
	type tabl struct {
		tk   int
		want []float64
	}
	var tabs []tabl
	for k := 0; k < evs; k++ {
		e := n.RandEv(m.R, []float64{0, 0.3, 0.6, 1}[(k+m.R.Intn(2))%4])
		keep := net.CopyEv(e)
		want := n.MaxEval(e)
		root := want[n.Root()]
		if math.IsInf(root, -1) {
			// No state can be asked for, but the value is log zero and nothing fails.
			m.Note("impossible evidence %v", e)
			if paths < 1500 {
				m.Check(math.IsInf(b.Root.Max(e), -1), "Max of impossible evidence %v = %v", e, b.Root.Max(e))
				s, v := b.Root.ArgMax(e)
				m.Check(math.IsInf(v, -1), "ArgMax of impossible evidence %v reports %v", e, v)
				for u, x := range s {
					y, ok := e[u]
					m.Check(!ok || x == y, "ArgMax of impossible evidence %v assigns x%d=%d", e, u, x)
				}
			}
			t := spn.NewStorer()
			_, tk, s := spn.StoreMAP(b.Root, e, -1, t)
			v, ok := t.Single(tk, b.Root)
			m.Check(ok && math.IsInf(v, -1), "StoreMAP of impossible evidence %v stores %v", e, v)
			for u, x := range s {
				y, ok := e[u]
				m.Check(!ok || x == y, "StoreMAP of impossible evidence %v assigns x%d=%d", e, u, x)
			}
			spn.TraceMAP(b.Root, e)
			m.Check(net.SameEv(e, keep), "evidence was modified: %v became %v", keep, e)
			m.Count("impossible_evidences", 1)
			continue
		}
		nontrivial = true
		m.Note("evidence %v max-product %v", e, root)
		state := func(who string, s map[int]int) {
			for _, v := range sc {
				if _, ok := s[v]; !m.Check(ok, "%s: state %v leaves x%d unassigned", who, s, v) {
					return
				}
			}
			for v, x := range e {
				y, ok := s[v]
				m.Check(!ok || y == x, "%s: state assigns x%d=%d against evidence %d", who, v, y, x)
			}
			c := map[int]int{}
			for _, v := range sc {
				c[v] = s[v]
			}
			at := n.MaxEval(c)[n.Root()]
			m.Check(net.Near(at, root), "%s: state %v attains %v, not the max-product value %v", who, s, at, root)
			m.Count("states_checked", 1)
		}
		if paths < 20000 {
			got := b.Root.Max(e)
			m.Check(net.Near(got, root), "Max(%v) = %v, reference %v", e, got, root)
			i := m.R.Intn(len(n.N))
			got = b.Nodes[i].Max(e)
			m.Check(net.Near(got, want[i]), "Max of node %d = %v, reference %v", i, got, want[i])
		}
		if paths < 1500 {
			s, v := b.Root.ArgMax(e)
			m.Check(net.Near(v, root), "ArgMax(%v) reports %v, reference %v", e, v, root)
			state("ArgMax", s)
		}
		tk := -1
		switch m.R.Intn(3) {
		case 1:
			tk = st.NewTicket()
		case 2:
			if len(tabs) > 0 {
				tk = tabs[0].tk
				tabs = tabs[1:]
			}
		}
		rs, rtk, s := spn.StoreMAP(b.Root, e, tk, st)
		m.Check(rs == b.Root && (tk < 0 || rtk == tk), "StoreMAP returned ticket %d for %d", rtk, tk)
		for _, t := range tabs {
			m.Check(t.tk != rtk, "StoreMAP returned the live ticket %d", rtk)
		}
		tabs = append(tabs, tabl{rtk, want})
		for _, t := range tabs {
			for i, z := range b.Nodes {
				v, ok := st.Single(t.tk, z)
				if !m.Check(ok && net.Near(v, t.want[i]), "StoreMAP ticket %d node %d holds %v (%v), reference %v", t.tk, i, v, ok, t.want[i]) {
					break
				}
			}
		}
		m.Count("stored_entries", len(tabs)*len(n.N))
		state("StoreMAP", s)
		// Trace.
		tr := spn.TraceMAP(b.Root, e)
		q := []int{n.Root()}
		for len(q) > 0 {
			i := q[0]
			q = q[1:]
			x := &n.N[i]
			switch x.K {
			case net.Prod:
				q = append(q, x.Ch...)
			case net.Sum:
				c, ok := tr[b.Nodes[i]]
				if !m.Check(ok && c >= 0 && c < len(x.Ch), "TraceMAP has no child for sum %d (%v, %v)", i, c, ok) {
					continue
				}
				v := math.Log(x.W[c]) + want[x.Ch[c]]
				m.Check(net.Near(v, want[i]), "TraceMAP sends sum %d to child %d of value %v, the maximum is %v", i, c, v, want[i])
				q = append(q, x.Ch[c])
				m.Count("trace_steps", 1)
			}
		}
		m.Check(net.SameEv(e, keep), "evidence was modified: %v became %v", keep, e)
	}
	if nontrivial {
		m.Sig("%s", n.Shape())
		m.Sample("%v", n)
	}
	d := snap.Changed()
	m.Check(d == "", "MAP inference modified the network: %s", d)
}

// means: Gaussian leaves whose mean is no integer are given the nearest one.
func means(m *vk.M) {
	n := &net.Net{}
	p := net.Node{K: net.Prod}
	want := map[int]float64{}
	for v := 0; v < 1+m.R.Intn(6); v++ {
		x := net.Node{K: net.Gauss, Var: 3 * v, Mu: 40 * (m.R.Float64() - 0.5), Sig: 0.1 + 5*m.R.Float64()}
		if m.R.Intn(5) == 0 {
			x.Mu *= 1e5
		}
		want[x.Var] = x.Mu
		n.N = append(n.N, x)
		p.Ch = append(p.Ch, v)
	}
	n.N = append(n.N, p)
	b := n.Build()
	m.Note("net %v", n)
	e := n.RandEv(m.R, []float64{0, 0.5}[m.R.Intn(2)])
	root := n.MaxEval(e)[n.Root()]
	state := func(who string, s map[int]int, v float64) {
		m.Check(net.Near(v, root), "%s(%v) reports %v, reference %v", who, e, v, root)
		for u, mu := range want {
			x, ok := s[u]
			o, obs := e[u]
			m.Check(ok && (obs && x == o || !obs && math.Abs(float64(x)-mu) <= 0.5+1e-9), "%s(%v): x%d=%d (%v) with mean %v", who, e, u, x, ok, mu)
			m.Count("means_rounded", 1)
		}
	}
	s, v := b.Root.ArgMax(e)
	state("ArgMax", s, v)
	st := spn.NewStorer()
	_, tk, s2 := spn.StoreMAP(b.Root, e, -1, st)
	v, _ = st.Single(tk, b.Root)
	state("StoreMAP", s2, v)
	m.Sig("%v", n)
}

func opt(m *vk.M) net.Opt {
	o := net.RandOpt(m.R)
	o.IntMu = true
	return o
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C03",
		Rule: "random complete and decomposable networks (shared children, ties, zero weights, three leaf kinds) with evidence of non-zero probability; distinct by graph",
		Assumptions: []string{"Gaussian means are integers, so that an integer state can attain the density at the mean (elsewhere the nearest integer is required)",
			"tolerance 1e-9 relative in log space"},
		Workloads: []vk.Workload{
			{Name: "random", Quick: 40000, Thorough: 400000, F: func(m *vk.M) { check(m, net.Valid(m.R, opt(m)), 5) }},
			{Name: "ties", Quick: 10000, Thorough: 60000, F: func(m *vk.M) {
				o := opt(m)
				o.Ties = true
				o.Kinds = []net.Kind{net.Multi, net.Ind}
				n := net.Valid(m.R, o)
				for i := range n.N {
					for j := range n.N[i].W {
						n.N[i].W[j] = 1 / float64(len(n.N[i].W))
					}
				}
				check(m, n, 4)
			}},
			{Name: "families", Quick: 1500, Thorough: 20000, F: func(m *vk.M) {
				switch m.Idx % 5 {
				case 0:
					check(m, net.Skip(m.R, 2+m.R.Intn(30)), 3)
				case 1:
					check(m, net.Ladder(m.R, 1+m.R.Intn(9)), 3)
				case 2:
					check(m, net.Wide(m.R, 1+m.R.Intn(30), 1+m.R.Intn(20)), 3)
				case 3:
					check(m, net.Chain(m.R, 1+m.R.Intn(80)), 3)
				default:
					n := net.Single(m.R)
					n.N[0].Mu = math.Round(n.N[0].Mu)
					check(m, n, 4)
				}
			}},
			{Name: "means", Quick: 3000, Thorough: 40000, F: means},
			{Name: "spread", Quick: 6000, Thorough: 60000, F: func(m *vk.M) {
				o := opt(m)
				if m.R.Intn(2) == 0 {
					o.Kinds = []net.Kind{net.Ind}
				}
				check(m, net.Valid(m.R, o).Spread(m.R), 6)
			}},
			{Name: "star", Quick: 8, Thorough: 100, F: func(m *vk.M) { check(m, net.Star(m.R, 500, 4000), 2) }},
			{Name: "deep", Quick: 24, Thorough: 200, F: func(m *vk.M) {
				switch m.Idx % 3 {
				case 0:
					check(m, net.Chain(m.R, 2500), 2)
				case 1:
					check(m, net.Ladder(m.R, 60), 2)
				default:
					check(m, net.Wide(m.R, 300, 5), 2)
				}
			}},
		},
	})
}

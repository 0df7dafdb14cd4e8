// C06: scope, validity, height and weight-normalisation queries are exact.
package main

import (
	"math"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/spn"
)

func setOf(m *vk.M, who string, sc []int) map[int]bool {
	o := map[int]bool{}
	for _, v := range sc {
		m.Check(!o[v], "%s: scope %v repeats %d", who, sc, v)
		o[v] = true
	}
	return o
}

func same(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// mutate breaks (or not) the validity of one random node.
func mutate(m *vk.M, n *net.Net) *net.Net {
	n = n.Clone()
	var inner []int
	for i := range n.N {
		if !n.Leaf(i) {
			inner = append(inner, i)
		}
	}
	if len(inner) == 0 {
		return n
	}
	i := inner[m.R.Intn(len(inner))]
	x := &n.N[i]
	switch m.R.Intn(5) {
	case 0: // add a child
		x.Ch = append(x.Ch, m.R.Intn(i))
		if x.K == net.Sum {
			x.W = append(x.W, 0.3)
		}
	case 1: // replace a child
		x.Ch[m.R.Intn(len(x.Ch))] = m.R.Intn(i)
	case 2: // drop a child
		if len(x.Ch) > 1 {
			x.Ch = x.Ch[1:]
			if x.K == net.Sum {
				x.W = x.W[1:]
			}
		}
	case 3: // change a leaf's variable
		for k := range n.N {
			if n.Leaf(k) && m.R.Intn(3) == 0 {
				n.N[k].Var = m.R.Intn(12)
				break
			}
		}
	case 4: // swap the kind of a node
		if x.K == net.Sum {
			x.K, x.W = net.Prod, nil
		} else {
			x.K = net.Sum
			x.W = net.Weights(m.R, len(x.Ch), net.WNorm)
		}
	}
	return n.Prune()
}

func queries(m *vk.M, b *net.Built, n *net.Net) {
	sc := n.Scopes()
	root := n.Root()
	wc, wd := n.Complete(), n.Decomposable()
	if wc {
		m.Count("complete_nets", 1)
	} else {
		m.Count("incomplete_nets", 1)
	}
	if wd {
		m.Count("decomposable_nets", 1)
	} else {
		m.Count("non_decomposable_nets", 1)
	}
	for _, q := range m.R.Perm(7) {
		switch q {
		case 0:
			g := setOf(m, "ComputeScope", spn.ComputeScope(b.Root))
			m.Check(same(g, sc[root]), "ComputeScope = %v, want %v", net.Keys(g), net.Keys(sc[root]))
		case 1:
			g := spn.Complete(b.Root)
			m.Check(g == wc, "Complete = %v, want %v", g, wc)
		case 2:
			g := spn.Decomposable(b.Root)
			m.Check(g == wd, "Decomposable = %v, want %v", g, wd)
		case 3:
			g := spn.ComputeHeight(b.Root)
			m.Check(g == n.Height(), "ComputeHeight = %d, want %d", g, n.Height())
		case 4:
			if n.Paths() < 20000 {
				g := b.Root.Height()
				m.Check(g == n.Height(), "Height = %d, want %d", g, n.Height())
			}
		case 5:
			if wc && wd {
				for k := 0; k < 4; k++ {
					i := m.R.Intn(len(n.N))
					g := setOf(m, "Sc", b.Nodes[i].Sc())
					m.Check(same(g, sc[i]), "Sc of node %d = %v, want %v", i, net.Keys(g), net.Keys(sc[i]))
				}
				g := setOf(m, "Sc", b.Root.Sc())
				m.Check(same(g, sc[root]), "Sc = %v, want %v", net.Keys(g), net.Keys(sc[root]))
			}
		case 6:
			i := m.R.Intn(len(n.N))
			g := setOf(m, "ComputeScope", spn.ComputeScope(b.Nodes[i]))
			m.Check(same(g, sc[i]), "ComputeScope of node %d = %v, want %v", i, net.Keys(g), net.Keys(sc[i]))
		}
	}
}

func check(m *vk.M, n *net.Net) {
	b := n.Build()
	m.Note("net %v", n)
	m.Sig("%s", n.Shape())
	m.Sample("%v", n)
	snap := net.Take(b.Root)
	e := n.RandEv(m.R, 0.6)
	before := spn.Inference(b.Root, e)
	queries(m, b, n)
	d := snap.Changed()
	m.Check(d == "", "a query modified the network: %s", d)
	after := spn.Inference(b.Root, e)
	m.Check(before == after || math.IsNaN(before), "queries changed the value from %v to %v", before, after)
	// The network grows, then the queries are asked again.
	if m.R.Intn(3) == 0 {
		n2 := n.Clone()
		for k := 0; k < 1+m.R.Intn(3); k++ {
			i := m.R.Intn(len(n2.N))
			if n2.Leaf(i) || i == 0 {
				continue
			}
			c := m.R.Intn(i)
			n2.N[i].Ch = append(n2.N[i].Ch, c)
			if s, ok := b.Nodes[i].(*spn.Sum); ok {
				s.AddChildW(b.Nodes[c], 0.25)
				n2.N[i].W = append(n2.N[i].W, 0.25)
			} else {
				b.Nodes[i].AddChild(b.Nodes[c])
			}
		}
		m.Note("grown net %v", n2)
		g := setOf(m, "ComputeScope after growth", spn.ComputeScope(b.Root))
		m.Check(same(g, n2.Scopes()[n2.Root()]), "ComputeScope after growth = %v, want %v", net.Keys(g), n2.Scope())
		gc, gd := spn.Complete(b.Root), spn.Decomposable(b.Root)
		m.Check(gc == n2.Complete(), "Complete after growth = %v", gc)
		m.Check(gd == n2.Decomposable(), "Decomposable after growth = %v", gd)
		m.Check(spn.ComputeHeight(b.Root) == n2.Height(), "ComputeHeight after growth is wrong")
		m.Count("regrown", 1)
	}
}

func normalise(m *vk.M) {
	n := net.Any(m.R)
	if m.R.Intn(500) == 0 {
		n = net.Star(m.R, 500, 3000)
	}
	for i := range n.N {
		x := &n.N[i]
		if x.K != net.Sum {
			continue
		}
		t := 0.0
		for j := range x.W {
			switch m.R.Intn(6) {
			case 0:
				x.W[j] = 0
			case 1:
				x.W[j] = math.Pow(10, 200*m.R.Float64()-100)
			case 2:
				x.W[j] = float64(m.R.Intn(1000))
			default:
				x.W[j] = m.R.Float64()
			}
			t += x.W[j]
		}
		if t == 0 {
			x.W[m.R.Intn(len(x.W))] = 3
		}
		if m.R.Intn(5) == 0 { // all the weights of one order of magnitude
			s := math.Pow(10, 240*m.R.Float64()-120)
			for j := range x.W {
				x.W[j] = s * (0.1 + m.R.Float64())
			}
		}
		if len(x.W) > 1 && m.R.Intn(4) == 0 { // negative weights, the least becomes zero
			for j := range x.W {
				x.W[j] = 4*m.R.Float64() - 2
			}
			x.W[0] = -2.5
		}
	}
	b := n.Build()
	m.Note("net %v", n)
	m.Sig("%s", n.Shape())
	r := spn.NormalizeSPN(b.Root)
	m.Check(r == b.Root, "NormalizeSPN returned another node")
	want := n.Clone()
	got, err := net.Import(b.Root)
	m.Must(err == nil, "NormalizeSPN damaged the network: %v", err)
	for i := range want.N {
		x := &want.N[i]
		if x.K != net.Sum {
			continue
		}
		t, least := 0.0, 0.0
		for _, w := range x.W {
			least = math.Min(least, w)
		}
		for j := range x.W {
			x.W[j] -= least
			t += x.W[j]
		}
		if least < 0 {
			m.Count("sums_with_negative_weights", 1)
		}
		s := 0.0
		gw := b.Nodes[i].(*spn.Sum).Weights()
		if !m.Check(len(gw) == len(x.W), "sum %d has %d weights for %d", i, len(gw), len(x.W)) {
			return
		}
		for j := range x.W {
			m.Check(gw[j] >= 0 && net.Close(gw[j], x.W[j]/t, 1e-12) && (x.W[j] > 0 || gw[j] == 0), "sum %d weight %d became %v, want %v", i, j, gw[j], x.W[j]/t)
			if x.W[j] > 0 && x.W[j]/t > 1e-290 {
				m.Check(math.Abs(gw[j]/(x.W[j]/t)-1) < 1e-9, "sum %d weight %d lost its proportion: %v, want %v", i, j, gw[j], x.W[j]/t)
			}
			s += gw[j]
		}
		m.Check(math.Abs(s-1) < 1e-9, "weights of sum %d add up to %v", i, s)
		m.Count("sums_normalised", 1)
		copy(x.W, gw)
	}
	// Nothing else changed.
	ref := net.MustImport(want.Build().Root)
	d := net.Diff(ref.Net, got.Net)
	m.Check(d == "", "NormalizeSPN changed more than weights: %s", d)
}

func main() {
	vk.Main(&vk.Prop{
		ID:          "C06",
		Rule:        "valid networks, networks with one node made invalid anywhere, and arbitrary DAGs; distinct by graph",
		Assumptions: []string{"the per-node scope accessor is judged on valid networks; the computed scope on all"},
		Workloads: []vk.Workload{
			{Name: "any", Quick: 15000, Thorough: 300000, F: func(m *vk.M) { check(m, net.Any(m.R)) }},
			{Name: "mutated", Quick: 25000, Thorough: 500000, F: func(m *vk.M) { check(m, mutate(m, net.Valid(m.R, net.RandOpt(m.R)))) }},
			{Name: "normalise", Quick: 10000, Thorough: 200000, F: normalise},
			{Name: "star", Quick: 8, Thorough: 100, F: func(m *vk.M) { check(m, mutate(m, net.Star(m.R, 500, 3000))) }},
			{Name: "large", Quick: 30, Thorough: 200, F: func(m *vk.M) {
				switch m.Idx % 4 {
				case 0:
					check(m, net.Chain(m.R, 3000))
				case 1:
					check(m, net.Ladder(m.R, 200))
				case 2:
					check(m, net.Wide(m.R, 400, 4))
				default:
					check(m, net.Skip(m.R, 800))
				}
			}},
		},
	})
}

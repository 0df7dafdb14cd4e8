// C01: every inference routine computes the value of the network polynomial.
package main

import (
	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/spn"
)

func check(m *vk.M, n *net.Net, evs int) {
	b := n.Build()
	m.Sig("%s", n.Shape())
	m.Sample("%v", n)
	network(m, b, evs)
	if m.R.Intn(3) == 0 && b.Edit(m.R, true) {
		// The same nodes, with other weights and further edges.
		m.Count("edited_networks", 1)
		network(m, b, 2)
	}
}

func network(m *vk.M, b *net.Built, evs int) {
	n := b.Net
	snap := net.Take(b.Root)
	rec := n.Paths() < 20000
	m.Note("net %v", n)
	st := spn.NewStorer()
	type tabl struct {
		tk   int
		want []float64
	}
	var tabs []tabl
	for k := 0; k < evs; k++ {
		p := []float64{0, 0.3, 0.6, 1, 1}[(k+m.R.Intn(2))%5]
		e := n.RandEv(m.R, p)
		keep := net.CopyEv(e)
		want := n.Eval(e)
		root := want[n.Root()]
		m.Note("evidence %v want %v", e, root)
		got := spn.Inference(b.Root, e)
		m.Check(net.Near(got, root), "Inference(%v) = %v, reference %v", e, got, root)
		if rec {
			got = b.Root.Value(e)
			m.Check(net.Near(got, root), "Value(%v) = %v, reference %v", e, got, root)
			// recursive value of an inner node
			i := m.R.Intn(len(n.N))
			got = b.Nodes[i].Value(e)
			m.Check(net.Near(got, want[i]), "Value of node %d = %v, reference %v", i, got, want[i])
		}
		// Inner node as a root of its own.
		i := m.R.Intn(len(n.N))
		got = spn.Inference(b.Nodes[i], e)
		m.Check(net.Near(got, want[i]), "Inference of node %d = %v, reference %v", i, got, want[i])
		// One extra fixed variable, observed or not by the evidence.
		sc := n.Scope()
		y := sc[m.R.Intn(len(sc))]
		v := net.DrawVal(m.R, n.Cats()[y])
		e2 := net.CopyEv(e)
		e2[y] = v
		w2 := n.Eval(e2)[n.Root()]
		got = spn.InferenceY(b.Root, e, y, v)
		m.Check(net.Near(got, w2), "InferenceY(%v, x%d=%d) = %v, reference %v", e, y, v, got, w2)
		if m.R.Intn(4) == 0 {
			got = spn.InferenceY(b.Root, e, 99999, 1)
			m.Check(net.Near(got, root), "InferenceY with a foreign variable = %v, reference %v", got, root)
		}
		// Stored inference: a new ticket, a given fresh ticket, or a reused one.
		tk := -1
		mode := m.R.Intn(3)
		if mode == 1 {
			tk = st.NewTicket()
		} else if mode == 2 && len(tabs) > 0 {
			j := m.R.Intn(len(tabs))
			tk = tabs[j].tk
			if m.R.Intn(2) == 0 {
				st.Reset(tk)
			}
			tabs = append(tabs[:j], tabs[j+1:]...)
		}
		rs, rtk := spn.StoreInference(b.Root, e, tk, st)
		m.Check(rs == b.Root, "StoreInference returned another node")
		m.Check(tk < 0 || rtk == tk, "StoreInference returned ticket %d for ticket %d", rtk, tk)
		for _, t := range tabs {
			m.Check(t.tk != rtk, "StoreInference with a new ticket returned the live ticket %d", rtk)
		}
		tabs = append(tabs, tabl{rtk, want})
		// Every live table, including those of earlier evidence.
		for _, t := range tabs {
			for i, s := range b.Nodes {
				v, ok := st.Single(t.tk, s)
				if !m.Check(ok && net.Near(v, t.want[i]), "ticket %d node %d holds %v (%v), reference %v", t.tk, i, v, ok, t.want[i]) {
					break
				}
			}
		}
		m.Count("inferences", 5)
		m.Count("stored_entries", len(tabs)*len(n.N))
		m.Check(net.SameEv(e, keep), "evidence was modified: %v became %v", keep, e)
	}
	d := snap.Changed()
	m.Check(d == "", "inference modified the network: %s", d)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C01",
		Rule: "random networks of eight families with complete, partial and empty evidence; a case is one network, distinct by its graph",
		Assumptions: []string{"discrete evidence lies in the leaf's range", "tolerance 1e-9 relative in log space",
			"unmemoised recursive evaluation is only run below 20000 paths"},
		Workloads: []vk.Workload{
			{Name: "random", Quick: 30000, Thorough: 400000, F: func(m *vk.M) { check(m, net.Any(m.R), 5) }},
			{Name: "valid", Quick: 20000, Thorough: 300000, F: func(m *vk.M) { check(m, net.Valid(m.R, net.RandOpt(m.R)), 5) }},
			{Name: "extreme", Quick: 6000, Thorough: 60000, F: func(m *vk.M) {
				o := net.RandOpt(m.R)
				o.W = net.WWild
				check(m, net.Valid(m.R, o), 6)
			}},
			{Name: "spread", Quick: 6000, Thorough: 60000, F: func(m *vk.M) {
				o := net.RandOpt(m.R)
				if m.R.Intn(2) == 0 {
					o.Kinds = []net.Kind{net.Ind}
				}
				check(m, net.Valid(m.R, o).Spread(m.R), 6)
			}},
			{Name: "star", Quick: 8, Thorough: 100, F: func(m *vk.M) { check(m, net.Star(m.R, 500, 5000), 2) }},
			{Name: "deep", Quick: 60, Thorough: 800, F: func(m *vk.M) {
				switch m.Idx % 5 {
				case 0:
					check(m, net.Chain(m.R, 2500+m.R.Intn(500)), 2)
				case 1:
					check(m, net.Ladder(m.R, 40+m.R.Intn(60)), 3)
				case 2:
					check(m, net.Wide(m.R, 150+m.R.Intn(200), 4), 3)
				case 3:
					check(m, net.Wide(m.R, 3, 200+m.R.Intn(300)), 3)
				default:
					check(m, net.Skip(m.R, 600), 3)
				}
			}},
		},
	})
}

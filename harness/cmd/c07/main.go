// C07: stored derivatives equal the true partial derivatives of the network.
package main

import (
	"math"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
)

func coll(m *vk.M) common.Collection {
	switch m.R.Intn(3) {
	case 0:
		return nil
	case 1:
		return &common.Queue{}
	default:
		return &common.Stack{}
	}
}

func check(m *vk.M, n *net.Net, evs int) {
	b := n.Build()
	network(m, b, evs)
	if m.R.Intn(3) == 0 && b.Edit(m.R, true) {
		// The same nodes, with other weights and further edges.
		m.Count("edited_networks", 1)
		network(m, b, 2)
	}
}

func network(m *vk.M, b *net.Built, evs int) {
	n := b.Net
	m.Note("net %v", n)
	m.Sig("%s", n.Shape())
	m.Sample("%v", n)
	snap := net.Take(b.Root)
	st := spn.NewStorer()
	btk := -1
	var acc [][]float64
	shared := coll(m)
	itk, dtk, wtk := st.NewTicket(), st.NewTicket(), st.NewTicket()
	other := st.NewTicket()
	st.Store(other, b.Root, 0, 42)
	for k := 0; k < evs; k++ {
		e := n.RandEv(m.R, []float64{0, 0.4, 0.8, 1}[(k+m.R.Intn(2))%4])
		keep := net.CopyEv(e)
		v, d, dw := n.Deriv(e)
		m.Note("evidence %v", e)
		spn.StoreInference(b.Root, e, itk, st)
		c := coll(m)
		if m.R.Intn(2) == 0 {
			c = shared // one collection for every call, as the learners do
		}
		give := m.R.Intn(2) == 0
		tk := -1
		if give {
			tk = dtk
		}
		rs, t := learn.DeriveSPN(b.Root, st, tk, itk, c)
		m.Check(rs == b.Root && (tk < 0 || t == tk), "DeriveSPN returned ticket %d for %d", t, tk)
		tk2 := -1
		if give {
			tk2 = wtk
		}
		_, w := learn.DeriveWeights(b.Root, st, tk2, t, itk, c)
		m.Check(tk2 < 0 || w == tk2, "DeriveWeights returned ticket %d for %d", w, tk2)
		_, nb := learn.DeriveWeightsBatch(b.Root, st, btk, t, itk, c)
		m.Check(btk < 0 || nb == btk, "DeriveWeightsBatch returned ticket %d for %d", nb, btk)
		btk = nb
		if acc == nil {
			acc = dw
		} else {
			for i := range acc {
				for j := range acc[i] {
					acc[i][j] = net.LSE([]float64{acc[i][j], dw[i][j]})
				}
			}
		}
		for i, s := range b.Nodes {
			g, ok := st.Single(t, s)
			m.Check(ok && net.Close(g, d[i], 1e-8), "derivative of node %d = %v (%v), want %v", i, g, ok, d[i])
			g, ok = st.Single(itk, s)
			m.Check(ok && net.Near(g, v[i]), "stored value of node %d became %v, want %v", i, g, v[i])
			for j := range dw[i] {
				g, ok = st.Entry(w, s, j)
				m.Check(ok && net.Close(g, dw[i][j], 1e-8), "derivative of weight %d of sum %d = %v (%v), want %v", j, i, g, ok, dw[i][j])
				g, ok = st.Entry(btk, s, j)
				m.Check(ok && net.Close(g, acc[i][j], 1e-8), "batch derivative of weight %d of sum %d = %v (%v) after %d instances, want %v", j, i, g, ok, k+1, acc[i][j])
				m.Count("weight_derivatives", 1)
			}
			m.Count("node_derivatives", 1)
		}
		g, _ := st.Single(other, b.Root)
		m.Check(g == 42, "deriving changed an unrelated ticket")
		m.Check(net.SameEv(e, keep), "evidence was modified")
		if give {
			st.Reset(dtk)
			st.Reset(wtk)
		} else {
			st.Delete(t)
			st.Delete(w)
		}
		st.Reset(itk)
		if m.R.Intn(4) == 0 {
			st.Reset(btk)
			acc = nil
		}
	}
	x := snap.Changed()
	m.Check(x == "", "deriving modified the network: %s", x)
}

// finite compares derivatives with finite differences of the library's own
// inference, an oracle that does not use the reference model.
func finite(m *vk.M) {
	o := net.RandOpt(m.R)
	o.W = net.WFree
	o.ZeroPr = false
	o.Kinds = []net.Kind{net.Multi}
	n := net.Valid(m.R, o)
	b := n.Build()
	e := n.RandEv(m.R, 0.7)
	st := spn.NewStorer()
	_, itk := spn.StoreInference(b.Root, e, -1, st)
	_, t := learn.DeriveSPN(b.Root, st, -1, itk, coll(m))
	_, w := learn.DeriveWeights(b.Root, st, -1, t, itk, coll(m))
	m.Note("net %v evidence %v", n, e)
	m.Sig("%s", n.Shape())
	base := math.Exp(spn.Inference(b.Root, e))
	for i, s := range b.Nodes {
		z, ok := s.(*spn.Sum)
		if !ok {
			continue
		}
		W := z.Weights()
		for j := range W {
			w0 := W[j]
			h := w0 * 1e-4
			W[j] = w0 + h
			up := math.Exp(spn.Inference(b.Root, e))
			W[j] = w0 - h
			dn := math.Exp(spn.Inference(b.Root, e))
			W[j] = w0
			num := (up - dn) / (2 * h)
			g, _ := st.Entry(w, s, j)
			got := math.Exp(g)
			m.Check(math.Abs(got-num) <= 1e-4*math.Max(got, num)+1e-9*base/w0, "weight %d of sum %d: derivative %v, finite difference %v", j, i, got, num)
			m.Count("finite_differences", 1)
		}
	}
}

func main() {
	vk.Main(&vk.Prop{
		ID:          "C07",
		Rule:        "random networks of every family with random evidence; derivatives of every node and weight compared with reverse-mode differentiation of the model, and with finite differences; distinct by graph",
		Assumptions: []string{"tolerance 1e-8 relative in log space"},
		Workloads: []vk.Workload{
			{Name: "any", Quick: 20000, Thorough: 200000, F: func(m *vk.M) { check(m, net.Any(m.R), 4) }},
			{Name: "valid", Quick: 8000, Thorough: 150000, F: func(m *vk.M) { check(m, net.Valid(m.R, net.RandOpt(m.R)), 4) }},
			{Name: "dags", Quick: 14000, Thorough: 150000, F: func(m *vk.M) { check(m, net.Arbitrary(m.R, nil, net.WFree, m.R.Intn(2) == 0), 3) }},
			{Name: "finite", Quick: 1500, Thorough: 20000, F: finite},
			{Name: "wide", Quick: 300, Thorough: 3000, F: func(m *vk.M) {
				if m.Idx%2 == 0 {
					check(m, net.Wide(m.R, 1+m.R.Intn(4), 40+m.R.Intn(260)), 2)
				} else {
					check(m, net.Wide(m.R, 30+m.R.Intn(250), 1+m.R.Intn(3)), 2)
				}
			}},
			{Name: "star", Quick: 8, Thorough: 60, F: func(m *vk.M) {
				if m.Idx%2 == 0 {
					check(m, net.Wide(m.R, 1, 1000+m.R.Intn(2000)), 2)
				} else {
					check(m, net.Wide(m.R, 300+m.R.Intn(900), 2), 2)
				}
			}},
			{Name: "large", Quick: 24, Thorough: 100, F: func(m *vk.M) {
				switch m.Idx % 4 {
				case 0:
					check(m, net.Chain(m.R, 2500), 2)
				case 1:
					check(m, net.Ladder(m.R, 100), 2)
				case 2:
					check(m, net.Wide(m.R, 60, 30), 2)
				default:
					check(m, net.Skip(m.R, 500), 2)
				}
			}},
		},
	})
}

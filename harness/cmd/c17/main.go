// C17: storage tickets are isolated tables with last-write-wins entries.
package main

import (
	"math"
	"sort"

	"verif/vk"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
)

type table map[int]map[int]float64 // node -> position -> value

func same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b)
}

// audit compares everything observable of a ticket with the model.
func audit(m *vk.M, st *spn.Storer, k int, want table, live bool, nodes []spn.SPN, pos []int) {
	t, ok := st.Table(k)
	m.Check(ok == live, "Table(%d) exists=%v, want %v", k, ok, live)
	if live {
		m.Check(len(t) == len(want), "table %d has %d nodes, want %d", k, len(t), len(want))
	}
	first, all := 0, nodes
	if len(nodes) > 12 {
		// Large histories: a random window of nodes and of positions.
		first = m.R.Intn(len(nodes) - 5)
		all = nodes[first : first+5]
	}
	if len(pos) > 12 {
		i := m.R.Intn(len(pos) - 8)
		pos = pos[i : i+8]
	}
	for n, S := range all {
		n += first
		row, have := want[n]
		v, ok := st.Value(k, S)
		m.Check(ok == (live && have), "Value(%d, n%d) exists=%v, want %v", k, n, ok, have)
		m.Check(st.ExistsSPN(k, S) == (live && have), "ExistsSPN(%d, n%d) disagrees with reads", k, n)
		if live {
			m.Check(t.ExistsSPN(S) == have, "table ExistsSPN(n%d) = %v", n, !have)
			tv, tok := t.Value(S)
			m.Check(tok == have && len(tv) == len(row), "table Value(n%d) = %v (%v), want %v", n, tv, tok, row)
		}
		if ok {
			m.Check(len(v) == len(row), "Value(%d, n%d) = %v, want %v", k, n, v, row)
		}
		for _, p := range pos {
			x, xok := row[p]
			xok = xok && live
			g, gok := st.Entry(k, S, p)
			m.Check(gok == xok && (!xok || same(g, x)), "Entry(%d, n%d, %d) = %v (%v), want %v (%v)", k, n, p, g, gok, x, xok)
			m.Check(st.Exists(k, S, p) == xok, "Exists(%d, n%d, %d) = %v", k, n, p, !xok)
			if live {
				g, gok = t.Entry(S, p)
				m.Check(gok == xok && (!xok || same(g, x)), "table Entry(n%d, %d) = %v (%v), want %v (%v)", n, p, g, gok, x, xok)
				m.Check(t.Exists(S, p) == xok, "table Exists(n%d, %d) = %v", n, p, !xok)
			}
			m.Count("entries_compared", 1)
		}
		x, xok := row[0]
		xok = xok && live
		g, gok := st.Single(k, S)
		m.Check(gok == xok && (!xok || same(g, x)), "Single(%d, n%d) = %v (%v), want %v (%v)", k, n, g, gok, x, xok)
		if live {
			g, gok = t.Single(S)
			m.Check(gok == xok && (!xok || same(g, x)), "table Single(n%d) = %v (%v), want %v (%v)", n, g, gok, x, xok)
		}
	}
}

// keys are the sorted keys of a map.
func keys[V any](a map[int]V) []int {
	var ks []int
	for k := range a {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// dense: two tickets, two nodes, very many positions each, overwritten.
func dense(m *vk.M) {
	st := spn.NewStorer()
	T := []int{st.NewTicket(), st.NewTicket()}
	nodes := []spn.SPN{spn.NewSum(), spn.NewIndicator(2, 1)}
	type at struct{ k, n, p int }
	model := map[at]float64{}
	width := 50 + m.R.Intn(4000)
	for s := 0; s < 2*width; s++ {
		a := at{T[m.R.Intn(2)], m.R.Intn(2), m.R.Intn(width)}
		v := m.R.NormFloat64()
		m.Check(st.Store(a.k, nodes[a.n], a.p, v), "Store(%v) failed", a)
		model[a] = v
	}
	cnt := map[[2]int]int{}
	for a, v := range model {
		g, ok := st.Entry(a.k, nodes[a.n], a.p)
		m.Check(ok && g == v, "Entry(%d, n%d, %d) = %v (%v), want %v", a.k, a.n, a.p, g, ok, v)
		cnt[[2]int{a.k, a.n}]++
	}
	for x, c := range cnt {
		row, _ := st.Value(x[0], nodes[x[1]])
		m.Check(len(row) == c, "node has %d entries, want %d", len(row), c)
	}
	st.Reset(T[0])
	for a, v := range model {
		g, ok := st.Entry(a.k, nodes[a.n], a.p)
		m.Check(a.k == T[0] && !ok || a.k != T[0] && ok && g == v, "after a reset of %d: Entry(%d, n%d, %d) = %v (%v)", T[0], a.k, a.n, a.p, g, ok)
	}
	m.Count("dense_entries", len(model))
	m.Sig("%d", width)
}

// many: thousands of tickets alive at once, each with its own entries.
func many(m *vk.M) {
	st := spn.NewStorer()
	nodes := []spn.SPN{spn.NewSum(), spn.NewProduct(), spn.NewIndicator(2, 1)}
	type ent struct {
		n, p int
		v    float64
	}
	model := map[int]ent{}
	var live []int
	total := 1000 + m.R.Intn(9000)
	for i := 0; i < total; i++ {
		k := st.NewTicket()
		_, clash := model[k]
		m.Must(!clash, "NewTicket returned the live ticket %d", k)
		e := ent{m.R.Intn(3), m.R.Intn(3), m.R.NormFloat64()}
		m.Check(st.Store(k, nodes[e.n], e.p, e.v), "storing under the live ticket %d failed", k)
		model[k] = e
		live = append(live, k)
		if m.R.Intn(10) == 0 {
			j := m.R.Intn(len(live))
			k := live[j]
			live[j] = live[len(live)-1]
			live = live[:len(live)-1]
			st.Delete(k)
			delete(model, k)
		}
	}
	for k, e := range model {
		t, ok := st.Table(k)
		m.Check(ok && len(t) == 1, "ticket %d holds %d nodes (%v), want 1", k, len(t), ok)
		g, ok := st.Entry(k, nodes[e.n], e.p)
		m.Check(ok && g == e.v, "Entry(%d, n%d, %d) = %v (%v), want %v", k, e.n, e.p, g, ok, e.v)
	}
	m.Count("tickets_alive_at_once", len(model))
	m.Sig("%d", total)
}

func history(m *vk.M, large bool) {
	if m.Idx%37 == 0 && !large {
		sys.MemConservative = true // the memory-conservative mode must not change behaviour
		defer func() { sys.MemConservative = false }()
	}
	st := spn.NewStorer()
	other := spn.NewStorer() // a second storer must be independent
	otk := other.NewTicket()
	var nodes []spn.SPN
	nn := 2 + m.R.Intn(4)
	if large {
		nn = 20 + m.R.Intn(400)
		if m.R.Intn(2) == 0 { // few nodes, many positions each
			nn = 2 + m.R.Intn(5)
		}
	}
	for i := 0; i < nn; i++ {
		switch i % 4 {
		case 0:
			nodes = append(nodes, spn.NewSum())
		case 1:
			nodes = append(nodes, spn.NewProduct())
		case 2:
			nodes = append(nodes, spn.NewIndicator(1, 0))
		default:
			nodes = append(nodes, spn.NewGaussianParams(1, 0, 1))
		}
	}
	other.Store(otk, nodes[0], 0, 7)
	pos := []int{0, 1, 2, -1, 1000}
	if large {
		for i := 3; i < 300; i++ {
			pos = append(pos, i)
		}
		pos = append(pos, 4095, 4096, 65536, 1<<31, 1<<40)
	}
	model := map[int]table{}
	dead := map[int]bool{}
	val := func() float64 {
		return []float64{0, math.Copysign(0, -1), math.Inf(-1), math.Inf(1), m.R.NormFloat64(), float64(m.R.Intn(5)), 1e300, math.NaN(), math.SmallestNonzeroFloat64}[m.R.Intn(9)]
	}
	steps := 20 + m.R.Intn(60)
	if sys.MemConservative {
		steps = 15
	}
	if large {
		steps = 2000 + m.R.Intn(4000)
	}
	ins := 3
	phase := 0
	for s := 0; s < steps; s++ {
		live := keys(model)
		op := m.R.Intn(20)
		if large {
			// Phases of growth (hundreds of tickets alive), of writing and of decay.
			if s%300 == 0 {
				phase = m.R.Intn(3)
			}
			switch {
			case phase == 0 && m.R.Intn(2) == 0:
				op = 0
			case phase == 1 && m.R.Intn(4) > 0:
				op = 3
			case phase == 2 && m.R.Intn(3) == 0:
				op = 15
			}
		}
		if len(live) == 0 {
			op = 0
		}
		pick := func() int { return live[m.R.Intn(len(live))] }
		switch {
		case op < ins:
			k := st.NewTicket()
			_, clash := model[k]
			m.Must(!clash, "NewTicket returned the live ticket %d", k)
			model[k] = table{}
			delete(dead, k)
			m.Note("new %d", k)
		case op < 12:
			k, n, p, v := pick(), m.R.Intn(len(nodes)), pos[m.R.Intn(len(pos))], val()
			var ok bool
			switch m.R.Intn(4) {
			case 0:
				ok = st.Store(k, nodes[n], p, v)
			case 1:
				p = 0
				ok = st.StoreSingle(k, nodes[n], v)
			case 2:
				t, _ := st.Table(k)
				ok = t.Store(nodes[n], p, v)
			default:
				p = 0
				t, _ := st.Table(k)
				ok = t.StoreSingle(nodes[n], v)
			}
			m.Check(ok, "storing under the live ticket %d failed", k)
			if model[k][n] == nil {
				model[k][n] = map[int]float64{}
			}
			model[k][n][p] = v
			m.Note("store %d n%d %d %v", k, n, p, v)
		case op < 14:
			k := pick()
			r := st.Reset(k)
			m.Check(r == k, "Reset(%d) returned %d", k, r)
			model[k] = table{}
			m.Note("reset %d", k)
		case op < 15:
			var ks []int
			for _, k := range live {
				if m.R.Intn(2) == 0 {
					ks = append(ks, k)
					model[k] = table{}
				}
			}
			st.ResetTickets(ks...)
			m.Note("resettickets %v", ks)
		case op < 17:
			k := pick()
			st.Delete(k)
			delete(model, k)
			dead[k] = true
			m.Note("delete %d", k)
		case op < 18 && m.R.Intn(4) == 0:
			st.Purge()
			for k := range model {
				dead[k] = true
			}
			model = map[int]table{}
			m.Note("purge")
		default:
			// Operations under a ticket that does not exist.
			k := 100000 + m.R.Intn(5)
			for _, d := range keys(dead) {
				if _, l := model[d]; !l {
					k = d
					break
				}
			}
			if _, l := model[k]; !l {
				ok := st.Store(k, nodes[0], 0, 1)
				m.Check(!ok, "storing under the absent ticket %d succeeded", k)
				audit(m, st, k, nil, false, nodes, pos)
			}
		}
		m.Count("operations", 1)
		if (!large && m.R.Intn(3) == 0) || m.R.Intn(200) == 0 || s == steps-1 {
			if large {
				m.Count("tickets_alive_in_large_audits", len(model))
			}
			for _, k := range keys(model) {
				audit(m, st, k, model[k], true, nodes, pos)
			}
			for _, k := range keys(dead) {
				if _, l := model[k]; !l {
					audit(m, st, k, nil, false, nodes, pos)
				}
			}
			g, ok := other.Single(otk, nodes[0])
			m.Check(ok && g == 7, "another storer was affected")
		}
	}
	m.Sig("%d|%d|%d", m.Seed, len(model), steps)
	m.Sample("history of %d operations, %d live tickets at the end", steps, len(model))
}

func main() {
	vk.Main(&vk.Prop{
		ID:          "C17",
		Rule:        "random histories of storage operations against a model, audited in full after random steps; every history is distinct by its seed",
		Assumptions: []string{"resets are applied to live tickets"},
		Workloads: []vk.Workload{
			{Name: "histories", Quick: 12000, Thorough: 100000, F: func(m *vk.M) { history(m, false) }},
			{Name: "dense", Quick: 300, Thorough: 5000, F: dense},
			{Name: "many", Quick: 24, Thorough: 400, F: many},
			{Name: "large", Quick: 120, Thorough: 3000, F: func(m *vk.M) { history(m, true) }},
		},
	})
}

// C04: topological orders and searches visit each reachable node once, in order.
package main

import (
	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/spn"
)

func drain(c common.Collection) []spn.SPN {
	var o []spn.SPN
	for !c.Empty() {
		o = append(o, c.Take().(spn.SPN))
	}
	return o
}

// order checks that seq lists every node once, children first.
func order(m *vk.M, who string, b *net.Built, seq []spn.SPN) {
	pos := map[spn.SPN]int{}
	for i, s := range seq {
		if _, ok := b.Index[s]; !m.Check(ok, "%s: emitted an unknown node at %d", who, i) {
			return
		}
		if j, dup := pos[s]; !m.Check(!dup, "%s: node %d emitted at %d and %d", who, b.Index[s], j, i) {
			return
		}
		pos[s] = i
	}
	if !m.Check(len(seq) == len(b.Nodes), "%s: emitted %d of %d nodes", who, len(seq), len(b.Nodes)) {
		return
	}
	for i, x := range b.Net.N {
		for _, c := range x.Ch {
			if !m.Check(pos[b.Nodes[c]] < pos[b.Nodes[i]], "%s: child %d comes after its parent %d", who, c, i) {
				return
			}
		}
	}
	m.Count("orders_checked", 1)
}

func rev(s []spn.SPN) []spn.SPN {
	o := make([]spn.SPN, len(s))
	for i, x := range s {
		o[len(s)-1-i] = x
	}
	return o
}

func check(m *vk.M, n *net.Net) {
	b := n.Build()
	graph(m, b)
	if m.R.Intn(3) == 0 && b.Edit(m.R, true) {
		// The same nodes with further edges.
		m.Count("edited_networks", 1)
		graph(m, b)
	}
}

func graph(m *vk.M, b *net.Built) {
	n := b.Net
	m.Note("net %v", n)
	m.Sig("%s", n.Shape())
	m.Sample("%v", n)
	sorts := map[string]func(spn.SPN, common.Collection) common.Collection{
		"TopSortTarjan": spn.TopSortTarjan, "TopSortTarjanRec": spn.TopSortTarjanRec,
		"TopSortDFS": spn.TopSortDFS, "PostOrder": spn.PostOrder,
		"TopSortTarjanFunc": func(s spn.SPN, c common.Collection) common.Collection {
			return spn.TopSortTarjanFunc(s, c, func(spn.SPN) bool { return true })
		},
	}
	for name, f := range sorts {
		q := &common.Queue{}
		r := f(b.Root, q)
		m.Check(r == common.Collection(q), "%s: did not return the given queue", name)
		order(m, name+"/queue", b, drain(r))
		s := &common.Stack{}
		order(m, name+"/stack", b, rev(drain(f(b.Root, s))))
		if m.R.Intn(2) == 0 {
			order(m, name+"/nil", b, drain(f(b.Root, nil)))
		}
	}
	// Callback variant: order and halting.
	total := len(n.N)
	stop := 1 + m.R.Intn(total)
	for _, st := range []int{stop, total, total + 5} {
		var seen []spn.SPN
		var c common.Collection = &common.Queue{}
		stack := m.R.Intn(2) == 0
		if stack {
			c = &common.Stack{}
		}
		r := spn.TopSortTarjanFunc(b.Root, c, func(s spn.SPN) bool {
			seen = append(seen, s)
			return len(seen) != st
		})
		got := drain(r)
		if stack {
			got = rev(got)
		}
		want := st
		if want > total {
			want = total
		}
		m.Check(len(seen) == want, "TopSortTarjanFunc: %d callbacks, want %d of %d (stop at %d)", len(seen), want, total, st)
		m.Check(len(got) == len(seen), "TopSortTarjanFunc: %d nodes collected after %d callbacks", len(got), len(seen))
		done := map[spn.SPN]bool{}
		for i, s := range seen {
			if i < len(got) {
				m.Check(got[i] == s, "TopSortTarjanFunc: collected order differs from the callback order at %d", i)
			}
			m.Check(!done[s], "TopSortTarjanFunc: node %d called twice", b.Index[s])
			for _, c := range n.N[b.Index[s]].Ch {
				m.Check(done[b.Nodes[c]], "TopSortTarjanFunc: node %d called before its child %d", b.Index[s], c)
			}
			done[s] = true
		}
	}
	// Searches.
	dist := make([]int, total)
	for i := range dist {
		dist[i] = 1 << 30
	}
	dist[n.Root()] = 0
	for i := n.Root(); i >= 0; i-- {
		for _, c := range n.N[i].Ch {
			if dist[i]+1 < dist[c] {
				dist[c] = dist[i] + 1
			}
		}
	}
	// dist by decreasing index is exact: every parent has a greater index.
	for name, f := range map[string]func(spn.SPN, func(spn.SPN) int){"BreadthFirst": spn.BreadthFirst, "DepthFirst": spn.DepthFirst} {
		for mode := 0; mode < 3; mode++ {
			skip := map[int]bool{}
			if mode >= 1 {
				for i := range n.N {
					if m.R.Intn(4) == 0 {
						skip[i] = true
					}
				}
			}
			reach := map[int]bool{n.Root(): true}
			for i := n.Root(); i >= 0; i-- {
				if reach[i] && !skip[i] {
					for _, c := range n.N[i].Ch {
						reach[c] = true
					}
				}
			}
			stopAt := -1
			if mode == 2 {
				stopAt = 1 + m.R.Intn(len(reach))
			}
			cnt := map[int]int{}
			k, last, after := 0, 0, 0
			stopped := false
			f(b.Root, func(s spn.SPN) int {
				i := b.Index[s]
				cnt[i]++
				k++
				if stopped {
					after++
				}
				if name == "BreadthFirst" && mode == 0 {
					m.Check(dist[i] >= last, "BreadthFirst: node at distance %d after one at %d", dist[i], last)
					last = dist[i]
				}
				if k == stopAt {
					stopped = true
					return 1
				}
				if skip[i] {
					return -1
				}
				return 0
			})
			m.Check(after == 0, "%s: %d nodes visited after the stop", name, after)
			for i, c := range cnt {
				m.Check(c == 1, "%s: node %d visited %d times", name, i, c)
				m.Check(reach[i], "%s: node %d visited through a skipped branch", name, i)
			}
			if mode == 2 {
				m.Check(k == stopAt, "%s: %d visits, stop asked at %d of %d", name, k, stopAt, len(reach))
			} else {
				m.Check(len(cnt) == len(reach), "%s: visited %d of %d reachable nodes (mode %d)", name, len(cnt), len(reach), mode)
			}
			m.Count("searches_checked", 1)
		}
	}
	var ws, wp, wl int
	for _, x := range n.N {
		switch x.K {
		case net.Sum:
			ws++
		case net.Prod:
			wp++
		default:
			wl++
		}
	}
	gs, gp, gl := spn.CountNodes(b.Root)
	m.Check(gs == ws && gp == wp && gl == wl, "CountNodes = %d %d %d, want %d %d %d", gs, gp, gl, ws, wp, wl)
}

func main() {
	vk.Main(&vk.Prop{
		ID:          "C04",
		Rule:        "random DAGs with shared, skip-level and repeated children, chains, ladders and wide nodes; distinct by graph",
		Assumptions: []string{"the order within the constraints is free"},
		Workloads: []vk.Workload{
			{Name: "random", Quick: 12000, Thorough: 200000, F: func(m *vk.M) { check(m, net.Any(m.R)) }},
			{Name: "dags", Quick: 20000, Thorough: 400000, F: func(m *vk.M) { check(m, net.Arbitrary(m.R, nil, net.WNorm, m.R.Intn(2) == 0)) }},
			{Name: "skips", Quick: 5000, Thorough: 100000, F: func(m *vk.M) { check(m, net.Skip(m.R, 3+m.R.Intn(40))) }},
			{Name: "large", Quick: 40, Thorough: 300, F: func(m *vk.M) {
				switch m.Idx % 4 {
				case 0:
					check(m, net.Chain(m.R, 3000+m.R.Intn(20000)))
				case 1:
					check(m, net.Ladder(m.R, 200+m.R.Intn(300)))
				case 2:
					check(m, net.Wide(m.R, 500, 2+m.R.Intn(5)))
				default:
					check(m, net.Skip(m.R, 1500))
				}
			}},
		},
	})
}

// C05: saving and loading a network preserves it exactly.
package main

import (
	"bytes"
	"encoding/gob"
	"math"
	"path/filepath"

	"verif/net"
	"verif/vk"

	gio "github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
)

// wildParams puts floating-point values of every magnitude in the network.
func wildParams(m *vk.M, n *net.Net) {
	f := func() float64 {
		switch m.R.Intn(6) {
		case 0:
			return math.Float64frombits(uint64(m.R.Int63n(1 << 52))) // denormal
		case 1:
			return math.Float64frombits(uint64(m.R.Int63()) % 0x7fe0000000000000)
		case 2:
			return float64(m.R.Intn(10))
		case 3:
			return 1.0 / float64(1+m.R.Intn(1000))
		default:
			return m.R.Float64()
		}
	}
	for i := range n.N {
		x := &n.N[i]
		for j := range x.W {
			x.W[j] = f()
		}
		if x.K == net.Multi && m.R.Intn(2) == 0 {
			for j := range x.Pr {
				x.Pr[j] = f()
			}
		}
		if x.K == net.Gauss {
			// The density is computable for these.
			x.Mu, x.Sig = math.Mod(f(), 1e60), math.Pow(10, 200*m.R.Float64()-100)*f()
			if !(x.Sig > 1e-100 && x.Sig < 1e100) {
				x.Sig = m.R.Float64() + 1e-9
			}
			if m.R.Intn(2) == 0 {
				x.Mu = -x.Mu
			}
		}
	}
}

func check(m *vk.M, n *net.Net, wild bool) {
	b := n.Build()
	network(m, b, wild)
	if m.R.Intn(4) == 0 && b.Edit(m.R, true) {
		// Saved again after a change.
		m.Count("edited_networks", 1)
		network(m, b, true)
	}
}

func network(m *vk.M, b *net.Built, wild bool) {
	n := b.Net
	snap := net.Take(b.Root)
	m.Note("net %v", n)
	m.Sig("%s", n.Shape())
	m.Sample("%v", n)
	// The canonical form (own traversal) of the original.
	orig := net.MustImport(b.Root)
	data := spn.Marshal(b.Root)
	keep := append([]byte(nil), data...)
	d := snap.Changed()
	m.Check(d == "", "saving modified the network: %s", d)
	cmp := func(who string, S spn.SPN) *net.Built {
		l, err := net.Import(S)
		m.Must(err == nil, "%s: malformed network: %v", who, err)
		d := net.Diff(orig.Net, l.Net)
		m.Must(d == "", "%s: loaded network differs: %s", who, d)
		for i := range orig.Nodes {
			m.Check(orig.Nodes[i] != l.Nodes[i], "%s: the loaded network shares node %d with the original", who, i)
			m.Check(orig.Nodes[i].Type() == l.Nodes[i].Type() && orig.Nodes[i].SubType() == l.Nodes[i].SubType(), "%s: node %d changed type", who, i)
		}
		m.Count("round_trips", 1)
		m.Count("nodes_compared", len(l.Nodes))
		return l
	}
	l := cmp("Unmarshal", spn.Unmarshal(data))
	m.Check(bytes.Equal(data, keep), "loading modified the bytes")
	// Values, per node, for the same evidence.
	for k := 0; k < 3; k++ {
		e := n.RandEv(m.R, []float64{0, 0.5, 1}[k])
		st, st2 := spn.NewStorer(), spn.NewStorer()
		_, t1 := spn.StoreInference(b.Root, e, -1, st)
		_, t2 := spn.StoreInference(l.Root, e, -1, st2)
		_, t3, _ := spn.StoreMAP(b.Root, e, -1, st)
		_, t4, s4 := spn.StoreMAP(l.Root, e, -1, st2)
		for i := range orig.Nodes {
			a, _ := st.Single(t1, orig.Nodes[i])
			c, ok := st2.Single(t2, l.Nodes[i])
			m.Check(ok && (a == c || math.IsNaN(a) && math.IsNaN(c)), "node %d: value %v before saving, %v after loading, evidence %v", i, a, c, e)
			a, _ = st.Single(t3, orig.Nodes[i])
			c, ok = st2.Single(t4, l.Nodes[i])
			m.Check(ok && (a == c || math.IsNaN(a) && math.IsNaN(c)), "node %d: MAP value %v before saving, %v after loading, evidence %v", i, a, c, e)
		}
		if !wild && orig.Net.Complete() && orig.Net.Decomposable() {
			r, _ := st2.Single(t4, l.Root)
			if !math.IsInf(r, -1) {
				for _, v := range n.Scope() {
					_, ok := s4[v]
					m.Check(ok, "MAP state of the loaded network leaves x%d unassigned", v)
				}
			}
		}
	}
	// Scope of the loaded network.
	sc := map[int]bool{}
	for _, v := range spn.ComputeScope(l.Root) {
		m.Check(!sc[v], "scope of the loaded network repeats %d", v)
		sc[v] = true
	}
	ws := n.Scopes()[n.Root()]
	m.Check(len(sc) == len(ws), "scope of the loaded network is %v, want %v", net.Keys(sc), net.Keys(ws))
	// Saving what was loaded.
	cmp("second round trip", spn.Unmarshal(spn.Marshal(l.Root)))
	if m.R.Intn(4) == 0 || len(n.N) > 10000 {
		f := filepath.Join(m.Tmp(), "net.spn")
		if m.R.Intn(3) == 0 { // overwrite a longer file
			big := net.Wide(m.R, 60, 3).Build()
			m.Must(gio.SaveSPN(f, big.Root) == nil, "SaveSPN failed")
		}
		m.Must(gio.SaveSPN(f, b.Root) == nil, "SaveSPN failed")
		S, err := gio.LoadSPN(f)
		m.Must(err == nil, "LoadSPN: %v", err)
		cmp("file", S)
		S = gio.ReadFromFile(f)
		m.Must(S != nil, "ReadFromFile returned no network")
		cmp("ReadFromFile", S)
		S, err = gio.LoadSPN(f)
		m.Must(err == nil, "LoadSPN a second time: %v", err)
		cmp("file read before", S)
		_, err = gio.LoadSPN(f + ".missing")
		m.Check(err != nil, "LoadSPN of a missing file gave no error")
	}
	// Several networks saved in a row, loaded later.
	if m.R.Intn(5) == 0 {
		o := net.Any(m.R).Build()
		ob := spn.Marshal(o.Root)
		b1 := spn.Marshal(b.Root)
		oi := net.MustImport(o.Root)
		lo := net.MustImport(spn.Unmarshal(ob))
		m.Check(net.Diff(oi.Net, lo.Net) == "", "another network saved in between is damaged")
		cmp("interleaved", spn.Unmarshal(b1))
	}
}

var names = []string{"", "x", "two words", "α β", "quote\"d", "line\nbreak", " lead", "tab\t", "%d %s", "back\\slash", "`tick`", "\xff\xfe", "a\x80b", "nul\x00in"}

func variables(m *vk.M) {
	v := &learn.Variable{Varid: m.R.Intn(100000), Categories: m.R.Intn(300), Name: names[m.R.Intn(len(names))]}
	if m.R.Intn(3) == 0 {
		var rs []rune
		for i := 0; i < m.R.Intn(12); i++ {
			rs = append(rs, rune(m.R.Intn(0x300)))
		}
		v.Name = string(rs)
	}
	keep := *v
	var buf bytes.Buffer
	sc := map[int]*learn.Variable{v.Varid: v, 7777777: {Varid: 7777777, Categories: 2, Name: "z"}}
	m.Must(gob.NewEncoder(&buf).Encode(sc) == nil, "encoding a scope failed")
	var out map[int]*learn.Variable
	err := gob.NewDecoder(&buf).Decode(&out)
	m.Must(err == nil, "decoding %+v: %v", *v, err)
	m.Check(*v == keep, "encoding modified the variable")
	g := out[v.Varid]
	m.Check(len(out) == 2 && g != nil && *g == keep, "variable %+v decoded as %+v", keep, g)
	m.Sig("%+v", keep)
}

func main() {
	vk.Main(&vk.Prop{
		ID:          "C05",
		Rule:        "random networks of every family, with parameters of every magnitude, saved and loaded in memory and through files; distinct by graph",
		Assumptions: []string{"finite, non-NaN parameters"},
		Workloads: []vk.Workload{
			{Name: "random", Quick: 8000, Thorough: 60000, F: func(m *vk.M) { check(m, net.Any(m.R), false) }},
			{Name: "wild", Quick: 8000, Thorough: 60000, F: func(m *vk.M) { n := net.Any(m.R); wildParams(m, n); check(m, n, true) }},
			{Name: "spread", Quick: 3000, Thorough: 30000, F: func(m *vk.M) { check(m, net.Any(m.R).Spread(m.R), false) }},
			{Name: "large", Quick: 16, Thorough: 80, F: func(m *vk.M) {
				switch m.Idx % 4 {
				case 0:
					check(m, net.Chain(m.R, 3000), false)
				case 1:
					check(m, net.Ladder(m.R, 150), false)
				case 2:
					check(m, net.Wide(m.R, 300, 5), false)
				default:
					check(m, net.Skip(m.R, 500), false)
				}
			}},
			{Name: "huge", Quick: 1, Thorough: 3, F: func(m *vk.M) {
				switch m.Idx % 3 {
				case 0:
					check(m, net.Wide(m.R, 300, 230), false)
				case 1:
					check(m, net.Chain(m.R, 25000), false)
				default:
					check(m, net.Wide(m.R, 2, 3000), false)
				}
			}},
			{Name: "variables", Quick: 3000, Thorough: 30000, F: variables},
		},
	})
}

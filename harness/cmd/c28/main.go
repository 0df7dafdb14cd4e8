// C28: drawings and printouts describe exactly the network.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/spn"
)

// drawing is what a drawn file says: labelled vertices and edges from parents
// to children.
type drawing struct {
	label map[string]string // + * or the variable
	edges map[string][][2]string
	in    map[string]int
}

func newDrawing() *drawing {
	return &drawing{map[string]string{}, map[string][][2]string{}, map[string]int{}}
}

func (d *drawing) canon(v string) string {
	var c []string
	for _, e := range d.edges[v] {
		c = append(c, e[1]+":"+d.canon(e[0]))
	}
	sort.Strings(c)
	return d.label[v] + "(" + strings.Join(c, ",") + ")"
}

func (d *drawing) roots() []string {
	var r []string
	for v := range d.label {
		if d.in[v] == 0 {
			r = append(r, v)
		}
	}
	return r
}

func canon(n *net.Net, i int) string {
	x := n.N[i]
	l := "*"
	if x.K == net.Sum {
		l = "+"
	} else if n.Leaf(i) {
		l = strconv.Itoa(x.Var)
	}
	var c []string
	for j, k := range x.Ch {
		w := ""
		if x.K == net.Sum {
			w = fmt.Sprintf("%.3f", x.W[j])
		}
		c = append(c, w+":"+canon(n, k))
	}
	sort.Strings(c)
	return l + "(" + strings.Join(c, ",") + ")"
}

var (
	dotNode = regexp.MustCompile(`^\s*(\w+)\s*\[label=("\+"|<&times;>|<X<sub>(-?\d+)</sub>>),\s*shape=circle\];?\s*$`)
	dotEdge = regexp.MustCompile(`^\s*(\w+)\s*--\s*(\w+)\s*(\[label="([^"]*)"\])?;?\s*$`)
)

func parseDot(m *vk.M, b []byte) *drawing {
	d := newDrawing()
	L := strings.Split(strings.TrimSpace(string(b)), "\n")
	m.Must(len(L) >= 2 && strings.TrimSpace(L[0]) == "graph {" && strings.TrimSpace(L[len(L)-1]) == "}", "the drawing is not a dot graph: %.200q", b)
	for _, l := range L[1 : len(L)-1] {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if t := dotNode.FindStringSubmatch(l); t != nil {
			_, dup := d.label[t[1]]
			m.Check(!dup, "vertex %s is declared twice", t[1])
			switch {
			case t[3] != "":
				d.label[t[1]] = t[3]
			case t[2] == `"+"`:
				d.label[t[1]] = "+"
			default:
				d.label[t[1]] = "*"
			}
		} else if t := dotEdge.FindStringSubmatch(l); t != nil {
			d.edges[t[1]] = append(d.edges[t[1]], [2]string{t[2], t[4]})
			d.in[t[2]]++
		} else {
			m.Check(false, "unexpected line in the drawing: %q", l)
		}
	}
	for v, E := range d.edges {
		_, ok := d.label[v]
		m.Must(ok, "edge from undeclared vertex %q", v)
		for _, e := range E {
			_, ok := d.label[e[0]]
			m.Must(ok, "edge to undeclared vertex %q", e[0])
		}
	}
	return d
}

func pick(m *vk.M) *net.Net {
	for {
		n := net.Any(m.R)
		switch m.R.Intn(150) {
		case 0:
			n = net.Wide(m.R, 3, 150+m.R.Intn(350))
		case 1:
			return net.Wide(m.R, 1100+m.R.Intn(200), 1+m.R.Intn(2))
		}
		if n.Paths() < 1500 && len(n.N) < 800 {
			return n
		}
	}
}

func compare(m *vk.M, what string, d *drawing, n *net.Net) {
	r := d.roots()
	if !m.Check(len(r) == 1, "%s has %d roots", what, len(r)) {
		return
	}
	g, w := d.canon(r[0]), canon(n, n.Root())
	m.Check(g == w, "%s is %.300s, want %.300s (network %v)", what, g, w, n)
	m.Count("drawn vertices", len(d.label))
}

// before: now and then the file exists already, or the network was drawn and
// its weights changed since.
func before(m *vk.M, b *net.Built, f string, draw func()) *net.Net {
	switch m.R.Intn(6) {
	case 0:
		draw()
		b.Edit(m.R, false)
	case 1:
		os.WriteFile(f, bytes.Repeat([]byte("stale line\n"), 20000), 0o644)
	}
	return b.Net
}

func dot(m *vk.M) {
	n := pick(m)
	b := n.Build()
	f := filepath.Join(m.Tmp(), "x.dot")
	n = before(m, b, f, func() { io.DrawGraph(f, b.Root) })
	sn := net.Take(b.Root)
	io.DrawGraph(f, b.Root)
	t, err := os.ReadFile(f)
	m.Must(err == nil, "no drawing: %v", err)
	d := parseDot(m, t)
	compare(m, "the dot drawing", d, n)
	m.Check(float64(len(d.label)) == occurrences(n), "%d vertices drawn, want %v", len(d.label), occurrences(n))
	m.Check(sn.Changed() == "", "drawing changed the network: %s", sn.Changed())
	m.Sig("%s", n.Shape())
	m.Sample("%v", n)
}

// occurrences is the number of nodes of the unfolded network.
func occurrences(n *net.Net) float64 {
	c := make([]float64, len(n.N))
	for i, x := range n.N {
		c[i] = 1
		for _, k := range x.Ch {
			c[i] += c[k]
		}
	}
	return c[n.Root()]
}

// The graph-tool script is executed with a stand-in for graph_tool that
// records the calls.
const stub = `
import json, sys, types
class PM(dict):
    pass
class Graph:
    def __init__(self, directed=True):
        self.v, self.e, self.vertex_properties, self.edge_properties = [], [], {}, {}
        self.directed = directed
    def add_vertex(self):
        self.v.append(len(self.v)); return self.v[-1]
    def add_edge(self, a, b):
        assert a in self.v and b in self.v
        self.e.append((a, b)); return len(self.e) - 1
    def new_vertex_property(self, t):
        assert t == "string"; return PM()
    def new_edge_property(self, t):
        assert t == "string"; return PM()
out = []
def graph_draw(g, vertex_text=None, edge_text=None, vertex_fill_color=None, output=None, **k):
    out.append({"v": [[vertex_text[v], vertex_fill_color[v]] for v in g.v],
                "e": [[a, b, edge_text.get(i, "")] for i, (a, b) in enumerate(g.e)], "o": output, "d": g.directed})
mod, pkg = types.ModuleType("graph_tool.all"), types.ModuleType("graph_tool")
mod.Graph, mod.graph_draw, pkg.all = Graph, graph_draw, mod
sys.modules["graph_tool"], sys.modules["graph_tool.all"] = pkg, mod
for f in sys.argv[1:]:
    n = len(out)
    try:
        exec(compile(open(f).read(), f, "exec"), {})
        if len(out) != n + 1: raise Exception("drawn %d times" % (len(out) - n))
    except BaseException as e:
        del out[n:]
        out.append({"err": repr(e)})
for o in out:
    if "err" in o: print("E", o["err"].replace("\n", " ")); continue
    print("G", len(o["v"]), len(o["e"]), 1 if o["d"] else 0, o["o"])
    for n, c in o["v"]: print(c, n)
    for a, b, t in o["e"]: print(a, b, t)
`

func script(m *vk.M) {
	dir := m.Tmp()
	var N []*net.Net
	args := []string{"-c", stub}
	for i := 0; i < 12; i++ {
		n := pick(m)
		b := n.Build()
		f := filepath.Join(dir, fmt.Sprintf("g%d.py", i))
		n = before(m, b, f, func() { io.DrawGraphTools(f, b.Root) })
		sn := net.Take(b.Root)
		io.DrawGraphTools(f, b.Root)
		m.Check(sn.Changed() == "", "drawing changed the network: %s", sn.Changed())
		N = append(N, n)
		args = append(args, f)
		m.Sig("%s", n.Shape())
	}
	c := exec.Command("python3", args...)
	c.Dir = dir
	var e bytes.Buffer
	c.Stderr = &e
	o, err := c.Output()
	m.Must(err == nil, "python: %v %s", err, e.String())
	L := strings.Split(string(o), "\n")
	p := 0
	for i, n := range N {
		h := strings.Fields(L[p])
		p++
		if h[0] == "E" {
			m.Check(false, "the script of %v does not run: %s", n, L[p-1])
			continue
		}
		nv, _ := strconv.Atoi(h[1])
		ne, _ := strconv.Atoi(h[2])
		m.Check(h[3] == "1", "the graph is not directed")
		m.Check(h[4] == filepath.Join(dir, fmt.Sprintf("g%d.png", i)), "the image goes to %s", h[4])
		d := newDrawing()
		colour := map[string]string{}
		leaves := 0
		for k := 0; k < nv; k++ {
			t := strings.Fields(L[p+k])
			m.Must(len(t) == 2, "vertex line %q", L[p+k])
			l := t[1]
			kind := l
			if strings.HasPrefix(l, "X_") {
				l = l[2:]
				kind = "leaf"
				leaves++
			}
			d.label[strconv.Itoa(k)] = l
			if x, ok := colour[kind]; ok {
				m.Check(x == t[0], "vertices of kind %s have colours %s and %s", kind, x, t[0])
			}
			colour[kind] = t[0]
		}
		p += nv
		for k := 0; k < ne; k++ {
			t := strings.Fields(L[p+k] + " ")
			m.Must(len(t) >= 2, "edge line %q", L[p+k])
			w := ""
			if len(t) > 2 {
				w = t[2]
			}
			d.edges[t[0]] = append(d.edges[t[0]], [2]string{t[1], w})
			d.in[t[1]]++
		}
		p += ne
		compare(m, "the graph-tool drawing", d, n)
		m.Check(leaves == len(n.Scope()), "%d leaf vertices for %d variables", leaves, len(n.Scope()))
		m.Count("scripts executed", 1)
	}
}

func printed(m *vk.M) {
	n := pick(m)
	if m.R.Intn(4) == 0 { // sharing without limit: nothing is unfolded
		n = net.Any(m.R)
	}
	b := n.Build()
	f := filepath.Join(m.Tmp(), "x.txt")
	if m.R.Intn(4) == 0 { // printed before, then changed
		spn.PrintSPN(b.Root, f)
		b.Edit(m.R, true)
		n = b.Net
	}
	sn := net.Take(b.Root)
	spn.PrintSPN(b.Root, f)
	t, err := os.ReadFile(f)
	m.Must(err == nil, "no printout: %v", err)
	m.Check(sn.Changed() == "", "printing changed the network: %s", sn.Changed())
	type block struct {
		name string
		body [][]string
	}
	var B []*block
	var cur *block
	at := map[string]*block{}
	for _, l := range strings.Split(strings.TrimRight(string(t), "\n"), "\n") {
		fl := strings.Fields(l)
		switch {
		case cur == nil:
			m.Must(len(fl) == 2 && fl[1] == "[", "unexpected line %q", l)
			cur = &block{name: fl[0]}
		case len(fl) == 1 && fl[0] == "]":
			m.Must(at[cur.name] == nil, "node %s is printed twice", cur.name)
			at[cur.name] = cur
			B = append(B, cur)
			cur = nil
		default:
			m.Must(len(fl) > 0 && len(fl) <= 2, "unexpected line %q", l)
			cur.body = append(cur.body, fl)
		}
	}
	m.Must(cur == nil, "the last node is not closed")
	m.Check(len(B) == len(n.N), "%d nodes printed, want %d", len(B), len(n.N))
	// Follow the network and the printout together from the root.
	of := map[int]string{n.Root(): B[0].name}
	back := map[string]int{B[0].name: n.Root()}
	todo := []int{n.Root()}
	for len(todo) > 0 {
		i := todo[0]
		todo = todo[1:]
		x := n.N[i]
		bl := at[of[i]]
		m.Must(bl != nil, "node %s is not printed", of[i])
		kind := map[bool]string{true: "L"}[n.Leaf(i)]
		if x.K == net.Sum {
			kind = "S"
		} else if x.K == net.Prod {
			kind = "P"
		}
		m.Check(bl.name[:1] == kind, "node %s should be a %s", bl.name, kind)
		if kind == "L" {
			m.Must(len(bl.body) == 1 && len(bl.body[0]) == 2, "leaf %s has lines %v", bl.name, bl.body)
			mu, s := x.Mu, x.Sig
			if x.K == net.Ind {
				mu, s = float64(x.Val), 0
			} else if x.K == net.Multi {
				mu, s = 0, 0
				for v, p := range x.Pr {
					mu += float64(v) * p
				}
				for v, p := range x.Pr {
					s += p * (float64(v) - mu) * (float64(v) - mu)
				}
				s = math.Sqrt(s)
			}
			for k, w := range []float64{mu, s} {
				g, err := strconv.ParseFloat(bl.body[0][k], 64)
				m.Check(err == nil && math.Abs(g-w) < 0.51e-5+1e-12*math.Abs(w), "leaf %s: printed %q, want %v", bl.name, bl.body[0][k], w)
			}
			m.Count("leaves printed", 1)
			continue
		}
		m.Must(len(bl.body) == len(x.Ch), "node %s has %d children printed, want %d", bl.name, len(bl.body), len(x.Ch))
		for j, c := range x.Ch {
			fl := bl.body[j]
			if x.K == net.Sum {
				m.Must(len(fl) == 2, "child line %v of a sum", fl)
				g, err := strconv.ParseFloat(fl[1], 64)
				m.Check(err == nil && math.Abs(g-x.W[j]) < 0.51e-5+1e-12*math.Abs(x.W[j]), "weight printed %q, want %v", fl[1], x.W[j])
			} else {
				m.Must(len(fl) == 1, "child line %v of a product", fl)
			}
			if p, ok := of[c]; ok {
				m.Check(p == fl[0], "one node is printed as %s and %s", p, fl[0])
				continue
			}
			q, ok := back[fl[0]]
			m.Must(!ok, "nodes %d and %d are both printed as %s", q, c, fl[0])
			of[c], back[fl[0]] = fl[0], c
			todo = append(todo, c)
		}
		m.Count("inner nodes printed", 1)
	}
	m.Sig("%s", n.Shape())
	m.Sample("%v", n)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C28",
		Rule: "random networks of every shape (trees, shared and skip-level DAGs, chains, single leaves, all leaf kinds) drawn and printed; the dot text and the printout are parsed back, the graph-tool script is executed against a recording stand-in, and each is compared with the network; distinct by network shape",
		Assumptions: []string{
			"weights are non-negative",
			"drawings are made of networks whose unfolding has fewer than 1500 leaf paths",
		},
		Workloads: []vk.Workload{
			{Name: "dot", Quick: 8000, Thorough: 60000, F: dot},
			{Name: "script", Quick: 200, Thorough: 2000, F: script},
			{Name: "printed", Quick: 8000, Thorough: 60000, F: printed},
		},
	})
}

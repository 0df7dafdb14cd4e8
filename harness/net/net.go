// Package net holds an abstract model of sum-product networks that shares no
// code with the library: generators, reference evaluators (value, max-product,
// derivatives), and the translation to and from the library's node graphs.
package net

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/RenatoGeh/gospn/spn"
)

// Kind of a node.
type Kind int

// Node kinds.
const (
	Sum Kind = iota
	Prod
	Multi
	Gauss
	Ind
)

// Node of the model. Children have smaller indices.
type Node struct {
	K       Kind
	Ch      []int
	W       []float64
	Var     int
	Pr      []float64
	Mu, Sig float64
	Val     int
}

// Net is a model network: nodes in topological order, root last.
type Net struct {
	N []Node
}

// Root index.
func (n *Net) Root() int { return len(n.N) - 1 }

func (n *Net) add(x Node) int {
	n.N = append(n.N, x)
	return len(n.N) - 1
}

// Leaf says whether node i is a leaf.
func (n *Net) Leaf(i int) bool { return n.N[i].K >= Multi }

func (n *Net) String() string {
	var b strings.Builder
	for i, x := range n.N {
		switch x.K {
		case Sum:
			fmt.Fprintf(&b, "%d=S%v%.4g ", i, x.Ch, x.W)
		case Prod:
			fmt.Fprintf(&b, "%d=P%v ", i, x.Ch)
		case Multi:
			fmt.Fprintf(&b, "%d=M(x%d)%.4g ", i, x.Var, x.Pr)
		case Gauss:
			fmt.Fprintf(&b, "%d=G(x%d;%.4g,%.4g) ", i, x.Var, x.Mu, x.Sig)
		case Ind:
			fmt.Fprintf(&b, "%d=I(x%d==%d) ", i, x.Var, x.Val)
		}
		if b.Len() > 2500 {
			fmt.Fprintf(&b, "... (%d nodes)", len(n.N))
			break
		}
	}
	return b.String()
}

// Shape is a structural signature without parameters.
func (n *Net) Shape() string {
	var b strings.Builder
	for i, x := range n.N {
		if i > 300 {
			fmt.Fprintf(&b, "+%d", len(n.N))
			break
		}
		if x.K >= Multi {
			fmt.Fprintf(&b, "%d.%d;", x.K, x.Var)
		} else {
			fmt.Fprintf(&b, "%d%v;", x.K, x.Ch)
		}
	}
	return b.String()
}

// Prune keeps the nodes reachable from the root.
func (n *Net) Prune() *Net {
	k := make([]bool, len(n.N))
	k[n.Root()] = true
	for i := n.Root(); i >= 0; i-- {
		if k[i] {
			for _, c := range n.N[i].Ch {
				k[c] = true
			}
		}
	}
	m := &Net{}
	idx := make([]int, len(n.N))
	for i, x := range n.N {
		if !k[i] {
			continue
		}
		ch := make([]int, len(x.Ch))
		for j, c := range x.Ch {
			ch[j] = idx[c]
		}
		if len(x.Ch) > 0 {
			x.Ch = ch
		}
		idx[i] = m.add(x)
	}
	return m
}

// Clone deep-copies the model.
func (n *Net) Clone() *Net {
	m := &Net{N: make([]Node, len(n.N))}
	for i, x := range n.N {
		y := x
		y.Ch = append([]int(nil), x.Ch...)
		y.W = append([]float64(nil), x.W...)
		y.Pr = append([]float64(nil), x.Pr...)
		m.N[i] = y
	}
	return m
}

// Scopes returns the exact scope of every node.
func (n *Net) Scopes() []map[int]bool {
	s := make([]map[int]bool, len(n.N))
	for i, x := range n.N {
		s[i] = map[int]bool{}
		if x.K >= Multi {
			s[i][x.Var] = true
		}
		for _, c := range x.Ch {
			for v := range s[c] {
				s[i][v] = true
			}
		}
	}
	return s
}

// Scope of the root, sorted.
func (n *Net) Scope() []int { return Keys(n.Scopes()[n.Root()]) }

// Keys of a set, sorted.
func Keys(m map[int]bool) []int {
	var o []int
	for k := range m {
		o = append(o, k)
	}
	sort.Ints(o)
	return o
}

func sameSet(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// Complete says whether every sum has children of identical scope.
func (n *Net) Complete() bool {
	s := n.Scopes()
	for _, x := range n.N {
		if x.K == Sum {
			for _, c := range x.Ch {
				if !sameSet(s[c], s[x.Ch[0]]) {
					return false
				}
			}
		}
	}
	return true
}

// Decomposable says whether every product has children of pairwise disjoint scope.
func (n *Net) Decomposable() bool {
	s := n.Scopes()
	for _, x := range n.N {
		if x.K == Prod {
			t := 0
			u := map[int]bool{}
			for _, c := range x.Ch {
				t += len(s[c])
				for v := range s[c] {
					u[v] = true
				}
			}
			if t != len(u) {
				return false
			}
		}
	}
	return true
}

// Height is the length of the longest root-to-leaf path.
func (n *Net) Height() int {
	h := make([]int, len(n.N))
	for i, x := range n.N {
		for _, c := range x.Ch {
			if h[c]+1 > h[i] {
				h[i] = h[c] + 1
			}
		}
	}
	return h[n.Root()]
}

// Paths is the number of root-to-node paths (cost of unmemoised recursion), capped.
func (n *Net) Paths() float64 {
	p := make([]float64, len(n.N))
	p[n.Root()] = 1
	t := 0.0
	for i := n.Root(); i >= 0; i-- {
		t += p[i]
		for _, c := range n.N[i].Ch {
			p[c] += p[i]
		}
		if t > 1e15 {
			return t
		}
	}
	return t
}

// Cats gives, per variable, one more than the greatest legal discrete value
// (0 when only Gaussian leaves mention it).
func (n *Net) Cats() map[int]int {
	c := map[int]int{}
	multi := map[int]bool{}
	for _, x := range n.N {
		switch x.K {
		case Multi:
			multi[x.Var] = true
			if _, ok := c[x.Var]; !ok || c[x.Var] == 0 || len(x.Pr) < c[x.Var] {
				c[x.Var] = len(x.Pr)
			}
		case Gauss:
			if _, ok := c[x.Var]; !ok {
				c[x.Var] = 0
			}
		}
	}
	for _, x := range n.N {
		if x.K == Ind {
			if !multi[x.Var] {
				c[x.Var] = max(c[x.Var], 4, x.Val+1)
			}
		}
	}
	return c
}

// LSE is the reference log-sum-exp.
func LSE(a []float64) float64 {
	m := math.Inf(-1)
	for _, v := range a {
		if v > m {
			m = v
		}
	}
	if math.IsInf(m, 0) {
		return m
	}
	// Kahan summation.
	s, c := 0.0, 0.0
	for _, v := range a {
		y := math.Exp(v-m) - c
		t := s + y
		c = (t - s) - y
		s = t
	}
	return m + math.Log(s)
}

const logSqrt2Pi = 0.91893853320467274178032973640562

func (x *Node) leafVal(e map[int]int, max bool) float64 {
	v, ok := e[x.Var]
	switch x.K {
	case Multi:
		if ok {
			if v < 0 || v >= len(x.Pr) {
				return math.Inf(-1) // only asked by the monitors themselves
			}
			return math.Log(x.Pr[v])
		}
		if !max {
			return 0
		}
		m := x.Pr[0]
		for _, p := range x.Pr {
			if p > m {
				m = p
			}
		}
		return math.Log(m)
	case Gauss:
		if x.Sig == 0 {
			if !ok || v == int(x.Mu) {
				return 0
			}
			return math.Inf(-1)
		}
		if ok {
			d := (float64(v) - x.Mu) / x.Sig
			return -0.5*d*d - math.Log(x.Sig) - logSqrt2Pi
		}
		if !max {
			return 0
		}
		return -math.Log(x.Sig) - logSqrt2Pi
	case Ind:
		if !ok || v == x.Val {
			return 0
		}
		return math.Inf(-1)
	}
	panic("not a leaf")
}

// Eval computes the log value of every node.
func (n *Net) Eval(e map[int]int) []float64 { return n.eval(e, false) }

// MaxEval computes the log max-product value of every node.
func (n *Net) MaxEval(e map[int]int) []float64 { return n.eval(e, true) }

func (n *Net) eval(e map[int]int, max bool) []float64 {
	v := make([]float64, len(n.N))
	for i := range n.N {
		x := &n.N[i]
		switch x.K {
		case Sum:
			t := make([]float64, len(x.Ch))
			for j, c := range x.Ch {
				t[j] = math.Log(x.W[j]) + v[c]
			}
			if max {
				m := math.Inf(-1)
				for _, u := range t {
					if u > m {
						m = u
					}
				}
				v[i] = m
			} else {
				v[i] = LSE(t)
			}
		case Prod:
			s, zero := 0.0, false
			for _, c := range x.Ch {
				if math.IsInf(v[c], -1) {
					zero = true
				}
				s += v[c]
			}
			if zero {
				s = math.Inf(-1)
			}
			v[i] = s
		default:
			v[i] = x.leafVal(e, max)
		}
	}
	return v
}

// Deriv computes the log partial derivatives of the root with respect to each
// node and each sum edge weight.
func (n *Net) Deriv(e map[int]int) (v, d []float64, dw [][]float64) {
	v = n.Eval(e)
	parts := make([][]float64, len(n.N))
	d = make([]float64, len(n.N))
	dw = make([][]float64, len(n.N))
	for i := n.Root(); i >= 0; i-- {
		if i == n.Root() {
			d[i] = 0
		} else {
			d[i] = LSE(parts[i])
		}
		x := &n.N[i]
		switch x.K {
		case Sum:
			dw[i] = make([]float64, len(x.Ch))
			for j, c := range x.Ch {
				parts[c] = append(parts[c], d[i]+math.Log(x.W[j]))
				dw[i][j] = addLog(d[i], v[c])
			}
		case Prod:
			// prefix/suffix products avoid division by zero.
			k := len(x.Ch)
			pre := make([]float64, k+1)
			for j, c := range x.Ch {
				pre[j+1] = addLog(pre[j], v[c])
			}
			suf := 0.0
			for j := k - 1; j >= 0; j-- {
				parts[x.Ch[j]] = append(parts[x.Ch[j]], addLog(d[i], addLog(pre[j], suf)))
				suf = addLog(suf, v[x.Ch[j]])
			}
		}
	}
	return
}

func addLog(a, b float64) float64 {
	if math.IsInf(a, -1) || math.IsInf(b, -1) {
		return math.Inf(-1)
	}
	return a + b
}

// Close compares log values with relative tolerance tol.
func Close(a, b, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	d := math.Abs(a - b)
	return d <= tol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// Near is Close with the default tolerance of the monitors.
func Near(a, b float64) bool { return Close(a, b, 1e-9) }

// Built is a library network together with its model.
type Built struct {
	Net   *Net
	Root  spn.SPN
	Nodes []spn.SPN
	Index map[spn.SPN]int
}

// Build makes the library network of the model.
func (n *Net) Build() *Built {
	b := &Built{Net: n, Nodes: make([]spn.SPN, len(n.N)), Index: map[spn.SPN]int{}}
	for i, x := range n.N {
		var s spn.SPN
		switch x.K {
		case Sum:
			z := spn.NewSum()
			for j, c := range x.Ch {
				if i%2 == 0 {
					z.AddChildW(b.Nodes[c], x.W[j])
				} else {
					z.AddWeight(x.W[j])
				}
			}
			if i%2 == 1 {
				for _, c := range x.Ch {
					z.AddChild(b.Nodes[c])
				}
			}
			s = z
		case Prod:
			z := spn.NewProduct()
			for _, c := range x.Ch {
				z.AddChild(b.Nodes[c])
			}
			s = z
		case Multi:
			s = spn.NewMultinomial(x.Var, append([]float64(nil), x.Pr...))
		case Gauss:
			s = spn.NewGaussianParams(x.Var, x.Mu, x.Sig)
		case Ind:
			s = spn.NewIndicator(x.Var, x.Val)
		}
		b.Nodes[i] = s
		b.Index[s] = i
	}
	b.Root = b.Nodes[n.Root()]
	return b
}

// Import reads a library network into the model by its own traversal. An error
// tells about nodes that cannot be part of a network.
func Import(S spn.SPN) (*Built, error) {
	b := &Built{Net: &Net{}, Root: S, Index: map[spn.SPN]int{}}
	if S == nil {
		return b, fmt.Errorf("nil network")
	}
	type fr struct {
		s spn.SPN
		k int
	}
	state := map[spn.SPN]int{S: 1}
	st := []fr{{S, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		ch := f.s.Ch()
		if f.k < len(ch) {
			c := ch[f.k]
			f.k++
			if c == nil {
				return b, fmt.Errorf("nil child")
			}
			switch state[c] {
			case 0:
				state[c] = 1
				st = append(st, fr{c, 0})
			case 1:
				return b, fmt.Errorf("cycle in the network")
			}
			continue
		}
		s := f.s
		st = st[:len(st)-1]
		state[s] = 2
		x := Node{}
		for _, c := range ch {
			x.Ch = append(x.Ch, b.Index[c])
		}
		switch z := s.(type) {
		case *spn.Sum:
			x.K = Sum
			x.W = append(x.W, z.Weights()...)
			if len(x.W) != len(x.Ch) {
				return b, fmt.Errorf("sum with %d children and %d weights", len(x.Ch), len(x.W))
			}
			if len(x.Ch) == 0 {
				return b, fmt.Errorf("sum without children")
			}
		case *spn.Product:
			x.K = Prod
			if len(x.Ch) == 0 {
				return b, fmt.Errorf("product without children")
			}
		case *spn.Multinomial:
			x.K = Multi
			x.Pr = append(x.Pr, z.Pr()...)
			if len(z.Sc()) != 1 {
				return b, fmt.Errorf("leaf with scope %v", z.Sc())
			}
			x.Var = z.Sc()[0]
		case *spn.Gaussian:
			x.K = Gauss
			x.Mu, x.Sig = z.Params()
			if len(z.Sc()) != 1 {
				return b, fmt.Errorf("leaf with scope %v", z.Sc())
			}
			x.Var = z.Sc()[0]
		case *spn.Indicator:
			x.K = Ind
			if len(z.Sc()) != 1 {
				return b, fmt.Errorf("leaf with scope %v", z.Sc())
			}
			x.Var = z.Sc()[0]
			x.Val = -1
			for v := 0; v < 64; v++ {
				if z.Value(spn.VarSet{x.Var: v}) == 0 {
					x.Val = v
					break
				}
			}
		default:
			return b, fmt.Errorf("unknown node type %T", s)
		}
		if x.K >= Multi && len(ch) > 0 {
			return b, fmt.Errorf("leaf with children")
		}
		b.Index[s] = b.Net.add(x)
		b.Nodes = append(b.Nodes, s)
	}
	return b, nil
}

// MustImport panics on malformed networks.
func MustImport(S spn.SPN) *Built {
	b, err := Import(S)
	if err != nil {
		panic(err)
	}
	return b
}

// Diff describes the first exact difference between two models, or "".
func Diff(a, b *Net) string {
	if len(a.N) != len(b.N) {
		return fmt.Sprintf("%d nodes vs %d nodes", len(a.N), len(b.N))
	}
	for i := range a.N {
		x, y := &a.N[i], &b.N[i]
		if x.K != y.K {
			return fmt.Sprintf("node %d: kind %d vs %d", i, x.K, y.K)
		}
		if !intsEq(x.Ch, y.Ch) {
			return fmt.Sprintf("node %d: children %v vs %v", i, x.Ch, y.Ch)
		}
		if !floatsEq(x.W, y.W) {
			return fmt.Sprintf("node %d: weights %v vs %v", i, x.W, y.W)
		}
		if x.Var != y.Var {
			return fmt.Sprintf("node %d: variable %d vs %d", i, x.Var, y.Var)
		}
		if !floatsEq(x.Pr, y.Pr) {
			return fmt.Sprintf("node %d: distribution %v vs %v", i, x.Pr, y.Pr)
		}
		if x.Mu != y.Mu || x.Sig != y.Sig {
			return fmt.Sprintf("node %d: gaussian (%v,%v) vs (%v,%v)", i, x.Mu, x.Sig, y.Mu, y.Sig)
		}
		if x.Val != y.Val {
			return fmt.Sprintf("node %d: indicator value %d vs %d", i, x.Val, y.Val)
		}
	}
	return ""
}

func intsEq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func floatsEq(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// Snap is a snapshot used to tell whether a network was modified.
type Snap struct {
	b *Built
}

// Take a snapshot.
func Take(S spn.SPN) *Snap { b, _ := Import(S); return &Snap{b} }

// Changed tells how the network differs from the snapshot, or "".
func (s *Snap) Changed() string {
	b, err := Import(s.b.Root)
	if err != nil {
		return err.Error()
	}
	if d := Diff(s.b.Net, b.Net); d != "" {
		return d
	}
	for i := range b.Nodes {
		if b.Nodes[i] != s.b.Nodes[i] {
			return fmt.Sprintf("node %d was replaced", i)
		}
	}
	return ""
}

// CopyEv copies evidence.
func CopyEv(e map[int]int) map[int]int {
	o := make(map[int]int, len(e))
	for k, v := range e {
		o[k] = v
	}
	return o
}

// SameEv compares assignments.
func SameEv(a, b map[int]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || w != v {
			return false
		}
	}
	return true
}

// Normalized says whether all sums have non-negative weights summing to one.
func (n *Net) Normalized(tol float64) (bool, string) {
	for i, x := range n.N {
		if x.K != Sum {
			continue
		}
		s := 0.0
		for _, w := range x.W {
			if !(w >= 0) {
				return false, fmt.Sprintf("sum %d has weights %v", i, x.W)
			}
			s += w
		}
		if !(math.Abs(s-1) <= tol) {
			return false, fmt.Sprintf("sum %d has weights %v of total %v", i, x.W, s)
		}
	}
	return true, ""
}

// RandEv draws evidence over the network's variables, each observed with
// probability p; sometimes over foreign variables too.
func (n *Net) RandEv(r *rand.Rand, p float64) map[int]int {
	e := map[int]int{}
	c := n.Cats()
	for _, v := range n.Scope() {
		if r.Float64() < p {
			if u, ok := n.big(r, v); c[v] > 256 && ok {
				e[v] = u
			} else {
				e[v] = DrawVal(r, c[v])
			}
		}
	}
	if r.Intn(6) == 0 {
		f := r.Intn(2000) + 5000
		if _, ok := c[f]; !ok {
			e[f] = r.Intn(5)
		}
	}
	return e
}

// DrawVal draws a value of a variable with k categories (k=0: Gaussian only).
func DrawVal(r *rand.Rand, k int) int {
	if k == 0 {
		return r.Intn(25) - 7
	}
	return r.Intn(k)
}

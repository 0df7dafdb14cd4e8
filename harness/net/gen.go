package net

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
)

// WMode selects how sum weights are drawn.
type WMode int

// Weight modes.
const (
	WNorm   WMode = iota // normalised, positive
	WZero                // normalised, some zero
	WFree                // unnormalised positive
	WWild                // tiny, huge and zero weights
	WDirich              // normalised and very skewed
)

// Opt of the valid-network generator.
type Opt struct {
	Vars     int
	Kinds    []Kind // leaf kinds
	W        WMode
	Share    float64
	MaxCats  int
	MaxDepth int
	Sparse   bool // sparse variable ids
	IntMu    bool // Gaussian means are integers, deviations not zero
	Ties     bool // allow equal probabilities
	ZeroPr   bool // allow zero leaf probabilities
	MaxNodes int
	Cats     map[int]int // categories of the variables, where they are given
}

// Weights draws k weights.
func Weights(r *rand.Rand, k int, m WMode) []float64 {
	w := make([]float64, k)
	if m == WWild && r.Intn(8) == 0 { // all close to the least normal number
		for i := range w {
			w[i] = (1 + r.Float64()) * 1e-306
		}
		return w
	}
	for i := range w {
		switch m {
		case WFree:
			w[i] = 0.05 + 3*r.Float64()
		case WWild:
			switch r.Intn(5) {
			case 0:
				w[i] = 0
			case 1:
				w[i] = math.Pow(10, -300*r.Float64())
			case 2:
				w[i] = math.Pow(10, 300*r.Float64())
			default:
				w[i] = r.Float64()
			}
		case WDirich:
			w[i] = math.Pow(r.Float64(), 12) + 1e-9
		default:
			w[i] = 0.02 + r.Float64()
		}
	}
	if m == WZero && k > 1 && r.Intn(2) == 0 {
		w[r.Intn(k)] = 0
	}
	if m == WNorm || m == WZero || m == WDirich {
		s := 0.0
		for _, v := range w {
			s += v
		}
		for i := range w {
			w[i] /= s
		}
	}
	return w
}

// Dist draws a distribution over k categories.
func Dist(r *rand.Rand, k int, ties, zeros bool) []float64 {
	p := make([]float64, k)
	s := 0.0
	for i := range p {
		if ties && r.Intn(3) > 0 {
			p[i] = float64(1 + r.Intn(3))
		} else {
			p[i] = 0.01 + r.Float64()
		}
		if zeros && r.Intn(4) == 0 {
			p[i] = 0
		}
		s += p[i]
	}
	if s == 0 {
		p[r.Intn(k)] = 1
		s = 1
	}
	for i := range p {
		p[i] /= s
	}
	return p
}

type gen struct {
	n    *Net
	r    *rand.Rand
	o    Opt
	cats map[int]int
	memo map[string][]int
}

// VarIDs draws k distinct ids.
func VarIDs(r *rand.Rand, k int, sparse bool) []int {
	if !sparse {
		o := make([]int, k)
		for i := range o {
			o[i] = i
		}
		return o
	}
	m := map[int]bool{}
	for len(m) < k {
		m[r.Intn(4*k+10)] = true
	}
	return Keys(m)
}

// Valid draws a complete and decomposable network.
func Valid(r *rand.Rand, o Opt) *Net {
	if len(o.Kinds) == 0 {
		o.Kinds = []Kind{Multi}
	}
	if o.MaxCats < 2 {
		o.MaxCats = 2
	}
	if o.MaxDepth == 0 {
		o.MaxDepth = 6
	}
	if o.MaxNodes == 0 {
		o.MaxNodes = 400
	}
	g := &gen{n: &Net{}, r: r, o: o, cats: map[int]int{}, memo: map[string][]int{}}
	vars := VarIDs(r, o.Vars, o.Sparse)
	for _, v := range vars {
		g.cats[v] = 2 + r.Intn(o.MaxCats-1)
		if k, ok := o.Cats[v]; ok {
			g.cats[v] = k
		}
	}
	root := g.node(vars, o.MaxDepth, r.Intn(2) == 0, true)
	// The root must be last.
	n := g.n
	if root != n.Root() {
		n.N = n.N[:root+1]
	}
	return n.Prune()
}

func key(s []int) string {
	t := append([]int(nil), s...)
	sort.Ints(t)
	return fmt.Sprint(t)
}

func (g *gen) node(sc []int, depth int, sum, top bool) int {
	k := key(sc)
	if !top && len(g.memo[k]) > 0 && (g.r.Float64() < g.o.Share || len(g.n.N) > g.o.MaxNodes) {
		m := g.memo[k]
		return m[g.r.Intn(len(m))]
	}
	var id int
	switch {
	case len(sc) == 1 && (depth <= 0 || (!top && g.r.Intn(3) > 0) || (top && g.r.Intn(4) == 0)):
		id = g.leaf(sc[0])
	case len(sc) > 1 && (depth <= 0 || !sum || len(g.n.N) > g.o.MaxNodes):
		id = g.prod(sc, depth)
	default:
		id = g.sum(sc, depth)
	}
	g.memo[k] = append(g.memo[k], id)
	return id
}

func (g *gen) leaf(v int) int {
	k := g.o.Kinds[g.r.Intn(len(g.o.Kinds))]
	x := Node{K: k, Var: v}
	switch k {
	case Multi:
		x.Pr = Dist(g.r, g.cats[v], g.o.Ties, g.o.ZeroPr)
	case Gauss:
		x.Mu = g.r.NormFloat64()*4 + 3
		x.Sig = math.Exp(g.r.NormFloat64())
		if g.o.IntMu {
			x.Mu = float64(g.r.Intn(12) - 3)
		} else if g.r.Intn(10) == 0 {
			x.Sig = 0
			x.Mu = float64(g.r.Intn(12) - 3)
		}
		if x.Sig > 0 && g.r.Intn(12) == 0 { // narrow or wide
			x.Sig *= math.Pow(10, 8*g.r.Float64()-5)
			if g.r.Intn(2) == 0 {
				x.Mu = math.Round(x.Mu)
			}
		}
	case Ind:
		x.Val = g.r.Intn(g.cats[v])
	}
	return g.n.add(x)
}

func (g *gen) prod(sc []int, depth int) int {
	n := len(sc)
	parts := 2
	switch {
	case g.r.Intn(12) == 0:
		parts = 1
	case n > 2 && g.r.Intn(2) == 0:
		parts = 2 + g.r.Intn(n-1)
	}
	if depth <= 0 {
		parts = n
	}
	if parts > n {
		parts = n
	}
	p := g.r.Perm(n)
	blocks := make([][]int, parts)
	for i, j := range p {
		b := i
		if i >= parts {
			b = g.r.Intn(parts)
		}
		blocks[b] = append(blocks[b], sc[j])
	}
	x := Node{K: Prod}
	for _, b := range blocks {
		sort.Ints(b)
		x.Ch = append(x.Ch, g.node(b, depth-1, g.r.Intn(4) > 0, false))
	}
	return g.n.add(x)
}

func (g *gen) sum(sc []int, depth int) int {
	k := 1 + g.r.Intn(4)
	if g.r.Intn(8) == 0 {
		k = 1
	}
	x := Node{K: Sum}
	for i := 0; i < k; i++ {
		c := -1
		if m := g.memo[key(sc)]; len(m) > 0 && g.r.Float64() < g.o.Share {
			c = m[g.r.Intn(len(m))]
		} else {
			c = g.node(sc, depth-1, g.r.Intn(4) == 0, false)
		}
		x.Ch = append(x.Ch, c)
	}
	x.W = Weights(g.r, k, g.o.W)
	return g.n.add(x)
}

// RandOpt draws generator options.
func RandOpt(r *rand.Rand) Opt {
	o := Opt{Vars: 1 + r.Intn(6), Share: []float64{0, 0.2, 0.5, 0.8}[r.Intn(4)], MaxCats: 2 + r.Intn(4), MaxDepth: 2 + r.Intn(6),
		Sparse: r.Intn(3) == 0, Ties: r.Intn(3) == 0, ZeroPr: r.Intn(4) == 0}
	switch r.Intn(5) {
	case 0:
		o.Kinds = []Kind{Multi}
	case 1:
		o.Kinds = []Kind{Gauss}
	case 2:
		o.Kinds = []Kind{Ind, Multi}
	default:
		o.Kinds = []Kind{Multi, Gauss, Ind}
	}
	o.W = WMode(r.Intn(5))
	if r.Intn(10) == 0 {
		o.Vars = 7 + r.Intn(20)
	}
	if r.Intn(25) == 0 {
		o.MaxCats = 40
		if o.Vars < 4 && r.Intn(2) == 0 {
			o.MaxCats = 600
		}
	}
	return o
}

// Arbitrary draws any DAG of nodes: not valid in general, with shared and
// skip-level children and, if multi is set, repeated children.
func Arbitrary(r *rand.Rand, kinds []Kind, w WMode, multi bool) *Net {
	n := &Net{}
	if len(kinds) == 0 {
		kinds = []Kind{Multi, Gauss, Ind}
	}
	vars := VarIDs(r, 1+r.Intn(5), r.Intn(2) == 0)
	g := &gen{n: n, r: r, o: Opt{Kinds: kinds, ZeroPr: r.Intn(4) == 0, Ties: r.Intn(3) == 0}, cats: map[int]int{}}
	for _, v := range vars {
		g.cats[v] = 2 + r.Intn(3)
	}
	nl := 1 + r.Intn(6)
	for i := 0; i < nl; i++ {
		g.leaf(vars[r.Intn(len(vars))])
	}
	ni := 1 + r.Intn(14)
	for i := 0; i < ni; i++ {
		k := 1 + r.Intn(4)
		x := Node{K: Kind(r.Intn(2))}
		seen := map[int]bool{}
		for j := 0; j < k; j++ {
			var c int
			switch r.Intn(3) {
			case 0:
				c = r.Intn(len(n.N))
			case 1:
				c = len(n.N) - 1
			default:
				c = len(n.N) - 1 - r.Intn(min(len(n.N), 4))
			}
			if seen[c] && !multi {
				continue
			}
			seen[c] = true
			x.Ch = append(x.Ch, c)
		}
		if x.K == Sum {
			x.W = Weights(r, len(x.Ch), w)
		}
		n.add(x)
	}
	return n.Prune()
}

// Chain is a deep alternation of single- and two-child nodes.
func Chain(r *rand.Rand, depth int) *Net {
	n := &Net{}
	n.add(Node{K: Multi, Var: 0, Pr: Dist(r, 3, false, false)})
	prev := 0
	for i := 0; i < depth; i++ {
		x := Node{K: Sum, Ch: []int{prev}, W: []float64{1}}
		if i%2 == 1 {
			x = Node{K: Prod, Ch: []int{prev}}
		} else if i%7 == 0 {
			l := n.add(Node{K: Multi, Var: 0, Pr: Dist(r, 3, false, false)})
			x = Node{K: Sum, Ch: []int{prev, l}, W: Weights(r, 2, WNorm)}
		}
		prev = n.add(x)
	}
	return n
}

// Ladder has exponentially many paths: every layer has two sums over both
// nodes of the layer below.
func Ladder(r *rand.Rand, depth int) *Net {
	n := &Net{}
	a := n.add(Node{K: Multi, Var: 3, Pr: Dist(r, 3, false, false)})
	b := n.add(Node{K: Ind, Var: 3, Val: r.Intn(3)})
	for i := 0; i < depth; i++ {
		x := n.add(Node{K: Sum, Ch: []int{a, b}, W: Weights(r, 2, WNorm)})
		y := n.add(Node{K: Sum, Ch: []int{b, a}, W: Weights(r, 2, WNorm)})
		a, b = x, y
	}
	n.add(Node{K: Sum, Ch: []int{a, b}, W: Weights(r, 2, WNorm)})
	return n
}

// Skip is a network whose root and inner nodes refer to nodes many levels down,
// in an order that puts the shallow reference before or after the deep one.
func Skip(r *rand.Rand, depth int) *Net {
	n := &Net{}
	base := n.add(Node{K: Multi, Var: 1, Pr: Dist(r, 2, false, false)})
	n.add(Node{K: Multi, Var: 1, Pr: Dist(r, 2, false, false)})
	for i := 0; i < depth; i++ {
		last := len(n.N) - 1
		ch := []int{last}
		for j := 0; j < 1+r.Intn(3); j++ {
			c := r.Intn(len(n.N))
			if r.Intn(2) == 0 {
				c = base
			}
			ch = append(ch, c)
		}
		r.Shuffle(len(ch), func(i, j int) { ch[i], ch[j] = ch[j], ch[i] })
		// drop repeats
		seen := map[int]bool{}
		var u []int
		for _, c := range ch {
			if !seen[c] {
				u = append(u, c)
				seen[c] = true
			}
		}
		n.add(Node{K: Sum, Ch: u, W: Weights(r, len(u), WNorm)})
	}
	return n.Prune()
}

// Wide is a flat network: a sum of products over many leaves.
func Wide(r *rand.Rand, vars, comps int) *Net {
	n := &Net{}
	x := Node{K: Sum}
	for c := 0; c < comps; c++ {
		p := Node{K: Prod}
		for v := 0; v < vars; v++ {
			p.Ch = append(p.Ch, n.add(Node{K: Multi, Var: v, Pr: Dist(r, 2, false, false)}))
		}
		x.Ch = append(x.Ch, n.add(p))
	}
	x.W = Weights(r, comps, WNorm)
	n.add(x)
	return n
}

// Star is a network with one very wide node: a sum of many small products, or a mixture of two
// long ones.
func Star(r *rand.Rand, least, most int) *Net {
	k := least + r.Intn(most-least+1)
	if r.Intn(2) == 0 {
		return Wide(r, 1+r.Intn(2), k)
	}
	return Wide(r, k, 2)
}

// Bayes is a mixture of one component per class: the last variable is the class, of cats[len-1]
// values, and every component favours one of them.
func Bayes(r *rand.Rand, cats []int) *Net {
	n := &Net{}
	x := Node{K: Sum}
	last := len(cats) - 1
	for c := 0; c < cats[last]; c++ {
		p := Node{K: Prod}
		for v, k := range cats {
			d := Dist(r, k, false, false)
			if v == last {
				d[c] += 20
				for i := range d {
					d[i] /= 21
				}
			}
			p.Ch = append(p.Ch, n.add(Node{K: Multi, Var: v, Pr: d}))
		}
		x.Ch = append(x.Ch, n.add(p))
	}
	x.W = Weights(r, cats[last], WNorm)
	n.add(x)
	return n
}

// Single is a lone leaf.
func Single(r *rand.Rand) *Net {
	g := &gen{n: &Net{}, r: r, o: Opt{Kinds: []Kind{Multi, Gauss, Ind}}, cats: map[int]int{}}
	v := r.Intn(9)
	g.cats[v] = 1 + r.Intn(4)
	g.leaf(v)
	return g.n
}

// Any draws from all families; valid tells which are complete and decomposable.
func Any(r *rand.Rand) *Net {
	switch k := r.Intn(20); {
	case k < 9:
		return Valid(r, RandOpt(r))
	case k < 14:
		return Arbitrary(r, nil, WMode(r.Intn(5)), r.Intn(3) == 0)
	case k < 16:
		return Skip(r, 2+r.Intn(30))
	case k == 16:
		return Ladder(r, 1+r.Intn(8))
	case k == 17:
		if r.Intn(8) == 0 {
			return Wide(r, 1+r.Intn(4), 30+r.Intn(150))
		}
		return Wide(r, 1+r.Intn(40), 1+r.Intn(5))
	case k == 18:
		return Chain(r, 1+r.Intn(60))
	default:
		return Single(r)
	}
}

// C10: the Gens learner yields a valid normalised network of the data.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/gens"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/utils/cluster"
)

type task struct {
	Sc   map[int]*learn.Variable
	D    []map[int]int
	ids  []int // sorted variables of the scope
	k    int
	pval float64
	eps  float64
	mp   int
	g    int
	tag  int // variable that tells the instances apart, or -1
}

func gen(m *vk.M) *task {
	r := m.R
	t := &task{Sc: map[int]*learn.Variable{}, tag: -1}
	nv := 1 + r.Intn(6)
	n := 1 + r.Intn(20)
	switch r.Intn(8) {
	case 0:
		n = 1
	case 1:
		n = 30 + r.Intn(60)
	}
	if big := r.Intn(60); big == 0 {
		n = 100 + r.Intn(300)
	} else if big == 1 {
		nv = 7 + r.Intn(14)
	}
	ids := net.VarIDs(r, nv, r.Intn(3) == 0)
	t.ids = ids
	cats := map[int]int{}
	for _, v := range ids {
		cats[v] = 1 + r.Intn(4)
		if r.Intn(4) != 0 && cats[v] == 1 {
			cats[v] = 2
		}
		if r.Intn(15) == 0 {
			if cats[v] = 30; r.Intn(3) == 0 {
				cats[v] = 100 + r.Intn(200)
			}
		}
		t.Sc[v] = &learn.Variable{Varid: v, Categories: cats[v], Name: fmt.Sprintf("X%d", v)}
	}
	mode := r.Intn(6)
	noise := r.Float64()
	if mode == 5 { // far apart clusters of weakly dependent variables
		if len(ids) < 3 {
			mode = 0
		} else {
			n = 15 + r.Intn(80)
			for _, v := range ids {
				cats[v] = 2 + r.Intn(2)
			}
			cats[ids[0]] = 9 + r.Intn(5)
			for _, v := range ids {
				t.Sc[v].Categories = cats[v]
			}
		}
	}
	away := 2 + r.Intn(2)
	for i := 0; i < n; i++ {
		I := map[int]int{}
		z := r.Intn(3)
		for j, v := range ids {
			x := r.Intn(cats[v])
			switch {
			case mode == 0 && r.Float64() > noise: // latent class
				x = z % cats[v]
			case mode == 1 && j > 0 && r.Float64() > noise: // chain
				x = I[ids[j-1]] % cats[v]
			case mode == 2: // constant
				x = cats[v] - 1
			case mode == 5 && j == 0:
				x = z % away * 4
			case mode == 5 && j > 1 && r.Float64() > noise:
				x = I[ids[j-1]] % cats[v]
			case mode == 5 && r.Intn(3) == 0:
				x = z % cats[v]
			case mode == 3 && j%2 == 1: // pairs
				x = I[ids[j-1]] % cats[v]
			}
			I[v] = x
		}
		if i > 0 && r.Intn(6) == 0 {
			I = net.CopyEv(t.D[r.Intn(i)])
		}
		t.D = append(t.D, I)
	}
	if len(ids) > 2 && n > 1 && r.Intn(5) == 0 {
		t.tag = ids[r.Intn(len(ids))]
		t.Sc[t.tag].Categories = n + 1 + r.Intn(2)
		cats[t.tag] = t.Sc[t.tag].Categories
		for i, x := range r.Perm(n) {
			t.D[i][t.tag] = x
		}
	}
	if r.Intn(8) == 0 { // the data may hold variables outside the scope
		for _, I := range t.D {
			I[5000] = r.Intn(2)
		}
	}
	if r.Intn(3) == 0 {
		t.k = -r.Intn(2)
	} else {
		t.k = 1 + r.Intn(4)
		if r.Intn(10) == 0 {
			t.k = 1 + r.Intn(n+2)
		}
	}
	t.pval = []float64{0.0001, 0.01, 0.05, 0.3, 0.9, 1}[r.Intn(6)]
	t.eps = []float64{0, 0.5, 1, 1.5, 3, 20}[r.Intn(6)]
	t.mp = []int{0, 1, 1, 2, 3, 4}[r.Intn(6)]
	t.g = 1 + r.Intn(4)
	if r.Intn(4) == 0 {
		t.g = 5 + r.Intn(12)
	}
	if r.Intn(4) == 0 {
		t.pval = 0.01 + 0.98*r.Float64()
	}
	if mode == 5 && r.Intn(4) != 0 {
		t.k, t.mp = -r.Intn(2), r.Intn(2)
		t.pval = 0.02 + 0.9*r.Float64()
		t.eps = 3 + r.Float64()*0.9
	}
	return t
}

func (t *task) String() string {
	return fmt.Sprintf("k=%d pval=%v eps=%v mp=%d g=%d vars=%v data=%v", t.k, t.pval, t.eps, t.mp, t.g, t.ids, t.D)
}

func ints(a []int, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !b[x] {
			return false
		}
	}
	return true
}

// whole says whether x is an integer up to rounding.
func whole(x float64) (int, bool) {
	r := math.Round(x)
	return int(r), math.Abs(x-r) <= 1e-6*(1+math.Abs(x))
}

// structure walks the network with the number of instances that reach each node.
func structure(m *vk.M, who string, t *task, n *net.Net, gauss bool) {
	tot := map[int][]float64{} // counts per variable seen at the leaves
	moment := map[int]float64{}
	tree := n.Paths() < 100000
	if !tree {
		return
	}
	isMix := func(x *net.Node) bool {
		for _, c := range x.Ch {
			if n.N[c].K != net.Gauss {
				return false
			}
		}
		return len(x.Ch) > 0
	}
	var walk func(i, cnt int)
	walk = func(i, cnt int) {
		x := &n.N[i]
		m.Count("nodes", 1)
		switch x.K {
		case net.Prod:
			m.Check(len(x.Ch) > 0, "%s: product without factors", who)
			for _, c := range x.Ch {
				walk(c, cnt)
			}
		case net.Sum:
			if isMix(x) {
				m.Check(gauss, "%s: Gaussian leaves in a multinomial network", who)
				w := t.g
				if w > cnt {
					w = cnt
				}
				m.Check(len(x.Ch) == w, "%s: mixture of %d Gaussians for %d instances and g=%d", who, len(x.Ch), cnt, t.g)
				for j, c := range x.Ch {
					m.Check(math.Abs(x.W[j]-1/float64(len(x.Ch))) < 1e-9, "%s: mixture weights %v", who, x.W)
					y := &n.N[c]
					m.Check(y.Sig > 0, "%s: Gaussian leaf with deviation %v", who, y.Sig)
					if cnt%len(x.Ch) == 0 {
						moment[y.Var] += y.Mu * float64(cnt/len(x.Ch))
					} else {
						moment[y.Var] = math.NaN()
					}
				}
				return
			}
			s := 0
			for j, c := range x.Ch {
				k, ok := whole(x.W[j] * float64(cnt))
				m.Check(ok && k > 0, "%s: weight %v of a sum reached by %d instances is not a relative cluster size", who, x.W[j], cnt)
				s += k
				walk(c, k)
			}
			m.Check(s == cnt, "%s: clusters of a sum reached by %d instances hold %d", who, cnt, s)
			if t.k > 0 {
				m.Check(len(x.Ch) <= t.k, "%s: sum of %d children with k=%d", who, len(x.Ch), t.k)
			}
			m.Check(len(x.Ch) > 1, "%s: sum of %d children", who, len(x.Ch))
		case net.Multi:
			m.Check(!gauss, "%s: multinomial leaf in a Gaussian network", who)
			v := t.Sc[x.Var]
			m.Must(v != nil, "%s: leaf of the unknown variable %d", who, x.Var)
			m.Must(len(x.Pr) == v.Categories, "%s: leaf of x%d has %d categories, want %d", who, x.Var, len(x.Pr), v.Categories)
			if tot[x.Var] == nil {
				tot[x.Var] = make([]float64, v.Categories)
			}
			s := 0
			for c, p := range x.Pr {
				k, ok := whole(p*float64(cnt+v.Categories) - 1)
				m.Check(ok && k >= 0, "%s: leaf of x%d reached by %d instances: P(%d) = %v is not a smoothed relative frequency", who, x.Var, cnt, c, p)
				s += k
				tot[x.Var][c] += float64(k)
			}
			m.Check(s == cnt, "%s: leaf of x%d reached by %d instances counts %d", who, x.Var, cnt, s)
		case net.Gauss:
			m.Check(false, "%s: Gaussian leaf outside a mixture", who)
		default:
			m.Check(false, "%s: unexpected node", who)
		}
	}
	walk(n.Root(), len(t.D))
	// Conservation: over all leaves, every instance counts once per variable.
	for _, v := range t.ids {
		if !gauss {
			w := make([]float64, t.Sc[v].Categories)
			for _, I := range t.D {
				w[I[v]]++
			}
			for c := range w {
				m.Check(tot[v] != nil && tot[v][c] == w[c], "%s: leaves of x%d count %v instances, the data holds %v", who, v, tot[v], w)
				if tot[v] == nil || tot[v][c] != w[c] {
					break
				}
			}
		} else if s := moment[v]; !math.IsNaN(s) {
			w := 0.0
			for _, I := range t.D {
				w += float64(I[v])
			}
			m.Check(math.Abs(s-w) < 1e-6*(1+w), "%s: Gaussians of x%d have a total of %v, the data %v", who, v, s, w)
			m.Count("moments", 1)
		}
	}
}

// groups are the connected components of pairwise dependence, nil if some
// decision is too close to call.
func groups(t *task, ids []int, D []map[int]int) [][]int {
	n := len(ids)
	cl := make([]int, n)
	for i := range cl {
		cl[i] = i
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			a, b := ids[i], ids[j]
			p, q := t.Sc[a].Categories, t.Sc[b].Categories
			o := make([][]float64, p)
			for k := range o {
				o[k] = make([]float64, q)
			}
			r, c := make([]float64, p), make([]float64, q)
			for _, I := range D {
				o[I[a]][I[b]]++
				r[I[a]]++
				c[I[b]]++
			}
			g := 0.0
			for x := range o {
				for y := range o[x] {
					if o[x][y] > 0 {
						g += 2 * o[x][y] * math.Log(o[x][y]*float64(len(D))/(r[x]*c[y]))
					}
				}
			}
			pv := 1.0
			if df := (p - 1) * (q - 1); df > 0 && g > 1e-9 {
				if pv = tail(g, df); pv == 1 && t.pval > 1-1e-6 {
					return nil // so would rounding
				}
			} else if g > 1e-12 {
				return nil
			} else if df > 0 && t.pval > 1-1e-6 {
				return nil // rounding decides
			}
			if math.Abs(pv-t.pval) < 1e-6 && pv != 1 {
				return nil
			}
			if pv < t.pval && pv != 1 {
				x, y := cl[i], cl[j]
				for k := range cl {
					if cl[k] == y {
						cl[k] = x
					}
				}
			}
		}
	}
	by := map[int][]int{}
	for i, c := range cl {
		by[c] = append(by[c], ids[i])
	}
	var out [][]int
	for i := range cl {
		if g, ok := by[i]; ok {
			out = append(out, g)
		}
	}
	return out
}

// tail of the chi-square distribution.
func tail(x float64, df int) float64 {
	h := x / 2
	q, a := math.Exp(-h), 1.0
	if df%2 == 1 {
		q, a = math.Erfc(math.Sqrt(h)), 0.5
	}
	for a < float64(df)/2-0.25 {
		lg, _ := math.Lgamma(a + 1)
		q += math.Exp(a*math.Log(h) - h - lg)
		a++
	}
	return math.Min(q, 1)
}

// top checks the root against the independence groups and the clustering.
func top(m *vk.M, who string, t *task, n *net.Net) {
	if len(t.ids) == 1 {
		return
	}
	gr := groups(t, t.ids, t.D)
	if gr == nil {
		return
	}
	x := &n.N[n.Root()]
	if len(gr) > 1 {
		if !m.Check(x.K == net.Prod, "%s: independent groups %v, but the root is not a product", who, gr) {
			return
		}
		m.Check(len(x.Ch) == len(gr), "%s: %d factors for the independent groups %v", who, len(x.Ch), gr)
		sc := n.Scopes()
		for _, g := range gr {
			found := false
			for _, c := range x.Ch {
				found = found || ints(g, sc[c])
			}
			m.Check(found, "%s: no factor over the independent group %v", who, g)
		}
		m.Count("products_of_groups", 1)
		return
	}
	// One group: clusters of instances, or a full factorisation.
	if x.K == net.Prod {
		m.Check(len(x.Ch) == len(t.ids), "%s: dependent variables, yet a product of %d factors over %d variables", who, len(x.Ch), len(t.ids))
		if t.k <= 0 && t.mp <= 1 {
			m.Check(len(comps(t, t.D)) == 1, "%s: fully factorised although the instances form %d clusters", who, len(comps(t, t.D)))
		} else if t.k > 1 {
			m.Check(len(t.D) < t.k, "%s: fully factorised although %d instances form %d clusters", who, len(t.D), t.k)
		}
		return
	}
	m.Check(x.K == net.Sum, "%s: root is a leaf over %d variables", who, len(t.ids))
	if t.k <= 0 && t.mp <= 1 {
		c := comps(t, t.D)
		var g []int
		for _, w := range x.W {
			k, _ := whole(w * float64(len(t.D)))
			g = append(g, k)
		}
		sort.Ints(g)
		sort.Ints(c)
		m.Check(fmt.Sprint(g) == fmt.Sprint(c), "%s: clusters of sizes %v, the instances form components of sizes %v", who, g, c)
		m.Count("density_roots", 1)
	}
	m.Count("cluster_roots", 1)
}

// local checks every node that a known set of instances reaches: the values of the tag
// variable counted at its leaves tell which they are.
func local(m *vk.M, who string, t *task, n *net.Net) {
	if t.tag < 0 || n.Paths() > 10000 {
		return
	}
	sc := n.Scopes()
	at := map[int]map[int]int{}
	for _, I := range t.D {
		at[I[t.tag]] = I
	}
	var members func(i int) []map[int]int
	members = func(i int) []map[int]int {
		x := &n.N[i]
		var out []map[int]int
		if x.K == net.Multi {
			low := math.Inf(1)
			for _, p := range x.Pr {
				low = math.Min(low, p)
			}
			for c, p := range x.Pr {
				if I := at[c]; I != nil && p > 1.5*low {
					out = append(out, I)
				}
			}
			return out
		}
		for _, c := range x.Ch {
			if sc[c][t.tag] {
				out = append(out, members(c)...)
			}
		}
		return out
	}
	var walk func(i int, D []map[int]int)
	walk = func(i int, D []map[int]int) {
		x := &n.N[i]
		var ids []int
		for _, v := range t.ids {
			if sc[i][v] {
				ids = append(ids, v)
			}
		}
		if len(ids) < 2 {
			m.Check(x.K == net.Multi, "%s: a node over x%v alone is no leaf", who, ids)
			if x.K == net.Multi {
				cnt := make([]float64, t.Sc[x.Var].Categories)
				for _, I := range D {
					cnt[I[x.Var]]++
				}
				for c, p := range x.Pr {
					m.Check(math.Abs(p-(cnt[c]+1)/float64(len(D)+len(cnt))) < 1e-9, "%s: leaf of x%d reached by %v: P(%d) = %v", who, x.Var, D, c, p)
				}
			}
			return
		}
		gr := groups(t, ids, D)
		if gr != nil {
			m.Count("located_nodes", 1)
			if i != n.Root() {
				m.Count("located_inner_nodes", 1)
			}
		}
		if x.K == net.Sum {
			m.Check(gr == nil || len(gr) == 1, "%s: a sum over the independent groups %v (reached by %v)", who, gr, D)
			for _, c := range x.Ch {
				if sc[i][t.tag] {
					walk(c, members(c))
				}
			}
			return
		}
		if gr != nil && len(gr) > 1 {
			m.Check(len(x.Ch) == len(gr), "%s: %d factors for the independent groups %v (reached by %v)", who, len(x.Ch), gr, D)
			for _, g := range gr {
				found := false
				for _, c := range x.Ch {
					found = found || ints(g, sc[c])
				}
				m.Check(found, "%s: no factor over the independent group %v (reached by %v)", who, g, D)
			}
		} else if gr != nil {
			m.Check(len(x.Ch) == len(ids), "%s: dependent variables %v, yet a product of %d factors (reached by %v)", who, ids, len(x.Ch), D)
			m.Check(t.k <= 1 || len(D) < t.k, "%s: dependent variables %v fully factorised although %d instances form %d clusters", who, ids, len(D), t.k)
		}
		for _, c := range x.Ch {
			walk(c, D)
		}
	}
	walk(n.Root(), t.D)
	m.Count("located_networks", 1)
}

// comps are the sizes of the eps-connected components of the instances.
func comps(t *task, D []map[int]int) []int {
	var out []int
	for _, c := range parts(t, D) {
		out = append(out, len(c))
	}
	return out
}

// parts are the eps-connected components of the instances.
func parts(t *task, D []map[int]int) [][]map[int]int {
	n := len(D)
	seen := make([]bool, n)
	var out [][]map[int]int
	for s := range D {
		if seen[s] {
			continue
		}
		st := []int{s}
		seen[s] = true
		var k []map[int]int
		for len(st) > 0 {
			p := st[len(st)-1]
			st = st[:len(st)-1]
			k = append(k, D[p])
			for q := range D {
				if seen[q] {
					continue
				}
				d := 0
				for v, x := range D[p] {
					d += (x - D[q][v]) * (x - D[q][v])
				}
				if math.Sqrt(float64(d)) <= t.eps {
					seen[q] = true
					st = append(st, q)
				}
			}
		}
		out = append(out, k)
	}
	return out
}

// scan is the density clustering of the instances (monitored by C13), nil if it depends on their order.
func scan(t *task, D []map[int]int) [][]map[int]int {
	canon := func(C [][]map[int]int) string {
		var s []string
		for _, c := range C {
			var k []string
			for _, I := range c {
				k = append(k, fmt.Sprint(I))
			}
			sort.Strings(k)
			s = append(s, strings.Join(k, ";"))
		}
		sort.Strings(s)
		return strings.Join(s, "|")
	}
	C := cluster.DBSCANData(D, t.eps, t.mp)
	want := canon(C)
	r := rand.New(rand.NewSource(int64(len(D))))
	for k := 0; k < 4; k++ {
		E := append([]map[int]int(nil), D...)
		r.Shuffle(len(E), func(i, j int) { E[i], E[j] = E[j], E[i] })
		if canon(cluster.DBSCANData(E, t.eps, t.mp)) != want {
			return nil
		}
	}
	return C
}

// model is the distribution Gens must learn when nothing is random: density
// clustering that does not depend on the order of the instances, or a single cluster.
// It returns nil if the clustering does, or some independence decision is too close to call.
func model(t *task, ids []int, D []map[int]int, g int, deep, scans *int) func(e map[int]int) float64 {
	if len(ids) == 1 {
		return leaf(t, ids[0], D, g)
	}
	gr := groups(t, ids, D)
	if gr == nil {
		return nil
	}
	var f []func(e map[int]int) float64
	product := func(e map[int]int) float64 {
		s := 0.0
		for _, h := range f {
			s += h(e)
		}
		return s
	}
	if len(gr) > 1 {
		for _, ids := range gr {
			E := make([]map[int]int, len(D))
			for i, I := range D {
				E[i] = map[int]int{}
				for _, v := range ids {
					E[i][v] = I[v]
				}
			}
			h := model(t, ids, E, g, deep, scans)
			if h == nil {
				return nil
			}
			f = append(f, h)
		}
		*deep++
		return product
	}
	var C [][]map[int]int
	if t.k <= 0 && t.mp <= 1 {
		C = parts(t, D)
	} else if t.k <= 0 {
		if C = scan(t, D); C == nil {
			return nil
		}
		if len(C) > 1 {
			*scans++
		}
	}
	if len(C) <= 1 {
		for _, v := range ids {
			f = append(f, leaf(t, v, D, g))
		}
		return product
	}
	for _, c := range C {
		h := model(t, ids, c, g, deep, scans)
		if h == nil {
			return nil
		}
		f = append(f, h)
	}
	*deep++
	return func(e map[int]int) float64 {
		s := 0.0
		for i, h := range f {
			s += math.Exp(h(e)) * float64(len(C[i])) / float64(len(D))
		}
		return math.Log(s)
	}
}

func leaf(t *task, v int, D []map[int]int, g int) func(e map[int]int) float64 {
	if g <= 0 {
		cnt := make([]float64, t.Sc[v].Categories)
		for _, I := range D {
			cnt[I[v]]++
		}
		return func(e map[int]int) float64 {
			x, ok := e[v]
			if !ok {
				return 0
			}
			return math.Log((cnt[x] + 1) / float64(len(D)+len(cnt)))
		}
	}
	var X []int
	for _, I := range D {
		X = append(X, I[v])
	}
	Q := utils.PartitionQuantiles(X, g) // monitored by C25
	return func(e map[int]int) float64 {
		x, ok := e[v]
		if !ok {
			return 0
		}
		s := 0.0
		for _, q := range Q {
			z := (float64(x) - q[0]) / q[1]
			s += math.Exp(-z*z/2) / (q[1] * math.Sqrt(2*math.Pi)) / float64(len(Q))
		}
		return math.Log(s)
	}
}

func judge(m *vk.M, who string, t *task, S spn.SPN, gauss bool) *net.Net {
	m.Must(S != nil, "%s returned no network", who)
	b, err := net.Import(S)
	m.Must(err == nil, "%s: malformed network: %v", who, err)
	n := b.Net
	m.Check(n.Complete(), "%s: the network is not complete: %v", who, n)
	m.Check(n.Decomposable(), "%s: the network is not decomposable: %v", who, n)
	ok, why := n.Normalized(1e-9)
	m.Check(ok, "%s: the network is not normalised: %s", who, why)
	m.Check(fmt.Sprint(n.Scope()) == fmt.Sprint(t.ids), "%s: scope %v, want %v", who, n.Scope(), t.ids)
	for _, I := range t.D {
		v := n.Eval(I)[n.Root()]
		m.Check(!math.IsNaN(v) && !math.IsInf(v, 0), "%s: training instance %v has log-probability %v", who, I, v)
	}
	if v := n.Eval(nil)[n.Root()]; true {
		m.Check(math.Abs(v) < 1e-9, "%s: total mass is exp(%v)", who, v)
	}
	structure(m, who, t, n, gauss)
	top(m, who, t, n)
	if !gauss {
		local(m, who, t, n)
	}
	m.Count("networks", 1)
	return n
}

func run(m *vk.M) {
	t := gen(m)
	m.Note("%v", t)
	var keep []map[int]int
	for _, I := range t.D {
		keep = append(keep, net.CopyEv(I))
	}
	vars := map[int]learn.Variable{}
	for k, v := range t.Sc {
		vars[k] = *v
	}
	same := func(who string) {
		m.Check(len(t.D) == len(keep), "%s changed the dataset", who)
		for i := range keep {
			m.Check(net.SameEv(t.D[i], keep[i]), "%s changed instance %d from %v to %v", who, i, keep[i], t.D[i])
		}
		m.Check(len(t.Sc) == len(vars), "%s changed the scope", who)
		for k, v := range vars {
			m.Check(t.Sc[k] != nil && *t.Sc[k] == v, "%s changed variable %d of the scope", who, k)
		}
	}
	procs := []int{-1, 0, 1, 2, 3, 8}[m.R.Intn(6)]
	A := judge(m, "Learn", t, gens.Learn(t.Sc, t.D, t.k, t.pval, t.eps, t.mp), false)
	same("Learn")
	B := judge(m, "LearnConcurrent", t, gens.LearnConcurrent(t.Sc, t.D, t.k, t.pval, t.eps, t.mp, procs), false)
	same("LearnConcurrent")
	C := judge(m, "Binded", t, gens.Binded(t.k, t.pval, t.eps, t.mp)(t.Sc, t.D), false)
	E := judge(m, "LearnGauss", t, gens.LearnGauss(t.Sc, t.D, t.k, t.pval, t.eps, t.mp, t.g), true)
	same("LearnGauss")
	F := judge(m, "LearnGaussConcurrent", t, gens.LearnGaussConcurrent(t.Sc, t.D, t.k, t.pval, t.eps, t.mp, t.g, procs), true)
	same("LearnGaussConcurrent")
	if t.k <= 1 {
		// Without random clustering the distribution is determined by the data.
		for i := 0; i < 6; i++ {
			e := map[int]int{}
			for _, v := range t.ids {
				if m.R.Intn(4) != 0 {
					e[v] = m.R.Intn(t.Sc[v].Categories)
				}
			}
			a, b, c := A.Eval(e)[A.Root()], B.Eval(e)[B.Root()], C.Eval(e)[C.Root()]
			m.Check(net.Near(a, b) && net.Near(a, c), "deterministic settings, yet P(%v) is exp of %v, %v (concurrent) and %v (bound)", e, a, b, c)
			x, y := E.Eval(e)[E.Root()], F.Eval(e)[F.Root()]
			m.Check(net.Near(x, y), "deterministic settings, yet the density of %v is exp of %v and %v (concurrent)", e, x, y)
			m.Count("deterministic_comparisons", 1)
		}
	}
	if t.k <= 1 {
		deep, scans := 0, 0
		f := model(t, t.ids, t.D, 0, &deep, &scans)
		h := model(t, t.ids, t.D, t.g, &deep, &scans)
		for i := 0; i < 12 && f != nil && h != nil; i++ {
			e := map[int]int{}
			if i < len(t.D) && i%2 == 0 {
				e = net.CopyEv(t.D[m.R.Intn(len(t.D))])
			}
			for _, v := range t.ids {
				if m.R.Intn(4) != 0 {
					e[v] = m.R.Intn(t.Sc[v].Categories)
				}
			}
			for j, n := range []*net.Net{A, B, C} {
				m.Check(net.Near(n.Eval(e)[n.Root()], f(e)), "learner %d gives %v the log-probability %v, the independence groups and clusters of the data %v", j, e, n.Eval(e)[n.Root()], f(e))
			}
			w := h(e)
			for j, n := range []*net.Net{E, F} {
				x := n.Eval(e)[n.Root()]
				// densities too small to sum outside log space are not compared
				m.Check(w < -600 || net.Near(x, w), "Gaussian learner %d gives %v the log-density %v, the independence groups and clusters of the data %v", j, e, x, w)
			}
			m.Count("modelled_values", 1)
		}
		if f != nil {
			m.Count("modelled_inner_nodes", deep)
			m.Count("modelled_density_sums", scans)
		}
	}
	m.Sig("%v", t)
	m.Sample("%d instances over %d variables, k=%d pval=%v eps=%v mp=%d g=%d: %d nodes", len(t.D), len(t.ids), t.k, t.pval, t.eps, t.mp, t.g, len(A.N))
}

func races(m *vk.M) {
	t := gen(m)
	if len(t.ids) == 1 {
		return
	}
	m.Note("%v", t)
	procs := []int{-1, 0, 2, 3, 8}[m.R.Intn(5)]
	judge(m, "LearnConcurrent", t, gens.LearnConcurrent(t.Sc, t.D, t.k, t.pval, t.eps, t.mp, procs), false)
	judge(m, "LearnGaussConcurrent", t, gens.LearnGaussConcurrent(t.Sc, t.D, t.k, t.pval, t.eps, t.mp, t.g, procs), true)
	m.Sig("%v|%d", t, procs)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C10",
		Rule: "random datasets (latent classes, chains, pairs, constants, independent, duplicates; 1..400 instances; 1..20 variables with gaps) and settings (k-means and density, all significance levels, multinomial and Gaussian leaves, any process count); learned networks are walked with the number of instances reaching each node, so that weights, leaf counts and their sum over all leaves are checked against the data; concurrent learners also under the race detector; distinct by data and settings",
		Assumptions: []string{
			"datasets are complete and values lie within the declared categories; at least one instance and one variable",
		},
		Workloads: []vk.Workload{
			{Name: "learn", Quick: 7000, Thorough: 60000, F: run},
			{Name: "races", Quick: 500, Thorough: 6000, Race: true, F: races},
		},
	})
}

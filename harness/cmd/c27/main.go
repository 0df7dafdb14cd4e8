// C27: dataset/matrix conversions and disjoint sets are faithful.
package main

import (
	"fmt"
	"sort"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/utils"
)

func gen(m *vk.M, complete bool) (spn.Dataset, []int) {
	n := 1 + m.R.Intn(12)
	nv := 1 + m.R.Intn(8)
	if m.R.Intn(20) == 0 {
		n, nv = 1+m.R.Intn(100), 1+m.R.Intn(60)
	}
	if m.R.Intn(100) == 0 {
		n, nv = 500+m.R.Intn(2000), 1+m.R.Intn(10)
	}
	if m.R.Intn(60) == 0 {
		if nv = 100 + m.R.Intn(300); n < 30 && m.R.Intn(3) == 0 {
			nv = 500 + m.R.Intn(1500)
		}
	}
	ids := net.VarIDs(m.R, nv, !complete)
	if m.R.Intn(5) == 0 { // ids that agree in their low bits
		s := uint([]int{8, 12, 16, 20, 32}[m.R.Intn(5)])
		for i := range ids {
			ids[i] = ids[i]<<s | m.R.Intn(2)
		}
	}
	if complete {
		ids = ids[:0]
		for i := 0; i < nv; i++ {
			ids = append(ids, i)
		}
	}
	D := make(spn.Dataset, n)
	span := 1000
	if m.R.Intn(6) == 0 { // whatever a float64 holds exactly
		span = 1 << uint(10+m.R.Intn(43))
	}
	for i := range D {
		D[i] = map[int]int{}
		for _, v := range ids {
			D[i][v] = m.R.Intn(span) - span/10
			if m.R.Intn(4) == 0 {
				D[i][v] = 0
			}
		}
	}
	return D, ids
}

func clone(D spn.Dataset) spn.Dataset {
	c := make(spn.Dataset, len(D))
	for i := range D {
		c[i] = net.CopyEv(D[i])
	}
	return c
}

func same(a, b spn.Dataset) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !net.SameEv(a[i], b[i]) {
			return false
		}
	}
	return true
}

func matrices(m *vk.M) {
	complete := m.R.Intn(2) == 0
	D, ids := gen(m, complete)
	keep := clone(D)
	// With a column map.
	M, S := learn.DataToMatrix(D)
	F, T := learn.DataToMatrixF(D)
	m.Check(same(D, keep), "conversion modified the dataset")
	in := map[int]bool{}
	for _, v := range ids {
		in[v] = true
	}
	bij := func(who string, S map[int]int, cols int) bool {
		seen := map[int]bool{}
		ok := len(S) == len(ids) && cols == len(ids)
		for c, v := range S {
			ok = ok && c >= 0 && c < cols && in[v] && !seen[v]
			seen[v] = true
		}
		return m.Check(ok, "%s: column map %v is not a bijection between %d columns and the variables %v", who, S, cols, ids)
	}
	m.Must(len(M) == len(D) && len(F) == len(D), "%d and %d rows for %d instances", len(M), len(F), len(D))
	for i := range D {
		if bij("DataToMatrix", S, len(M[i])) {
			for c, x := range M[i] {
				m.Check(x == keep[i][S[c]], "DataToMatrix: row %d column %d (x%d) = %d, want %d", i, c, S[c], x, keep[i][S[c]])
			}
		}
		if bij("DataToMatrixF", T, len(F[i])) {
			for c, x := range F[i] {
				m.Check(x == float64(keep[i][T[c]]), "DataToMatrixF: row %d column %d (x%d) = %v, want %d", i, c, T[c], x, keep[i][T[c]])
			}
		}
		m.Count("rows", 1)
	}
	if complete {
		C, G := learn.CompleteDataToMatrix(D), learn.CompleteDataToMatrixF(D)
		m.Must(len(C) == len(D) && len(G) == len(D), "%d and %d rows for %d instances", len(C), len(G), len(D))
		for i := range D {
			m.Must(len(C[i]) == len(ids) && len(G[i]) == len(ids), "row %d has %d and %d columns for %d variables", i, len(C[i]), len(G[i]), len(ids))
			for v := range ids {
				m.Check(C[i][v] == keep[i][v], "CompleteDataToMatrix: row %d x%d = %d, want %d", i, v, C[i][v], keep[i][v])
				m.Check(G[i][v] == float64(keep[i][v]), "CompleteDataToMatrixF: row %d x%d = %v, want %d", i, v, G[i][v], keep[i][v])
			}
		}
		E := learn.MatrixToData(C)
		m.Check(same(E, keep), "MatrixToData(CompleteDataToMatrix(D)) differs from D")
		if len(C) > 0 {
			C[0][0] += 7
			m.Check(E[0][0] == keep[0][0], "MatrixToData aliases the matrix")
		}
	} else {
		E := learn.MatrixToData(M)
		m.Must(len(E) == len(D), "MatrixToData: %d instances", len(E))
		for i := range E {
			m.Check(len(E[i]) == len(ids), "MatrixToData: instance %d has %d variables, want %d", i, len(E[i]), len(ids))
			for c, v := range S {
				m.Check(E[i][c] == keep[i][v], "MatrixToData: instance %d column %d", i, c)
			}
		}
	}
	m.Check(same(D, keep), "conversion modified the dataset")
	// Columns.
	Sc := map[int]*learn.Variable{}
	for _, v := range ids {
		Sc[v] = &learn.Variable{Varid: v, Categories: 2 + m.R.Intn(9), Name: fmt.Sprintf("X %d", v)}
	}
	sub := Sc
	if m.R.Intn(3) == 0 { // a part of the scope
		sub = map[int]*learn.Variable{}
		for v := range Sc {
			if m.R.Intn(2) == 0 {
				sub[v] = Sc[v]
			}
		}
	}
	V := learn.DataToVarData(D, sub)
	m.Must(len(V) == len(sub), "DataToVarData: %d columns for %d variables", len(V), len(sub))
	seen := map[int]bool{}
	for _, x := range V {
		m.Must(x != nil && sub[x.Varid] != nil && !seen[x.Varid], "DataToVarData: column %+v absent from the scope or repeated", x)
		seen[x.Varid] = true
		m.Check(x.Categories == sub[x.Varid].Categories, "DataToVarData: x%d has %d categories, want %d", x.Varid, x.Categories, sub[x.Varid].Categories)
		m.Must(len(x.Data) == len(D), "DataToVarData: x%d has %d values", x.Varid, len(x.Data))
		for i := range D {
			m.Check(x.Data[i] == keep[i][x.Varid], "DataToVarData: x%d of instance %d = %d, want %d", x.Varid, i, x.Data[i], keep[i][x.Varid])
		}
		if len(x.Data) > 0 {
			x.Data[0] += 9
		}
	}
	for _, v := range ids {
		col := learn.ExtractInstance(v, D)
		m.Must(len(col) == len(D), "ExtractInstance: %d values", len(col))
		for i := range D {
			m.Check(col[i] == keep[i][v], "ExtractInstance(x%d): instance %d = %d, want %d", v, i, col[i], keep[i][v])
		}
		col[0]++
	}
	m.Check(same(D, keep), "conversion modified or aliases the dataset")
	// Scopes.
	R, C := learn.ReflectScope(Sc), learn.CopyScope(Sc)
	m.Check(len(R) == len(Sc) && len(C) == len(Sc), "scope copies have %d and %d variables, want %d", len(R), len(C), len(Sc))
	for v, x := range Sc {
		m.Check(R[v] == x, "ReflectScope: x%d is another variable", v)
		y := C[v]
		m.Must(y != nil, "CopyScope: x%d missing", v)
		m.Check(y != x && *y == *x, "CopyScope: x%d copied as %+v from %+v (same object: %v)", v, *y, *x, y == x)
		y.Categories += 100
		delete(R, v)
		delete(C, v)
	}
	m.Check(len(Sc) == len(ids), "scope copies alias the scope")
	m.Sig("%v", keep)
	m.Sample("%d instances over variables %v", len(D), ids)
}

func empty(m *vk.M) {
	for _, D := range []spn.Dataset{nil, {}} {
		m.Check(learn.CompleteDataToMatrix(D) == nil && learn.CompleteDataToMatrixF(D) == nil, "matrix of an empty dataset is not empty")
		a, _ := learn.DataToMatrix(D)
		b, _ := learn.DataToMatrixF(D)
		m.Check(len(a) == 0 && len(b) == 0, "matrix of an empty dataset is not empty")
		m.Check(len(learn.MatrixToData(nil)) == 0, "dataset of an empty matrix is not empty")
	}
}

func unions(m *vk.M) {
	n := 1 + m.R.Intn(30)
	if m.R.Intn(20) == 0 {
		n = 200 + m.R.Intn(300)
	}
	if m.R.Intn(200) == 0 {
		n = 1000 + m.R.Intn(1000)
	}
	ids := net.VarIDs(m.R, n, m.R.Intn(2) == 0)
	m.R.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	n = len(ids)
	U := make([]*utils.UFNode, n)
	cl := make([]int, n) // model: class of each element
	for i := range U {
		U[i] = utils.MakeSet(ids[i])
		cl[i] = i
		m.Check(utils.Find(U[i]) == U[i], "a new set is not its own representative")
	}
	at := map[*utils.UFNode]int{}
	for i := range U {
		at[U[i]] = i
	}
	audit := func() {
		rep := map[int]*utils.UFNode{}
		back := map[*utils.UFNode]int{}
		mem := map[int][]int{}
		for i := range U {
			r := utils.Find(U[i])
			j, known := at[r]
			m.Must(known && cl[j] == cl[i], "representative of x%d is not a member of its set", ids[i])
			if p, ok := rep[cl[i]]; ok {
				m.Check(p == r, "x%d has another representative than the rest of its set", ids[i])
			}
			rep[cl[i]] = r
			if c, ok := back[r]; ok {
				m.Check(c == cl[i], "two sets have the same representative")
			}
			back[r] = cl[i]
			mem[cl[i]] = append(mem[cl[i]], ids[i])
			m.Count("finds", 1)
		}
		for c, r := range rep {
			g := append([]int(nil), utils.UFVarids(r)...)
			w := mem[c]
			sort.Ints(g)
			sort.Ints(w)
			ok := len(g) == len(w)
			for i := range g {
				ok = ok && g[i] == w[i]
			}
			m.Check(ok, "members of a set are listed as %v, want %v", g, w)
		}
	}
	// The monitor itself must not compress paths: it follows parent pointers
	// without Find, and some histories are only audited at their end.
	top := func(x *utils.UFNode) *utils.UFNode {
		for k := 0; x.Pa != nil && x != x.Pa && k <= n; k++ {
			x = x.Pa
		}
		return x
	}
	quiet := m.R.Intn(2) == 0
	rough := m.R.Intn(2) == 0
	chain := m.R.Intn(3)
	steps := m.R.Intn(2*n + 2)
	for s := 0; s < steps; s++ {
		i, j := m.R.Intn(n), m.R.Intn(n)
		if chain == 1 && n > 1 {
			i = s % (n - 1)
			j = i + 1
		} else if chain == 2 { // pair up equals to grow ranks
			d := 1 << uint(m.R.Intn(5))
			j = (i + d) % n
		}
		a, b := U[i], U[j]
		if !rough && m.R.Intn(2) == 0 {
			a, b = utils.Find(a), utils.Find(b)
		}
		ra, rb := top(U[i]), top(U[j])
		r, w := utils.Union(a, b)
		if cl[i] == cl[j] {
			m.Check(r == nil && w == -1, "Union within one set returned %v, %d", r, w)
		} else {
			m.Must(r != nil && top(U[i]) == r && top(U[j]) == r, "Union does not return the representative of the union")
			m.Check((w == 1 && r == ra) || (w == 2 && r == rb), "Union says argument %d is the representative, which is wrong", w)
			c, d := cl[i], cl[j]
			for k := range cl {
				if cl[k] == d {
					cl[k] = c
				}
			}
		}
		m.Count("unions", 1)
		if !quiet && m.R.Intn(5) == 0 {
			audit()
		}
	}
	audit()
	m.Sig("%d", m.Seed)
	m.Sample("%d elements, %d unions", n, steps)
}

// tournament joins sets of equal size again and again, which gives the deepest
// trees that union by rank allows.
func tournament(m *vk.M) {
	n := 1 << uint(m.R.Intn(13))
	U := make([]*utils.UFNode, n)
	for i := range U {
		U[i] = utils.MakeSet(i)
	}
	pick := m.R.Intn(3)
	for w := 1; w < n; w *= 2 {
		for i := 0; i+w < n; i += 2 * w {
			a, b := i, i+w
			if pick == 1 {
				a, b = i+m.R.Intn(w), i+w+m.R.Intn(w)
			} else if pick == 2 {
				a, b = b, a
			}
			utils.Union(U[a], U[b])
			m.Count("unions", 1)
		}
		if m.R.Intn(4) == 0 {
			g := (m.R.Intn(n) / (2 * w)) * 2 * w
			r := utils.Find(U[g])
			l := append([]int(nil), utils.UFVarids(r)...)
			sort.Ints(l)
			ok := len(l) == 2*w
			for i := range l {
				ok = ok && l[i] == g+i
			}
			m.Check(ok, "the set of x%d lists %d members, want %d", g, len(l), 2*w)
		}
	}
	r := utils.Find(U[m.R.Intn(n)])
	for i := range U {
		m.Check(utils.Find(U[i]) == r, "x%d and the other %d elements have different representatives", i, n)
	}
	m.Sig("tournament|%d|%d|%d", n, pick, m.Seed)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C27",
		Rule: "random consistent datasets (complete or with gaps in the variable ids) converted and compared cell by cell; random union sequences (random, chained, rank-growing) against a class vector, all representatives and member lists audited; distinct by dataset or sequence",
		Assumptions: []string{
			"member lists are asked of representatives",
		},
		Workloads: []vk.Workload{
			{Name: "matrices", Quick: 12000, Thorough: 100000, F: matrices},
			{Name: "empty", Quick: 1, Thorough: 1, F: empty},
			{Name: "tournament", Quick: 100, Thorough: 2000, F: tournament},
			{Name: "unions", Quick: 10000, Thorough: 100000, F: unions},
		},
	})
}

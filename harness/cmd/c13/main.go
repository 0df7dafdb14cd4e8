// C13: every clustering is a partition of the instances that preserves them.
package main

import (
	"fmt"
	"math"
	"sort"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/utils/cluster"
	"github.com/RenatoGeh/gospn/utils/cluster/metrics"
)

// gen draws a matrix: few or many instances, duplicates, blobs, constants.
func gen(m *vk.M) [][]int {
	n := 1 + m.R.Intn(14)
	if m.R.Intn(8) == 0 {
		n = 30 + m.R.Intn(90)
	}
	d := 1 + m.R.Intn(5)
	if m.R.Intn(40) == 0 {
		n = 150 + m.R.Intn(500)
		if m.R.Intn(8) == 0 {
			n += 500
		}
	} else if m.R.Intn(20) == 0 {
		d = 6 + m.R.Intn(60)
	}
	mode := m.R.Intn(5)
	hi := []int{1, 2, 4, 20, 256}[m.R.Intn(5)]
	D := make([][]int, n)
	for i := range D {
		D[i] = make([]int, d)
		c := m.R.Intn(3) * 50
		for j := range D[i] {
			switch mode {
			case 0:
				D[i][j] = m.R.Intn(hi)
			case 1:
				D[i][j] = c + m.R.Intn(4)
			case 2:
				D[i][j] = 3
			case 3:
				D[i][j] = i * (1 + m.R.Intn(2))
			default:
				D[i][j] = m.R.Intn(2)
			}
		}
		if i > 0 && m.R.Intn(4) == 0 {
			copy(D[i], D[m.R.Intn(i)])
		}
	}
	return D
}

// shift moves some matrices below zero or far away.
func shift(m *vk.M, D [][]int) [][]int {
	if m.R.Intn(4) == 0 {
		o := []int{1, 7, 100, 1000000, 1<<30 + 1, -1<<30 - 1, -1 << 40}[m.R.Intn(7)]
		for i := range D {
			for j := range D[i] {
				D[i][j] -= o
			}
		}
	}
	return D
}

func clone(D [][]int) [][]int {
	c := make([][]int, len(D))
	for i := range D {
		c[i] = append([]int(nil), D[i]...)
	}
	return c
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameM(a, b [][]int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// partition checks keyed clusters: each index once, with its own values. It
// returns the assignment.
func partition(m *vk.M, who string, D [][]int, C []map[int][]int, key func(i int) int) []int {
	at := map[int]int{}
	for i := range D {
		at[key(i)] = i
	}
	g := make([]int, len(D))
	for i := range g {
		g[i] = -1
	}
	for c, cl := range C {
		for k, v := range cl {
			i, ok := at[k]
			if !m.Check(ok, "%s: cluster %d holds index %d of no instance", who, c, k) {
				continue
			}
			m.Check(g[i] < 0, "%s: instance %d is in clusters %d and %d", who, i, g[i], c)
			g[i] = c
			m.Check(same(v, D[i]), "%s: instance %d became %v, was %v", who, i, v, D[i])
		}
	}
	for i := range g {
		m.Check(g[i] >= 0, "%s: instance %d (%v) is in no cluster of %v", who, i, D[i], C)
	}
	m.Count("instances", len(D))
	return g
}

// scribble changes every value of the clusters.
func scribble(C []map[int][]int) {
	for _, c := range C {
		for _, v := range c {
			for j := range v {
				v[j] += 1000
			}
		}
	}
}

func id(i int) int { return i }

func ints(C []map[int][]float64) []map[int][]int {
	O := make([]map[int][]int, len(C))
	for i := range C {
		O[i] = map[int][]int{}
		for k, v := range C[i] {
			for _, x := range v {
				if x != math.Trunc(x) {
					x = -99999
				}
				O[i][k] = append(O[i][k], int(x))
			}
		}
	}
	return O
}

func floats(D [][]int) [][]float64 {
	F := make([][]float64, len(D))
	for i := range D {
		for _, x := range D[i] {
			F[i] = append(F[i], float64(x))
		}
	}
	return F
}

// data turns the matrix into a dataset over sparse ids.
func dataset(m *vk.M, D [][]int) ([]map[int]int, []int) {
	ids := net.VarIDs(m.R, len(D[0]), m.R.Intn(2) == 0)
	S := make([]map[int]int, len(D))
	for i := range D {
		S[i] = map[int]int{}
		for j, v := range ids {
			S[i][v] = D[i][j]
		}
	}
	return S, ids
}

func str(I map[int]int) string {
	var k []int
	for v := range I {
		k = append(k, v)
	}
	sort.Ints(k)
	s := ""
	for _, v := range k {
		s += fmt.Sprintf("%d=%d ", v, I[v])
	}
	return s
}

// conserved checks unkeyed clusters of a dataset as multisets.
func conserved(m *vk.M, who string, S []map[int]int, C [][]map[int]int) {
	bag := map[string]int{}
	for _, I := range S {
		bag[str(I)]++
	}
	n := 0
	for _, c := range C {
		for _, I := range c {
			bag[str(I)]--
			m.Check(bag[str(I)] >= 0, "%s: instance %v is not in the input or repeated", who, I)
			n++
		}
	}
	m.Check(n == len(S), "%s: %d of %d instances in the clusters", who, n, len(S))
	m.Count("instances", len(S))
}

// columns checks keyed clusters whose column order is not reported: the columns
// are those of the input in some order.
func columns(m *vk.M, who string, D [][]int, C []map[int][]int) {
	M := make([][]int, len(D))
	for c, cl := range C {
		for k, v := range cl {
			if !m.Check(k >= 0 && k < len(D), "%s: cluster %d holds index %d", who, c, k) {
				return
			}
			m.Check(M[k] == nil, "%s: instance %d is in two clusters", who, k)
			M[k] = v
		}
	}
	col := func(M [][]int, j int) string {
		s := ""
		for i := range M {
			s += fmt.Sprintf("%d,", M[i][j])
		}
		return s
	}
	for i := range M {
		m.Must(len(M[i]) == len(D[i]), "%s: instance %d is %v, was %v", who, i, M[i], D[i])
	}
	bag := map[string]int{}
	for j := range D[0] {
		bag[col(D, j)]++
		bag[col(M, j)]--
	}
	for k, v := range bag {
		m.Check(v == 0, "%s: values are not preserved (column %s)", who, k)
	}
	m.Count("instances", len(D))
}

func kmeans(m *vk.M) {
	D := shift(m, gen(m))
	keep := clone(D)
	n := len(D)
	k := 1 + m.R.Intn(n)
	if m.R.Intn(3) != 0 && n >= 3 {
		k = 1 + m.R.Intn(3)
	}
	if n > 150 && k > 20 {
		k = 20
	}
	m.Note("k=%d data %v", k, D)
	num := func(who string, l int) { m.Check(l == k, "%s returned %d clusters, want %d", who, l, k) }
	C := cluster.KMeans(k, D)
	num("KMeans", len(C))
	partition(m, "KMeans", D, C, id)
	C = cluster.KMeansMuesli(k, D, nil)
	num("KMeansMuesli", len(C))
	partition(m, "KMeansMuesli", D, C, id)
	key := map[int]int{}
	for i := range D {
		key[i] = 3*i + 7
	}
	C = cluster.KMeansMuesli(k, D, key)
	num("KMeansMuesli with keys", len(C))
	partition(m, "KMeansMuesli with keys", D, C, func(i int) int { return 3*i + 7 })
	F := floats(D)
	G := cluster.KMeansF(k, F, nil)
	num("KMeansF", len(G))
	partition(m, "KMeansF", D, ints(G), id)
	G = cluster.KMeansMuesliF(k, F, key)
	num("KMeansMuesliF with keys", len(G))
	partition(m, "KMeansMuesliF with keys", D, ints(G), func(i int) int { return 3*i + 7 })
	A := cluster.KMeansI(k, F)
	m.Check(len(A) == n, "KMeansI assigned %d of %d instances", len(A), n)
	for i, a := range A {
		m.Check(a >= 0 && a < k, "KMeansI: instance %d in cluster %d of %d", i, a, k)
	}
	m.Check(sameM(D, keep), "k-means modified its input")
	m.Check(sameM(keep, toInt(F)), "k-means modified its input")

	// The results are copies.
	scribble(C)
	for _, c := range G {
		for _, v := range c {
			for j := range v {
				v[j] += 0.5
			}
		}
	}
	m.Check(sameM(D, keep), "the clusters alias the input")
	m.Check(sameM(keep, toInt(F)), "the clusters alias the input")
	// Values that are not integers.
	for i := range F {
		for j := range F[i] {
			F[i][j] = F[i][j]/8 + m.R.Float64()/16
		}
	}
	G = cluster.KMeansF(k, F, nil)
	seen := 0
	for c := range G {
		for i, v := range G[c] {
			ok := i >= 0 && i < n && len(v) == len(F[i])
			for j := range v {
				ok = ok && v[j] == F[i][j]
			}
			m.Check(ok, "KMeansF: instance %d became %v, was %v", i, v, F[i])
			seen++
		}
	}
	m.Check(seen == n, "KMeansF: %d of %d instances in the clusters", seen, n)

	S, _ := dataset(m, D)
	T := make([]map[int]int, n)
	for i := range S {
		T[i] = net.CopyEv(S[i])
	}
	P := cluster.KMeansDataI(k, S)
	num("KMeansDataI", len(P))
	conserved(m, "KMeansDataI", T, P)
	columns(m, "KMeansData", D, cluster.KMeansData(k, S))
	columns(m, "KMeansFData", D, ints(cluster.KMeansFData(k, S)))
	for i := range S {
		m.Check(net.SameEv(S[i], T[i]), "k-means modified instance %d of its input", i)
	}
	if n > 1 {
		m.Sig("%d|%v", k, keep)
	}
	m.Sample("k=%d over %d instances of %d variables", k, n, len(D[0]))
}

func toInt(F [][]float64) [][]int {
	D := make([][]int, len(F))
	for i := range F {
		for _, x := range F[i] {
			D[i] = append(D[i], int(x))
		}
	}
	return D
}

// modes checks that no instance is closer to the mode of another cluster than
// to its own, whichever of several equally frequent values the modes are.
func modes(m *vk.M, who string, D [][]int, g []int, k int) {
	for _, c := range g {
		if c < 0 || c >= k {
			return
		}
	}
	best := make([][]map[int]bool, k) // cluster, column: most frequent values
	size := make([]int, k)
	for _, c := range g {
		size[c]++
	}
	for c := range best {
		for j := range D[0] {
			n := map[int]int{}
			top := 0
			for i := range D {
				if g[i] == c {
					n[D[i][j]]++
					top = max(top, n[D[i][j]])
				}
			}
			b := map[int]bool{}
			for v, x := range n {
				if x == top {
					b[v] = true
				}
			}
			best[c] = append(best[c], b)
		}
	}
	for i, x := range D {
		own := 0
		for j := range x {
			if !best[g[i]][j][x[j]] {
				own++
			}
		}
		for c := range best {
			if c == g[i] || size[c] == 0 {
				continue
			}
			other := 0
			for j := range x {
				if b := best[c][j]; len(b) > 1 || !b[x[j]] {
					other++
				}
			}
			m.Check(own <= other, "%s: instance %d %v differs from its mode in %d columns, from the mode of cluster %d in at most %d (clusters %v)", who, i, x, own, c, other, g)
			m.Count("centres_compared", 1)
		}
	}
}

// centres checks that no instance is closer to the mean of another cluster than
// to that of its own.
func centres(m *vk.M, who string, D [][]int, g []int, k int) {
	mean := make([][]float64, k)
	size := make([]float64, k)
	for c := range mean {
		mean[c] = make([]float64, len(D[0]))
	}
	for i, x := range D {
		if g[i] < 0 || g[i] >= k {
			return
		}
		size[g[i]]++
		for j, v := range x {
			mean[g[i]][j] += float64(v)
		}
	}
	d := func(x []int, c int) float64 {
		s := 0.0
		for j, v := range x {
			t := float64(v) - mean[c][j]/size[c]
			s += t * t
		}
		return math.Sqrt(s)
	}
	for i, x := range D {
		own := d(x, g[i])
		for c := range mean {
			if size[c] > 0 && c != g[i] {
				o := d(x, c)
				m.Check(own <= o+1e-9*(1+o), "%s: instance %d %v is at %v from its centre and at %v from that of cluster %d (clusters %v)", who, i, x, own, o, c, g)
				m.Count("centres_compared", 1)
			}
		}
	}
}

// settling: many unstructured instances need many rounds until nothing moves.
func settling(m *vk.M) {
	n, d := 200+m.R.Intn(600), 1+m.R.Intn(3)
	k := 4 + m.R.Intn(10)
	hi := []int{60, 1000, 100000}[m.R.Intn(3)]
	D := make([][]int, n)
	for i := range D {
		for j := 0; j < d; j++ {
			D[i] = append(D[i], m.R.Intn(hi))
		}
	}
	m.Note("k=%d data %v", k, D)
	G := cluster.OldKMeansF(k, floats(D), metrics.EuclideanF)
	m.Check(len(G) == k, "OldKMeansF returned %d clusters, want %d", len(G), k)
	centres(m, "OldKMeansF", D, partition(m, "OldKMeansF", D, ints(G), id), k)
	m.Count("settling_instances", n)
	m.Sig("settling|%d|%d|%d|%d", n, d, k, D[0][0])
}

func kmodes(m *vk.M) {
	D := gen(m)
	if len(D) > 80 {
		D = D[:80]
	}
	restless := m.R.Intn(3) == 0
	if restless {
		// Unstructured instances change cluster often before it settles.
		D = make([][]int, 10+m.R.Intn(40))
		d, hi := 3+m.R.Intn(16), 2+m.R.Intn(4)
		for i := range D {
			for j := 0; j < d; j++ {
				D[i] = append(D[i], m.R.Intn(hi))
			}
		}
	}
	keep := clone(D)
	n := len(D)
	k := 1 + m.R.Intn(n)
	if restless {
		k = 2 + m.R.Intn(5)
	} else if m.R.Intn(3) != 0 && n >= 3 {
		k = 1 + m.R.Intn(3)
	}
	m.Note("k=%d data %v", k, D)
	num := func(who string, l int) { m.Check(l == k, "%s returned %d clusters, want %d", who, l, k) }
	C := cluster.KMode(k, D)
	num("KMode", len(C))
	modes(m, "KMode", D, partition(m, "KMode", D, C, id), k)
	C = cluster.KMedoid(k, D)
	num("KMedoid", len(C))
	partition(m, "KMedoid", D, C, id)
	C = cluster.OldKMeans(k, D)
	num("OldKMeans", len(C))
	modes(m, "OldKMeans", D, partition(m, "OldKMeans", D, C, id), k)
	F := floats(D)
	G := cluster.OldKMeansF(k, F, metrics.EuclideanF)
	num("OldKMeansF", len(G))
	centres(m, "OldKMeansF", D, partition(m, "OldKMeansF", D, ints(G), id), k)
	m.Check(sameM(D, keep) && sameM(toInt(F), keep), "clustering modified its input")
	// The result is a copy.
	scribble(C)
	m.Check(sameM(D, keep), "the clusters alias the input")
	if n > 1 {
		m.Sig("%d|%v", k, keep)
	}
}

func dist(a, b []int) float64 {
	s := 0.0
	for i := range a {
		s += float64(a[i]-b[i]) * float64(a[i]-b[i])
	}
	return math.Sqrt(s)
}

// components of the graph of pairs at distance at most eps.
func components(D [][]int, eps float64, in func(i int) bool) []int {
	n := len(D)
	c := make([]int, n)
	for i := range c {
		c[i] = -1
	}
	for s := range D {
		if c[s] >= 0 || !in(s) {
			continue
		}
		st := []int{s}
		c[s] = s
		for len(st) > 0 {
			p := st[len(st)-1]
			st = st[:len(st)-1]
			for q := range D {
				if c[q] < 0 && in(q) && dist(D[p], D[q]) <= eps {
					c[q] = s
					st = append(st, q)
				}
			}
		}
	}
	return c
}

// dense checks what density clustering promises about dense instances, those with at least mp others
// at distance at most eps: no instance is cut off from mp or more of its neighbours, and whoever
// shares a cluster is dense or next to a dense instance of it. Group 0 is noise if noise is set.
func dense(m *vk.M, who string, D [][]int, g []int, eps float64, mp int, noise bool) {
	n := len(D)
	near := make([][]int, n)
	for i := range D {
		for j := range D {
			if i != j && dist(D[i], D[j]) <= eps {
				near[i] = append(near[i], j)
			}
		}
	}
	size := map[int]int{}
	for _, c := range g {
		size[c]++
	}
	for i := range D {
		out, ok := 0, len(near[i]) >= mp
		for _, j := range near[i] {
			if g[j] != g[i] {
				out++
			} else if len(near[j]) >= mp {
				ok = true
			}
		}
		if !noise {
			m.Check(out == 0 || out < mp, "%s: instance %v is separated from %d of its neighbours at distance %v, with %d minimum points", who, D[i], out, eps, mp)
			m.Check(ok || size[g[i]] == 1, "%s: instance %v was joined, but neither it nor a neighbour in its cluster has %d neighbours at distance %v", who, D[i], mp, eps)
		} else if g[i] > 0 {
			m.Check(ok, "%s: instance %v is not noise, but neither it nor a neighbour in its cluster has %d neighbours at distance %v", who, D[i], mp, eps)
		}
		if out > 0 {
			m.Count("cut_neighbourhoods", 1)
		}
	}
	m.Count("density_clusterings", 1)
}

func density(m *vk.M) {
	D := shift(m, gen(m))
	keep := clone(D)
	n := len(D)
	eps := []float64{0, 0.5, 1, 1.5, 2, 4, 10, 100, 1e9}[m.R.Intn(9)]
	mp := []int{0, 1, 1, 1, 2, 3, 4, 8}[m.R.Intn(8)]
	if m.R.Intn(3) == 0 {
		// A cloud in the plane in which a neighbourhood has about the minimum number of points, so that
		// clusters grow along chains of dense instances and stop where it is too thin.
		n = 20 + m.R.Intn(100)
		mp = 1 + m.R.Intn(6)
		D = make([][]int, n)
		for i := range D {
			D[i] = []int{m.R.Intn(1000), m.R.Intn(1000)}
		}
		if m.R.Intn(4) == 0 { // a band
			for i := range D {
				D[i][1] /= 10
			}
		}
		eps = 1000 * math.Sqrt((0.5+2.5*m.R.Float64())*float64(mp)/float64(n)/math.Pi)
		keep = clone(D)
	}
	m.Note("eps=%v mp=%d data %v", eps, mp, D)
	all := components(D, eps, func(int) bool { return true })
	check := func(who string, g []int, noise bool) {
		for i := range g {
			if noise && g[i] == 0 {
				continue
			}
			// connected within its own cluster
			in := func(j int) bool { return g[j] == g[i] }
			c := components(D, eps, in)
			for j := range g {
				if in(j) {
					m.Check(c[j] == c[i], "%s: instances %v and %v are in one cluster but no chain of neighbours at distance %v connects them in it", who, D[i], D[j], eps)
				}
			}
			m.Check(all[i] >= 0, "")
			if i > 8 {
				break
			}
		}
		// never across components
		for i := range g {
			for j := range g {
				if g[i] == g[j] && !(noise && g[i] == 0) {
					m.Check(all[i] == all[j], "%s: instances %v and %v joined, not connected at distance %v", who, D[i], D[j], eps)
				}
				if !noise && mp <= 1 && all[i] == all[j] {
					m.Check(g[i] == g[j], "%s: connected instances %v and %v separated although one neighbour suffices", who, D[i], D[j])
				}
			}
		}
	}
	C := cluster.DBSCAN(D, eps, mp)
	g := partition(m, "DBSCAN", D, C, id)
	for c := range C {
		m.Check(len(C[c]) > 0, "DBSCAN: cluster %d is empty", c)
	}
	check("DBSCAN", g, false)
	dense(m, "DBSCAN", D, g, eps, mp, false)
	scribble(C)
	m.Check(sameM(D, keep), "the clusters of DBSCAN alias the input")
	if mp >= 1 {
		C = cluster.OPTICS(D, eps, mp)
		g = partition(m, "OPTICS", D, C, id)
		check("OPTICS", g, true)
		dense(m, "OPTICS", D, g, eps, mp, true)
		core := make([]bool, n)
		for i := range g { // an instance with enough neighbours is not noise
			nb := 0
			for j := range D {
				if i != j && dist(D[i], D[j]) <= eps {
					nb++
				}
			}
			m.Check(nb < mp || g[i] > 0, "OPTICS: instance %v has %d neighbours at distance %v, yet is noise", D[i], nb, eps)
			core[i] = nb >= mp
		}
		for i := range g { // neighbouring dense instances belong together
			for j := 0; j < i; j++ {
				if core[i] && core[j] && dist(D[i], D[j]) <= eps {
					m.Check(g[i] == g[j], "OPTICS: the dense instances %v and %v at distance at most %v are separated", D[i], D[j], eps)
					m.Count("dense_pairs", 1)
				}
			}
		}
	}
	S, ids := dataset(m, D)
	T := make([]map[int]int, n)
	for i := range S {
		T[i] = net.CopyEv(S[i])
	}
	P := cluster.DBSCANData(S, eps, mp)
	conserved(m, "DBSCANData", T, P)
	// per cluster connectivity of the returned instances
	var R [][]int
	var rg []int
	for c := range P {
		m.Check(len(P[c]) > 0, "DBSCANData: cluster %d is empty", c)
		M := make([][]int, len(P[c]))
		for i, I := range P[c] {
			for _, v := range ids {
				M[i] = append(M[i], I[v])
			}
		}
		for _, I := range M {
			R, rg = append(R, I), append(rg, c)
		}
		cc := components(M, eps, func(int) bool { return true })
		for i := range cc {
			m.Check(cc[i] == cc[0], "DBSCANData: cluster %d is not connected at distance %v", c, eps)
		}
	}
	dense(m, "DBSCANData", R, rg, eps, mp, false)
	if mp <= 1 {
		k := map[int]bool{}
		for _, c := range all {
			k[c] = true
		}
		m.Check(len(P) == len(k), "DBSCANData: %d clusters, %d connected components", len(P), len(k))
	}
	for i := range S {
		m.Check(net.SameEv(S[i], T[i]), "DBSCANData modified instance %d of its input", i)
	}
	m.Check(sameM(D, keep), "density clustering modified its input")
	if n > 1 {
		m.Sig("%v|%d|%v", eps, mp, keep)
	}
}

func metric(m *vk.M) {
	n := 1 + m.R.Intn(20)
	a, b := make([]int, n), make([]int, n)
	fa, fb := make([]float64, n), make([]float64, n)
	hi := []int{2, 5, 300, 100000}[m.R.Intn(4)]
	h := 0
	s := 0.0
	for i := range a {
		a[i], b[i] = m.R.Intn(hi)-hi/4, m.R.Intn(hi)-hi/4
		if m.R.Intn(3) == 0 {
			b[i] = a[i]
		}
		if a[i] != b[i] {
			h++
		}
		s += float64(a[i]-b[i]) * float64(a[i]-b[i])
		fa[i], fb[i] = float64(a[i]), float64(b[i])
	}
	e := math.Sqrt(s)
	near := func(x float64) bool { return math.Abs(x-e) <= 1e-12*(1+e) }
	m.Check(near(metrics.Euclidean(a, b)) && near(metrics.Euclidean(b, a)), "Euclidean(%v, %v) = %v, want %v", a, b, metrics.Euclidean(a, b), e)
	m.Check(near(metrics.EuclideanF(fa, fb)) && near(metrics.EuclideanF(fb, fa)), "EuclideanF(%v, %v) = %v, want %v", fa, fb, metrics.EuclideanF(fa, fb), e)
	m.Check(metrics.Hamming(a, b) == h && metrics.Hamming(b, a) == h, "Hamming(%v, %v) = %d, want %d", a, b, metrics.Hamming(a, b), h)
	m.Check(metrics.HammingF(a, b) == float64(h), "HammingF(%v, %v) = %v, want %d", a, b, metrics.HammingF(a, b), h)
	m.Check(metrics.Euclidean(a, a) == 0 && metrics.Hamming(a, a) == 0 && metrics.EuclideanF(fa, fa) == 0, "distance to itself is not zero")
	m.Count("distances", 4)
	m.Sig("%v|%v", a, b)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C13",
		Rule: "random matrices and datasets (one instance, duplicates, all equal, blobs, lines, up to 650 instances, up to 65 variables, negative values, gaps in variable ids), k from 1 to n, eps from 0 to larger than the data, 0..8 minimum points; each index exactly once with its values, connectivity recomputed by search; distinct by parameters and data",
		Assumptions: []string{
			"k is at most the number of instances; k-mode style routines get non-negative categories; at least one instance; OPTICS needs at least one point per neighbourhood and returns noise as cluster 0",
			"KMeansData and KMeansFData do not report their column order, so values are compared up to one permutation of the columns",
		},
		Workloads: []vk.Workload{
			{Name: "kmeans", Quick: 2500, Thorough: 60000, F: kmeans},
			{Name: "kmodes", Quick: 2500, Thorough: 60000, F: kmodes},
			{Name: "settling", Quick: 60, Thorough: 1500, F: settling},
			{Name: "density", Quick: 2500, Thorough: 60000, F: density},
			{Name: "metrics", Quick: 2500, Thorough: 60000, F: metric},
		},
	})
}

// C11: the Dennis-Ventura learner yields a valid normalised network.
package main

import (
	"fmt"
	"math"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/learn/dennis"
	"github.com/RenatoGeh/gospn/learn/parameters"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/utils"
)

type task struct {
	sc      map[int]*learn.Variable
	D       []map[int]int
	nv      int
	k, m, g int
	t       float64
}

func (t *task) String() string {
	return fmt.Sprintf("k=%d m=%d g=%d t=%v vars=%d data=%v", t.k, t.m, t.g, t.t, t.nv, t.D)
}

func gen(m *vk.M) *task {
	r := m.R
	t := &task{sc: map[int]*learn.Variable{}}
	t.nv = 2 + r.Intn(6)
	if r.Intn(12) == 0 {
		t.nv = 8 + r.Intn(10)
	}
	large := r.Intn(40) == 0
	if large {
		t.nv = 18 + r.Intn(16)
		if r.Intn(3) == 0 {
			t.nv = 40 + r.Intn(60)
		}
	}
	n := 1 + r.Intn(12)
	switch r.Intn(8) {
	case 0:
		n = 1
	case 1:
		n = 20 + r.Intn(40)
		if r.Intn(6) == 0 {
			n = 80 + r.Intn(200)
		}
	}
	top := []int{1, 2, 2, 4, 8, 256}[r.Intn(6)]
	for v := 0; v < t.nv; v++ {
		t.sc[v] = &learn.Variable{Varid: v, Categories: top, Name: fmt.Sprintf("X%d", v)}
	}
	mode := r.Intn(6)
	noise := r.Float64()
	for i := 0; i < n; i++ {
		I := map[int]int{}
		z := r.Intn(top)
		for v := 0; v < t.nv; v++ {
			x := r.Intn(top)
			switch {
			case mode == 0 && r.Float64() > noise: // latent class
				x = z
			case mode == 1 && v > 0 && r.Float64() > noise: // chain
				x = I[v-1]
			case mode == 2: // constant
				x = top - 1
			case mode == 3 && v%2 == 1: // equal pairs
				x = I[v-1]
			case mode == 4: // constant columns
				x = v % top
			}
			I[v] = x
		}
		if i > 0 && r.Intn(4) == 0 {
			I = net.CopyEv(t.D[r.Intn(i)])
		}
		t.D = append(t.D, I)
	}
	switch r.Intn(4) {
	case 0:
		t.k = 1
	case 1:
		t.k = -r.Intn(2)
	case 2:
		// Few distinct instances, many clusters.
		for i := range t.D {
			if d := 1 + r.Intn(3); i >= d {
				t.D[i] = net.CopyEv(t.D[r.Intn(d)])
			}
		}
		t.k = 1 + r.Intn(n)
		if t.k > 20 {
			t.k = 20
		}
	default:
		t.k = 2 + r.Intn(4)
		if t.k > n {
			t.k = n
		}
	}
	t.m = 1 + r.Intn(3)
	t.g = 1 + r.Intn(4)
	if t.nv < 6 && r.Intn(8) == 0 {
		t.m, t.g = 1+r.Intn(8), 1+r.Intn(8)
	}
	if large {
		t.m, t.g = 1+r.Intn(2), 1+r.Intn(2)
	}
	t.t = []float64{0, 0.3, 0.5, 0.7, 0.95, 1}[r.Intn(6)]
	return t
}

func judge(m *vk.M, who string, t *task, S spn.SPN, positive, density bool) *net.Net {
	m.Must(S != nil, "%s returned no network", who)
	b, err := net.Import(S)
	m.Must(err == nil, "%s: malformed network: %v", who, err)
	n := b.Net
	m.Check(n.Complete(), "%s: the network is not complete: %v", who, n)
	m.Check(n.Decomposable(), "%s: the network is not decomposable: %v", who, n)
	ok, why := n.Normalized(1e-9)
	m.Check(ok, "%s: the network is not normalised: %s", who, why)
	var ids []int
	for v := 0; v < t.nv; v++ {
		ids = append(ids, v)
	}
	m.Check(fmt.Sprint(n.Scope()) == fmt.Sprint(ids), "%s: scope %v, want %v", who, n.Scope(), ids)
	leaves := map[int][][2]float64{}
	for i := range n.N {
		x := &n.N[i]
		switch x.K {
		case net.Sum:
			m.Check(len(x.Ch) > 0, "%s: sum node without children", who)
			for _, w := range x.W {
				m.Check(w >= 0 && (!positive || w > 0), "%s: weight %v", who, w)
			}
		case net.Prod:
			m.Check(len(x.Ch) > 1, "%s: product node with %d children", who, len(x.Ch))
		case net.Gauss:
			leaves[x.Var] = append(leaves[x.Var], [2]float64{x.Mu, x.Sig})
			m.Check(x.Sig > 0 && !math.IsInf(x.Sig, 0) && !math.IsNaN(x.Mu), "%s: Gaussian leaf with mean %v and deviation %v", who, x.Mu, x.Sig)
		}
	}
	// The leaves of a variable are the Gaussians of the quantiles of its values.
	for _, v := range ids {
		X := make([]int, len(t.D))
		for i, I := range t.D {
			X[i] = I[v]
		}
		g := t.g
		if g > len(t.D) {
			g = 1
		}
		Q := utils.PartitionQuantiles(X, g)
		L := leaves[v]
		ok := len(L) == len(Q)
		for _, q := range Q {
			found := false
			for j, l := range L {
				if net.Near(l[0], q[0]) && net.Near(l[1], q[1]) {
					L = append(L[:j:j], L[j+1:]...)
					found = true
					break
				}
			}
			ok = ok && found
		}
		m.Check(ok, "%s: the leaves of x%d are %v, the quantiles of its values %v", who, v, leaves[v], Q)
		m.Count("leaf_variables", 1)
	}
	if v := n.Eval(nil)[n.Root()]; true {
		m.Check(math.Abs(v) < 1e-9, "%s: total mass is exp(%v)", who, v)
	}
	if density {
		for _, I := range t.D {
			v := n.Eval(I)[n.Root()]
			m.Check(!math.IsNaN(v) && !math.IsInf(v, 0), "%s: training instance %v has log-density %v", who, I, v)
			m.Count("densities", 1)
		}
	}
	m.Count("networks", 1)
	m.Count("nodes", len(n.N))
	return n
}

func run(m *vk.M) {
	t := gen(m)
	m.Note("%v", t)
	var keep []map[int]int
	for _, I := range t.D {
		keep = append(keep, net.CopyEv(I))
	}
	vars := map[int]learn.Variable{}
	for k, v := range t.sc {
		vars[k] = *v
	}
	same := func(who string) {
		m.Check(len(t.D) == len(keep), "%s changed the dataset", who)
		for i := range keep {
			m.Check(net.SameEv(t.D[i], keep[i]), "%s changed instance %d from %v to %v", who, i, keep[i], t.D[i])
		}
		m.Check(len(t.sc) == len(vars), "%s changed the scope", who)
		for k, v := range vars {
			m.Check(t.sc[k] != nil && *t.sc[k] == v, "%s changed variable %d of the scope", who, k)
		}
	}
	A := judge(m, "Structure", t, dennis.Structure(t.D, t.sc, t.k, t.m, t.g, t.t), true, true)
	same("Structure")
	if t.nv <= 7 {
		P := parameters.Default()
		P.LearningType = parameters.SoftGD
		if m.R.Intn(2) == 0 {
			P.LearningType = parameters.HardGD
		}
		P.BatchSize = []int{0, 1, 2, 5, 50}[m.R.Intn(5)]
		P.Eta = []float64{0.01, 0.1}[m.R.Intn(2)]
		P.Lambda = []float64{0, 0.01}[m.R.Intn(2)]
		P.Iterations = 1 + m.R.Intn(3)
		m.Note("parameters %+v", *P)
		S := dennis.LearnGD(t.D, t.sc, t.k, t.m, t.g, t.t, P, 0)
		judge(m, "LearnGD", t, S, false, true)
		same("LearnGD")
		parameters.Unbind(S)
		trains(m, t)
		same("LearnGD without normalisation")
	}
	m.Sig("%v", t)
	m.Sample("%d instances over %d variables, k=%d m=%d g=%d t=%v: %d nodes", len(t.D), t.nv, t.k, t.m, t.g, t.t, len(A.N))
}

// trains runs hard gradient training without normalisation and decay: every update adds to the
// weights of the root on the way of the instances, which were normalised before.
func trains(m *vk.M, t *task) {
	P := parameters.Default()
	P.LearningType, P.Normalize, P.Lambda = parameters.HardGD, false, 0
	P.BatchSize = []int{0, 1, 2, 5}[m.R.Intn(4)]
	P.Eta = []float64{0.1, 1}[m.R.Intn(2)]
	P.Iterations = m.R.Intn(3)
	if m.R.Intn(10) == 0 {
		P.Iterations = 3 + m.R.Intn(5)
	}
	Q := *P
	S := dennis.LearnGD(t.D, t.sc, t.k, t.m, t.g, t.t, P, 0)
	m.Must(S != nil, "LearnGD returned no network")
	m.Check(*S.Parameters() == Q, "LearnGD left the network with parameters %+v, want %+v", *S.Parameters(), Q)
	parameters.Unbind(S)
	b, err := net.Import(S)
	m.Must(err == nil, "LearnGD: malformed network: %v", err)
	grew := false
	for i := range b.Net.N {
		if x := &b.Net.N[i]; x.K == net.Sum {
			s := 0.0
			for _, w := range x.W {
				s += w
			}
			grew = grew || s > 1+1e-7
			m.Check(s > 1-1e-7, "LearnGD without decay took weight from a sum node: %v", x.W)
		}
	}
	m.Check(grew == (P.Iterations > 0), "LearnGD with %d iterations without normalisation: weights changed: %v", P.Iterations, grew)
	m.Count("trainings_without_normalisation", 1)
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C11",
		Rule: "random complete datasets (latent classes, chains, equal pairs, constant, constant columns, independent, duplicates; 1..60 instances; 2..33 variables; binary to 256-valued) and settings (k-means with any k up to the instances, one cluster, density clustering; any number of sums and Gaussians per region; all similarity thresholds), structure only and with soft/hard, batch/online gradient training; distinct by data and settings",
		Assumptions: []string{
			"datasets are complete over variables 0..n-1, n>1, with at least as many instances as clusters",
			"training uses normalisation and weight decay below 1/2",
		},
		Workloads: []vk.Workload{
			{Name: "learn", Quick: 8000, Thorough: 60000, F: run},
		},
	})
}

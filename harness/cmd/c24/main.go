// C24: classification scores account for every prediction exactly once.
package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/score"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
)

type pair struct{ p, e int }

type model struct{ ps []pair }

func (x *model) hits() int {
	h := 0
	for _, q := range x.ps {
		if q.p == q.e {
			h++
		}
	}
	return h
}

func audit(m *vk.M, what string, s *score.S, x *model, c int) {
	h := x.hits()
	m.Check(s.Hits() == h, "%s: Hits() = %d, want %d", what, s.Hits(), h)
	m.Check(s.Misses() == len(x.ps)-h, "%s: Misses() = %d, want %d", what, s.Misses(), len(x.ps)-h)
	m.Check(s.Total() == len(x.ps), "%s: Total() = %d, want %d", what, s.Total(), len(x.ps))
	M := s.ConfusionMatrix(c)
	m.Must(len(M) == c, "%s: confusion matrix has %d rows for %d classes", what, len(M), c)
	w := make([][]int, c)
	for i := range w {
		w[i] = make([]int, c)
	}
	for _, q := range x.ps {
		w[q.e][q.p]++
	}
	for i := range w {
		m.Must(len(M[i]) == c, "%s: confusion matrix row %d has %d columns", what, i, len(M[i]))
		for j := range w[i] {
			m.Check(M[i][j] == w[i][j], "%s: confusion[expected %d][predicted %d] = %d, want %d", what, i, j, M[i][j], w[i][j])
			M[i][j] = -5 // must not reach the score
		}
	}
	m.Count("scores_audited", 1)
}

// text checks the textual form: the counts, and the wrong predictions in order.
func text(m *vk.M, s string, x *model) {
	h, n := x.hits(), len(x.ps)
	for _, w := range []string{fmt.Sprintf("Hits: %d\n", h), fmt.Sprintf("Misses: %d\n", n-h), fmt.Sprintf("Total: %d\n", n)} {
		m.Check(strings.Contains(s, w), "the text lacks %q: %.300q", w, s)
	}
	if n > 0 {
		a := -1.0
		if i := strings.Index(s, "Accuracy: "); i >= 0 {
			fmt.Sscanf(s[i:], "Accuracy: %f", &a)
		}
		m.Check(math.Abs(a-float64(h)/float64(n)) < 1e-5, "the text gives accuracy %v, want %d/%d", a, h, n)
	}
	var got, want []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "Expected ") {
			got = append(got, strings.TrimSpace(l))
		}
	}
	for _, q := range x.ps {
		if q.p != q.e {
			want = append(want, fmt.Sprintf("Expected %d, got %d.", q.e, q.p))
		}
	}
	m.Check(strings.Join(got, "|") == strings.Join(want, "|"), "the text lists %d wrong predictions, want %d in order: %.300v, want %.300v", len(got), len(want), got, want)
	m.Count("texts", 1)
}

func history(m *vk.M) {
	c := 1 + m.R.Intn(6)
	if m.R.Intn(12) == 0 {
		if c = 7 + m.R.Intn(40); m.R.Intn(10) == 0 {
			c = 200 + m.R.Intn(500)
		}
	}
	k := 1 + m.R.Intn(4)
	ss := make([]*score.S, k)
	xs := make([]*model, k)
	for i := range ss {
		ss[i], xs[i] = score.NewScore(), &model{}
	}
	reg := func(i int) {
		p, e := m.R.Intn(c), m.R.Intn(c)
		ss[i].Register(p, e)
		xs[i].ps = append(xs[i].ps, pair{p, e})
		m.Count("predictions", 1)
	}
	steps := 10 + m.R.Intn(60)
	if m.R.Intn(60) == 0 && c < 100 {
		steps = 500 + m.R.Intn(1500)
	}
	for t := 0; t < steps; t++ {
		i := m.R.Intn(len(ss))
		j := m.R.Intn(len(ss))
		switch op := m.R.Intn(20); {
		case op < 12:
			reg(i)
		case op < 14:
			if len(xs[i].ps) > 2000 {
				continue
			}
			q := append([]pair(nil), xs[j].ps...)
			ss[i].Merge(ss[j])
			xs[i].ps = append(xs[i].ps, q...)
		case op < 17 && len(ss) < 12:
			if len(xs[i].ps)+len(xs[j].ps) > 4000 {
				continue
			}
			a := score.Add(ss[i], ss[j])
			ss = append(ss, a)
			xs = append(xs, &model{append(append([]pair(nil), xs[i].ps...), xs[j].ps...)})
			// The operands and the result stay independent.
			for n := 0; n < 1+m.R.Intn(3); n++ {
				reg(len(ss) - 1)
				reg(i)
				reg(j)
			}
		case op < 18:
			ss[i].Clear()
			xs[i].ps = nil
		default:
			s := ss[i].String()
			text(m, s, xs[i])
			if f := filepath.Join(m.Tmp(), "s"); m.R.Intn(4) == 0 {
				ss[i].Save(f)
				b, err := os.ReadFile(f)
				m.Check(err == nil && strings.TrimSpace(string(b)) == strings.TrimSpace(s), "Save wrote something other than the textual representation")
			}
		}
		if m.R.Intn(4) == 0 && c < 100 {
			for i := range ss {
				audit(m, "history", ss[i], xs[i], c)
			}
		}
	}
	for i := range ss {
		audit(m, "history", ss[i], xs[i], c)
	}
	m.Sig("%d", m.Seed)
	m.Sample("history over %d scores of %d classes, %d predictions in the first", len(ss), c, len(xs[0].ps))
}

// drawNet draws a network with a discrete class variable.
func drawNet(m *vk.M) (*net.Net, int, int) {
	for {
		o := net.RandOpt(m.R)
		o.Vars = 2 + m.R.Intn(5)
		o.MaxDepth = 2 + m.R.Intn(4)
		o.MaxNodes = 120
		o.Ties = false
		o.MaxCats = 2 + m.R.Intn(4)
		if m.R.Intn(12) == 0 {
			o.MaxCats = 40
		}
		o.IntMu = true
		if o.W == net.WWild || o.W == net.WFree {
			o.W = net.WNorm
		}
		n := net.Valid(m.R, o)
		if len(n.Scope()) < 2 {
			continue
		}
		cats := n.Cats()
		gauss := map[int]bool{}
		for _, x := range n.N {
			if x.K == net.Gauss {
				gauss[x.Var] = true
			}
		}
		var cs []int
		for _, v := range n.Scope() {
			if !gauss[v] && cats[v] >= 2 {
				cs = append(cs, v)
			}
		}
		if len(cs) == 0 {
			continue
		}
		// A class in the middle of the scope or at its ends.
		v := cs[m.R.Intn(len(cs))]
		return n, v, cats[v]
	}
}

// best ranks the labels under f; unique says that there is no near tie.
func best(c int, f func(l int) float64) (int, bool) {
	v := make([]float64, c)
	b := 0
	for l := range v {
		v[l] = f(l)
		if v[l] > v[b] {
			b = l
		}
	}
	s := append([]float64(nil), v...)
	sort.Float64s(s)
	if math.IsInf(s[c-1], -1) {
		return 0, false
	}
	return b, s[c-1]-s[c-2] > 1e-7+1e-12*math.Abs(s[c-1])
}

type task struct {
	T    []map[int]int
	L    []int
	post []pair // expected registrations under the posterior
	mapp []pair
}

func draw(m *vk.M, n *net.Net, cv, c, want int, forMAP bool) *task {
	t := &task{}
	root := n.Root()
	for tries := 0; len(t.T) < want && tries < 6*want+20; tries++ {
		e := n.RandEv(m.R, []float64{1, 1, 0.5, 0.8}[m.R.Intn(4)])
		full := net.CopyEv(e)
		delete(e, cv)
		post, ok := best(c, func(l int) float64 { e[cv] = l; defer delete(e, cv); return n.Eval(e)[root] })
		if !ok {
			continue
		}
		var mp int
		if forMAP {
			if mp, ok = best(c, func(l int) float64 { e[cv] = l; defer delete(e, cv); return n.MaxEval(e)[root] }); !ok {
				continue
			}
		}
		if m.R.Intn(2) == 0 {
			if _, had := full[cv]; had {
				e[cv] = full[cv]
			} else if m.R.Intn(2) == 0 {
				e[cv] = m.R.Intn(c)
			}
		}
		l := m.R.Intn(c)
		t.T = append(t.T, e)
		t.L = append(t.L, l)
		t.post = append(t.post, pair{post, l})
		t.mapp = append(t.mapp, pair{mp, l})
		m.Count("instances", 1)
	}
	return t
}

func evaluate(m *vk.M) {
	n, cv, c := drawNet(m)
	b := n.Build()
	snap := net.Take(b.Root)
	m.Note("net %v class x%d (%d)", n, cv, c)
	V := &learn.Variable{Varid: cv, Categories: c, Name: "class"}
	want := []int{0, 1, 2, 5, 9, 10, 11, 19, 23, 40}[m.R.Intn(10)]
	if m.R.Intn(3) == 0 {
		want = m.R.Intn(30)
	}
	if m.R.Intn(60) == 0 {
		want = 100 + m.R.Intn(900)
	}
	t := draw(m, n, cv, c, want, true)
	var keep []map[int]int
	for _, I := range t.T {
		keep = append(keep, net.CopyEv(I))
	}
	lk := append([]int(nil), t.L...)
	same := func(who string) {
		for i := range t.T {
			m.Check(net.SameEv(t.T[i], keep[i]), "%s changed instance %d from %v to %v", who, i, keep[i], t.T[i])
			m.Check(t.L[i] == lk[i], "%s changed label %d", who, i)
		}
		if s := snap.Changed(); s != "" {
			m.Check(false, "%s changed the network: %s", who, s)
		}
	}
	D := spn.Dataset(t.T)
	x := &model{}
	s := score.NewScore()
	if m.R.Intn(3) == 0 { // scores accumulate over evaluations
		s.Register(0, c-1)
		x.ps = append(x.ps, pair{0, c - 1})
	}
	run := func(who string, f func(s *score.S), ps []pair) {
		one := score.NewScore()
		f(one)
		audit(m, who, one, &model{ps}, c)
		same(who)
		f(s)
		x.ps = append(x.ps, ps...)
		audit(m, who+" (accumulated)", s, x, c)
	}
	run("Evaluate", func(s *score.S) { s.Evaluate(D, t.L, b.Root, V) }, t.mapp)
	run("EvaluatePosterior", func(s *score.S) { s.EvaluatePosterior(D, t.L, b.Root, V) }, t.post)
	for _, k := range []int{1, 2, 3, len(t.T), len(t.T) + 1, -1, 0}[m.R.Intn(4):] {
		if k == 0 && m.R.Intn(2) == 0 {
			continue
		}
		run("EvaluatePosteriorConc", func(s *score.S) { s.EvaluatePosteriorConc(D, t.L, b.Root, V, k) }, t.post)
	}
	// One instance at a time: each prediction against its own label.
	for i := range t.T {
		if i > 5 {
			break
		}
		o := score.NewScore()
		o.Evaluate(D[i:i+1], t.L[i:i+1], b.Root, V)
		audit(m, "Evaluate of one instance", o, &model{t.mapp[i : i+1]}, c)
		o = score.NewScore()
		o.EvaluatePosterior(D[i:i+1], t.L[i:i+1], b.Root, V)
		audit(m, "EvaluatePosterior of one instance", o, &model{t.post[i : i+1]}, c)
	}
	if len(t.T) > 0 {
		m.Sig("%s|%v|%v", n.Shape(), t.T, t.L)
	}
	m.Sample("%d instances, class x%d of %d labels, %s", len(t.T), cv, c, n.Shape())
}

// long: more predictions than sixteen bits count.
func long(m *vk.M) {
	n, c := 66000+m.R.Intn(10000), 2+m.R.Intn(300)
	s, x := score.NewScore(), &model{}
	for i := 0; i < n; i++ {
		e := m.R.Intn(c)
		p := e
		if m.R.Intn(2000) == 0 {
			p = m.R.Intn(c)
		}
		s.Register(p, e)
		x.ps = append(x.ps, pair{p, e})
	}
	u := score.Add(s, s)
	s.Merge(score.Add(s, score.NewScore()))
	text(m, s.String(), &model{append(append([]pair(nil), x.ps...), x.ps...)})
	h := 2 * x.hits()
	for _, y := range []*score.S{s, u} {
		m.Check(y.Hits() == h && y.Misses() == 2*n-h && y.Total() == 2*n, "hits %d, misses %d, total %d; want %d of %d", y.Hits(), y.Misses(), y.Total(), h, 2*n)
		M := y.ConfusionMatrix(c)
		for _, q := range x.ps {
			M[q.e][q.p] -= 2
		}
		for i := range M {
			for j := range M[i] {
				m.Check(M[i][j] == 0, "confusion of %d and %d is off by %d", i, j, M[i][j])
			}
		}
	}
	m.Count("predictions", 4*n)
	m.Sig("long|%d|%d", n, c)
}

func races(m *vk.M) {
	sys.Verbose = m.R.Intn(4) == 0
	n, cv, c := drawNet(m)
	b := n.Build()
	V := &learn.Variable{Varid: cv, Categories: c, Name: "class"}
	t := draw(m, n, cv, c, 8+m.R.Intn(40), false)
	D := spn.Dataset(t.T)
	for _, k := range []int{2, 3, 8, -1, 5} {
		one := score.NewScore()
		one.EvaluatePosteriorConc(D, t.L, b.Root, V, k)
		audit(m, "EvaluatePosteriorConc", one, &model{t.post}, c)
	}
	if len(t.T) > 0 {
		m.Sig("%s|%v|%v", n.Shape(), t.T, t.L)
	}
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C24",
		Rule: "random histories over several scores (register, merge, add, clear) against a list model; evaluation of random networks on random labelled datasets of 0..40 instances against an independent evaluator, with jobs 1..n+1 and the default; concurrent evaluation also under the race detector; distinct by history or by network, instances and labels",
		Assumptions: []string{
			"instances have positive probability and a unique best label (gap 1e-7); the best MAP label is computed on the max-product network, as C03 decides",
		},
		Workloads: []vk.Workload{
			{Name: "histories", Quick: 2500, Thorough: 60000, F: history},
			{Name: "evaluate", Quick: 2500, Thorough: 60000, F: evaluate},
			{Name: "long", Quick: 5, Thorough: 50, F: long},
			{Name: "races", Quick: 120, Thorough: 3000, Race: true, F: races},
		},
	})
}

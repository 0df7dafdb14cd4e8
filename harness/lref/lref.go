// Package lref holds reference implementations of the documented weight
// updates, on the model of package net.
package lref

import (
	"math"
	"math/rand"

	"verif/net"
)

// P are the learning parameters.
type P struct {
	Eta, Lambda float64
	Batch, Iter int
	Norm        bool
	Hard        bool
}

// L is the state of a reference learner; Ill is set when the case is
// numerically undetermined (ties, vanishing weights, overflow).
type L struct {
	N       *net.Net
	Ill     string
	Touched map[int]bool
	Updates int
	jit     *rand.Rand // perturbs the weights at every update
}

// Jitter is the relative size of the perturbations Conditioned applies.
const Jitter = 1e-13

func (l *L) jitter() {
	if l.jit == nil {
		return
	}
	for _, x := range l.N.N {
		for j := range x.W {
			x.W[j] *= 1 + Jitter*(2*l.jit.Float64()-1)
		}
	}
}

// conditioned reruns f on the starting network with the weights perturbed, at
// every step, by more than rounding can; if the outcome differs by more than a
// small part of the tolerance the case does not determine the weights.
func conditioned(start *net.Net, l *L, seed int64, f func(l *L)) {
	if l.Ill != "" {
		return
	}
	r := &L{N: start.Clone(), Touched: map[int]bool{}, jit: rand.New(rand.NewSource(seed))}
	r.jitter()
	f(r)
	if r.Ill != "" {
		l.Ill = r.Ill + " when perturbed"
		return
	}
	for i := range r.N.N {
		for j, w := range r.N.N[i].W {
			if u := l.N.N[i].W[j]; !(math.Abs(u-w) <= 1e-8*math.Max(1, math.Abs(u))) {
				l.Ill = "ill-conditioned"
				return
			}
		}
	}
}

func (l *L) normalise(i int) {
	W := l.N.N[i].W
	min := 0.0
	for _, w := range W {
		if w < min {
			min = w
		}
	}
	t, big := 0.0, 0.0
	for j := range W {
		if math.Abs(W[j]) > big {
			big = math.Abs(W[j])
		}
		if min < 0 {
			W[j] -= min
		}
		t += W[j]
	}
	if t < 1e-4*big || t == 0 {
		l.Ill = "weights cancel"
	}
	for j := range W {
		W[j] /= t
	}
}

func (l *L) sane() {
	l.jitter()
	for _, x := range l.N.N {
		for _, w := range x.W {
			if math.IsNaN(w) || math.IsInf(w, 0) || math.Abs(w) > 1e60 {
				l.Ill = "overflow"
			}
		}
	}
}

// trace counts the edges of the max-product induced tree.
func (l *L) trace(e map[int]int, cnt map[int]map[int]float64) {
	v := l.N.MaxEval(e)
	if math.IsInf(v[l.N.Root()], -1) || math.IsNaN(v[l.N.Root()]) {
		l.Ill = "zero probability"
		return
	}
	q := []int{l.N.Root()}
	for len(q) > 0 {
		i := q[0]
		q = q[1:]
		x := &l.N.N[i]
		switch x.K {
		case net.Prod:
			q = append(q, x.Ch...)
		case net.Sum:
			b, bv, sv := -1, math.Inf(-1), math.Inf(-1)
			for j, c := range x.Ch {
				u := math.Log(x.W[j]) + v[c]
				if u > bv {
					b, sv, bv = j, bv, u
				} else if u > sv {
					sv = u
				}
			}
			if b < 0 || bv-sv < 1e-6+1e-12*math.Abs(bv) {
				l.Ill = "tie"
				return
			}
			if x.W[b] < 1e-9 {
				l.Ill = "vanishing weight"
				return
			}
			if cnt[i] == nil {
				cnt[i] = map[int]float64{}
			}
			cnt[i][b]++
			q = append(q, x.Ch[b])
		}
	}
}

func newCnt() map[int]map[int]float64 { return map[int]map[int]float64{} }

// Generative runs the generative learner.
func Generative(n *net.Net, D []map[int]int, p P) *L {
	start := n.Clone()
	l := &L{N: n, Touched: map[int]bool{}}
	generative(l, D, p)
	conditioned(start, l, int64(len(D)*31+p.Iter), func(l *L) { generative(l, D, p) })
	return l
}

func generative(l *L, D []map[int]int, p P) *L {
	n := l.N
	batch := p.Batch > 1
	bs := float64(p.Batch)
	if !batch {
		bs = 1
	}
	for it := 0; it < p.Iter; it++ {
		if p.Hard {
			cnt := newCnt()
			k := 0
			flush := func() {
				for i, c := range cnt {
					W := n.N[i].W
					for j, d := range c {
						w := W[j]
						W[j] = w + p.Eta*(d/(w*bs)) - 2*p.Lambda*w
					}
					if p.Norm {
						l.normalise(i)
					}
					l.Touched[i] = true
				}
				l.Updates++
				cnt = newCnt()
				k = 0
				l.sane()
			}
			for _, e := range D {
				l.trace(e, cnt)
				if l.Ill != "" {
					return l
				}
				k++
				if float64(k) == bs {
					flush()
				}
			}
			if k > 0 {
				flush()
			}
			continue
		}
		var acc [][]float64
		k := 0
		flush := func() {
			for i := range n.N {
				x := &n.N[i]
				if x.K != net.Sum {
					continue
				}
				for j := range x.W {
					x.W[j] += p.Eta * acc[i][j] / bs
				}
				if batch {
					for j := range x.W {
						old := x.W[j] - p.Eta*acc[i][j]/bs
						x.W[j] -= 2 * p.Lambda * old
					}
				}
				if p.Norm {
					l.normalise(i)
				}
				l.Touched[i] = true
			}
			l.Updates++
			acc = nil
			k = 0
			l.sane()
		}
		for _, e := range D {
			_, _, dw := n.Deriv(e)
			if acc == nil {
				acc = make([][]float64, len(dw))
				for i := range dw {
					acc[i] = make([]float64, len(dw[i]))
				}
			}
			for i := range dw {
				for j := range dw[i] {
					acc[i][j] += math.Exp(dw[i][j])
				}
			}
			k++
			if float64(k) == bs {
				flush()
			}
			if l.Ill != "" {
				return l
			}
		}
		if k > 0 {
			flush()
		}
	}
	return l
}

// Discriminative runs the discriminative learner with label variables Y.
func Discriminative(n *net.Net, D []map[int]int, Y []int, p P) *L {
	start := n.Clone()
	l := &L{N: n, Touched: map[int]bool{}}
	discriminative(l, D, Y, p)
	conditioned(start, l, int64(len(D)*31+p.Iter), func(l *L) { discriminative(l, D, Y, p) })
	return l
}

func discriminative(l *L, D []map[int]int, Y []int, p P) *L {
	n := l.N
	bs := float64(p.Batch)
	if p.Batch <= 1 {
		bs = 1
	}
	k := 0
	cnt := map[int]map[int]float64{}
	neg := map[int]map[int]float64{}
	var acc [][]float64
	flush := func() {
		if p.Hard {
			C := newCnt()
			for i, c := range cnt {
				C[i] = map[int]float64{}
				for j, d := range c {
					C[i][j] += d
				}
			}
			for i, c := range neg {
				if C[i] == nil {
					C[i] = map[int]float64{}
				}
				for j, d := range c {
					C[i][j] -= d
				}
			}
			for i, c := range C {
				W := n.N[i].W
				for j, d := range c {
					if d != 0 {
						w := W[j]
						if w < 1e-7 {
							l.Ill = "vanishing weight"
							return
						}
						W[j] = w + p.Eta*d/(w*bs) - 2*p.Lambda*w
					}
				}
				if p.Norm {
					l.normalise(i)
				}
				l.Touched[i] = true
			}
			cnt, neg = newCnt(), newCnt()
		} else {
			for i := range n.N {
				x := &n.N[i]
				if x.K != net.Sum {
					continue
				}
				for j := range x.W {
					x.W[j] = x.W[j]*(1-2*p.Lambda) + p.Eta*acc[i][j]/bs
				}
				if p.Norm {
					l.normalise(i)
				}
				l.Touched[i] = true
			}
			acc = nil
		}
		k = 0
		l.Updates++
		l.sane()
		// Negative weights have no logarithm: the next step is undefined.
		for _, x := range n.N {
			for _, w := range x.W {
				if w < 0 {
					l.Ill = "negative weight"
				}
			}
		}
	}
	for it := 0; it < p.Iter; it++ {
		for _, e := range D {
			f := net.CopyEv(e)
			for _, y := range Y {
				delete(f, y)
			}
			if p.Hard {
				l.trace(e, cnt)
				if l.Ill == "" {
					l.trace(f, neg)
				}
			} else {
				v1, _, d1 := n.Deriv(e)
				v0, _, d0 := n.Deriv(f)
				s, z := v1[n.Root()], v0[n.Root()]
				if math.IsInf(s, -1) || math.IsInf(z, -1) {
					l.Ill = "zero probability"
					return l
				}
				if acc == nil {
					acc = make([][]float64, len(d1))
					for i := range d1 {
						acc[i] = make([]float64, len(d1[i]))
					}
				}
				for i := range d1 {
					for j := range d1[i] {
						a, b := math.Exp(d1[i][j]-s), math.Exp(d0[i][j]-z)
						if a > 1e6 || b > 1e6 {
							l.Ill = "ill-conditioned gradient"
						}
						acc[i][j] += a - b
					}
				}
			}
			if l.Ill != "" {
				return l
			}
			k++
			if float64(k) == bs {
				flush()
			}
			if l.Ill != "" {
				return l
			}
		}
	}
	if k > 0 {
		flush()
	}
	return l
}

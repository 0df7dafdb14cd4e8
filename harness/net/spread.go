package net

import "math/rand"

var shifts = []uint{8, 10, 12, 15, 16, 20, 24, 31, 32, 40}

// Spread renames the variables of n to large ids, and the values of variables
// that only have indicators to large values, so that many of them agree in
// their low bits.
func (n *Net) Spread(r *rand.Rand) *Net {
	s := shifts[r.Intn(len(shifts))]
	sc := n.Scope()
	ids := map[int]int{}
	used := map[int]bool{}
	for _, v := range sc {
		for {
			u := r.Intn(3) + r.Intn(50+2*len(sc))<<s
			if !used[u] {
				used[u] = true
				ids[v] = u
				break
			}
		}
	}
	other := map[int]bool{}
	for _, x := range n.N {
		if x.K == Multi || x.K == Gauss {
			other[x.Var] = true
		}
	}
	t := shifts[r.Intn(len(shifts))]
	for i := range n.N {
		x := &n.N[i]
		if !n.Leaf(i) {
			continue
		}
		if x.K == Ind && !other[x.Var] {
			x.Val = x.Val%2 + r.Intn(3)<<t
			if r.Intn(4) == 0 {
				x.Val = -x.Val - r.Intn(2)
			}
		}
		x.Var = ids[x.Var]
	}
	return n
}

// big draws a value of the variable v when it has indicators of large values
// only: one of these, or one that differs from it in its high bits.
func (n *Net) big(r *rand.Rand, v int) (int, bool) {
	var vals []int
	large := false
	for _, x := range n.N {
		if x.Var != v {
			continue
		}
		switch x.K {
		case Multi, Gauss:
			return 0, false
		case Ind:
			vals = append(vals, x.Val)
			large = large || x.Val > 255 || x.Val < 0
		}
	}
	if !large {
		return 0, false
	}
	y := vals[r.Intn(len(vals))]
	if r.Intn(4) == 0 {
		y = -y
	} else if r.Intn(4) == 0 {
		y += 1 << shifts[r.Intn(len(shifts))]
	}
	return y, true
}

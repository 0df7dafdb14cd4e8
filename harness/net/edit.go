package net

import (
	"math/rand"

	"github.com/RenatoGeh/gospn/spn"
)

// Edit changes the library network and its model alike, the way a client does:
// new weights in place and, if grow, further edges. It tells whether anything
// changed. The model is replaced, not modified.
func (b *Built) Edit(r *rand.Rand, grow bool) bool {
	n := b.Net.Clone()
	did := false
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := r.Intn(len(n.N))
		if i == 0 || n.Leaf(i) {
			continue
		}
		x := &n.N[i]
		if x.K == Sum && (!grow || r.Intn(2) == 0) {
			if len(x.W) < 2 {
				continue
			}
			w := Weights(r, len(x.W), WNorm)
			W := b.Nodes[i].(*spn.Sum).Weights()
			for j := range x.W {
				if x.W[j] != 0 || r.Intn(2) == 0 {
					x.W[j] = w[j]
				}
				W[j] = x.W[j]
			}
			did = true
		} else if grow {
			c := r.Intn(i)
			x.Ch = append(x.Ch, c)
			if s, ok := b.Nodes[i].(*spn.Sum); ok {
				w := 0.1 + r.Float64()
				s.AddChildW(b.Nodes[c], w)
				x.W = append(x.W, w)
			} else {
				b.Nodes[i].AddChild(b.Nodes[c])
			}
			did = true
		}
	}
	b.Net = n
	return did
}

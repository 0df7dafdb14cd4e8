// C12: the Poon-Domingos learner yields a valid network over all pixels.
package main

import (
	"fmt"
	"math"
	"os"

	"verif/net"
	"verif/vk"

	"github.com/RenatoGeh/gospn/learn/poon"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils"
)

type task struct {
	w, h, r, m, g int
	D             []map[int]int
}

func (t *task) String() string {
	return fmt.Sprintf("w=%d h=%d r=%d m=%d g=%d data=%v", t.w, t.h, t.r, t.m, t.g, t.D)
}

func gen(m *vk.M) *task {
	r := m.R
	t := &task{}
	t.r = 1 + r.Intn(3)
	for {
		t.w, t.h = t.r*(1+r.Intn(4)), t.r*(1+r.Intn(4))
		if t.w*t.h <= 24 {
			break
		}
	}
	n := 1 + r.Intn(6)
	if r.Intn(6) == 0 {
		n = 7 + r.Intn(8)
	}
	if r.Intn(60) == 0 && t.w*t.h <= 9 {
		n = 50 + r.Intn(80)
	}
	top := []int{1, 2, 4, 8, 256}[r.Intn(5)]
	mode := r.Intn(5)
	for i := 0; i < n; i++ {
		I := map[int]int{}
		z := r.Intn(top)
		for p := 0; p < t.w*t.h; p++ {
			x := r.Intn(top)
			switch {
			case mode == 0: // constant image
				x = z
			case mode == 1 && p%t.w > 0 && r.Intn(4) > 0: // smooth
				x = I[p-1]
			case mode == 2: // gradient
				x = (p%t.w + z) % top
			case mode == 3:
				x = top - 1
			}
			I[p] = x
		}
		if i > 0 && r.Intn(4) == 0 {
			I = net.CopyEv(t.D[r.Intn(i)])
		}
		t.D = append(t.D, I)
	}
	t.m = 1 + r.Intn(4)
	t.g = 1 + r.Intn(4)
	if t.w*t.h <= 9 && r.Intn(6) == 0 {
		t.m, t.g = 1+r.Intn(10), 1+r.Intn(12)
	}
	return t
}

func judge(m *vk.M, who string, t *task, S spn.SPN, norm bool) *net.Net {
	m.Must(S != nil, "%s returned no network", who)
	b, err := net.Import(S)
	m.Must(err == nil, "%s: malformed network: %v", who, err)
	n := b.Net
	for i := range n.N {
		x := &n.N[i]
		switch x.K {
		case net.Sum:
			m.Must(len(x.Ch) > 0, "%s: sum node without children", who)
			for _, w := range x.W {
				m.Check(w >= 0 && !math.IsInf(w, 0), "%s: weight %v", who, w)
			}
		case net.Prod:
			m.Must(len(x.Ch) > 0, "%s: product node without children", who)
		case net.Gauss:
			m.Check(x.Sig > 0 && !math.IsInf(x.Sig, 0) && !math.IsNaN(x.Mu), "%s: Gaussian leaf with mean %v and deviation %v", who, x.Mu, x.Sig)
		}
	}
	for i, sc := range n.Scopes() {
		x1, y1, x2, y2 := t.w, t.h, -1, -1
		for p := range sc {
			x1, y1 = min(x1, p%t.w), min(y1, p/t.w)
			x2, y2 = max(x2, p%t.w), max(y2, p/t.w)
		}
		if !m.Check(len(sc) > 0 && (x2-x1+1)*(y2-y1+1) == len(sc), "%s: the pixels %v of node %d are no rectangle of the %dx%d image", who, net.Keys(sc), i, t.w, t.h) {
			break
		}
		m.Count("rectangular_scopes", 1)
	}
	// Leaves are Gaussians of the quantiles of the values of their pixel.
	quant := map[int][][]float64{}
	for i := range n.N {
		x := &n.N[i]
		if x.K != net.Gauss {
			continue
		}
		if quant[x.Var] == nil {
			X := make([]int, len(t.D))
			for j, I := range t.D {
				X[j] = I[x.Var]
			}
			quant[x.Var] = [][]float64{}
			for _, q := range utils.PartitionQuantiles(X, t.g) {
				quant[x.Var] = append(quant[x.Var], []float64{q[0], q[1]})
			}
		}
		ok := false
		for _, q := range quant[x.Var] {
			ok = ok || net.Near(x.Mu, q[0]) && net.Near(x.Sig, q[1])
		}
		if !m.Check(ok, "%s: a leaf of pixel %d has mean %v and deviation %v, the quantiles of its values are %v", who, x.Var, x.Mu, x.Sig, quant[x.Var]) {
			break
		}
	}
	m.Check(n.Complete(), "%s: the network is not complete: %v", who, n)
	m.Check(n.Decomposable(), "%s: the network is not decomposable: %v", who, n)
	if norm {
		ok, why := n.Normalized(1e-9)
		m.Check(ok, "%s: the network is not normalised: %s", who, why)
	}
	var ids []int
	for v := 0; v < t.w*t.h; v++ {
		ids = append(ids, v)
	}
	m.Check(fmt.Sprint(n.Scope()) == fmt.Sprint(ids), "%s: scope %v, want all %dx%d pixels", who, n.Scope(), t.w, t.h)
	for _, I := range t.D {
		v := n.Eval(I)[n.Root()]
		m.Check(!math.IsNaN(v) && !math.IsInf(v, 0), "%s: training image %v has log-density %v", who, I, v)
		m.Count("densities", 1)
	}
	m.Count("networks", 1)
	m.Count("nodes", len(n.N))
	return n
}

func run(m *vk.M) {
	t := gen(m)
	m.Note("%v", t)
	dir := m.Tmp()
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir("/")
	sys.Width, sys.Height, sys.Max = t.w, t.h, 256
	var keep []map[int]int
	for _, I := range t.D {
		keep = append(keep, net.CopyEv(I))
	}
	same := func(who string) {
		m.Check(len(t.D) == len(keep), "%s changed the dataset", who)
		for i := range keep {
			m.Check(net.SameEv(t.D[i], keep[i]), "%s changed image %d from %v to %v", who, i, keep[i], t.D[i])
		}
	}
	A := judge(m, "Structure", t, poon.Structure(t.D, t.m, t.g, t.r), false)
	same("Structure")
	eta := []float64{0.01, 0.1}[m.R.Intn(2)]
	if m.R.Intn(2) == 0 {
		judge(m, "LearnGD", t, poon.LearnGD(t.D, t.m, t.g, t.r, eta, 1), true)
	} else {
		judge(m, "BindedGD", t, poon.BindedGD(t.m, t.g, t.r, eta, 1)(nil, t.D), true)
	}
	same("LearnGD")
	m.Sig("%v", t)
	m.Sample("%d images of %dx%d, resolution %d, m=%d g=%d: %d nodes", len(t.D), t.w, t.h, t.r, t.m, t.g, len(A.N))
}

// codes monitors the region encoding: every rectangle of a small image, random
// rectangles of large ones. Learning a structure sets the image size.
func codes(m *vk.M) {
	r := m.R
	t := &task{m: 1 + r.Intn(2), g: 1 + r.Intn(2)}
	if m.Idx%2 == 0 {
		t.r, t.w, t.h = 1, 1+r.Intn(6), 1+r.Intn(6)
	} else {
		t.r = 3 + r.Intn(4)
		t.w, t.h = t.r*(1+r.Intn(4)), t.r*(1+r.Intn(4))
	}
	if m.Idx%25 == 3 { // long and thin
		t.r, t.m, t.g = 1, 1, 1
		t.w, t.h = 1, 200+r.Intn(120)
		if r.Intn(2) == 0 {
			t.w, t.h = t.h, t.w
		}
	}
	w, h := t.w, t.h
	m.Note("image %dx%d", w, h)
	sys.Width, sys.Height, sys.Max = w, h, 256
	I := map[int]int{}
	for p := 0; p < w*h; p++ {
		I[p] = r.Intn(4)
	}
	t.D = []map[int]int{I}
	judge(m, "Structure", t, poon.Structure(t.D, t.m, t.g, t.r), false)
	seen := map[uint64]string{}
	try := func(x1, y1, x2, y2 int) {
		k := poon.Encode(x1, y1, x2, y2)
		a, b, c, d := poon.Decode(k)
		s := fmt.Sprint(x1, y1, x2, y2)
		m.Check(a == x1 && b == y1 && c == x2 && d == y2, "image %dx%d: (%s) encodes to %d, which decodes to (%d %d %d %d)", w, h, s, k, a, b, c, d)
		if o, ok := seen[k]; ok && o != s {
			m.Check(false, "image %dx%d: (%s) and (%s) have the same code %d", w, h, s, o, k)
		}
		seen[k] = s
		m.Count("rectangles", 1)
	}
	if w*h <= 49 {
		for x1 := 0; x1 <= w; x1++ {
			for x2 := x1; x2 <= w; x2++ {
				for y1 := 0; y1 <= h; y1++ {
					for y2 := y1; y2 <= h; y2++ {
						try(x1, y1, x2, y2)
					}
				}
			}
		}
	} else {
		for i := 0; i < 3000; i++ {
			x1, y1 := r.Intn(w+1), r.Intn(h+1)
			try(x1, y1, x1+r.Intn(w-x1+1), y1+r.Intn(h-y1+1))
		}
	}
	m.Sig("%d %d", w, h)
}

// trains monitors that training has an effect: with a very high learning rate, an alternative that
// no image takes is left with hardly any of the weight that its sum node gives to the others.
func trains(m *vk.M) {
	dir := m.Tmp()
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir("/")
	small := func(t *task, eta float64) (k int) {
		var S spn.SPN
		if m.Idx%2 == 0 {
			S = poon.LearnGD(t.D, t.m, t.g, t.r, eta, 1)
		} else {
			S = poon.BindedGD(t.m, t.g, t.r, eta, 1)(nil, t.D)
		}
		b, err := net.Import(S)
		m.Must(err == nil, "LearnGD: malformed network: %v", err)
		for i := range b.Net.N {
			for _, w := range b.Net.N[i].W {
				if w < 1e-6 {
					k++
				}
			}
		}
		return k
	}
	for k := 0; k < 60; k++ {
		t := gen(m)
		t.m, t.g = 2+m.R.Intn(2), 2+m.R.Intn(2)
		sys.Width, sys.Height, sys.Max = t.w, t.h, 256
		a, b := small(t, 0), small(t, 1e12)
		m.Check(a == 0, "training at rate 0 leaves %d weights next to zero", a)
		if b > 0 {
			m.Count("trainings_with_effect", 1)
			m.Count("trainings_tried", k+1)
			m.Sig("%v", t)
			return
		}
	}
	m.Check(false, "training has no effect on any of 60 image sets")
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C12",
		Rule: "random image sets (constant, smooth, gradient, noise, duplicates; 1..14 images up to 24 pixels, resolutions 1..3 with every aspect including a single region, any number of sums and Gaussians per region), structure only and with gradient training; region codes of every rectangle of small images and random rectangles of images up to 24x24; distinct by images and settings",
		Assumptions: []string{
			"image dimensions are multiples of the resolution and are set in sys.Width and sys.Height; at least one image",
		},
		Workloads: []vk.Workload{
			{Name: "learn", Quick: 3000, Thorough: 30000, F: run},
			{Name: "trains", Quick: 20, Thorough: 100, F: trains},
			{Name: "codes", Quick: 200, Thorough: 400, F: codes},
		},
	})
}

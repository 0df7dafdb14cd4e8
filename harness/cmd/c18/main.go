// C18: queue and stack behave as a FIFO and a LIFO for every operation history.
package main

import (
	"verif/vk"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/sys"
)

func history(m *vk.M, stack, big bool) {
	if m.R.Intn(3) == 0 {
		sys.MemLowBoundShrink = []int{0, 1, 2, 5, 16}[m.R.Intn(5)]
		defer func() { sys.MemLowBoundShrink = 1024 }()
	}
	var c common.Collection
	q, s := &common.Queue{}, &common.Stack{}
	c = q
	if stack {
		c = s
	}
	var w []interface{} // model: front first
	next := 0
	steps := 60 + m.R.Intn(200)
	if big {
		steps = 3000 + m.R.Intn(5000)
	}
	phase := 5
	audit := func(full bool) {
		m.Check(c.Size() == len(w), "Size() = %d, want %d", c.Size(), len(w))
		m.Check(c.Empty() == (len(w) == 0), "Empty() = %v with %d elements", c.Empty(), len(w))
		if len(w) > 0 {
			p := w[0]
			if stack {
				p = w[len(w)-1]
			}
			m.Check(c.Peek() == p, "Peek() = %v, want %v", c.Peek(), p)
			for k := 0; k < 2; k++ {
				i := m.R.Intn(len(w))
				m.Check(c.Get(i) == w[i], "Get(%d) = %v, want %v", i, c.Get(i), w[i])
			}
		}
		if full {
			for i := range w {
				if !m.Check(c.Get(i) == w[i], "Get(%d) = %v, want %v", i, c.Get(i), w[i]) {
					return
				}
			}
		}
	}
	take := func() {
		var g, x interface{}
		if stack {
			x = w[len(w)-1]
			w = w[:len(w)-1]
			if m.R.Intn(2) == 0 {
				g = s.Pop()
			} else {
				g = c.Take()
			}
		} else {
			x = w[0]
			w = w[1:]
			if m.R.Intn(2) == 0 {
				g = q.Dequeue()
			} else {
				g = c.Take()
			}
		}
		m.Check(g == x, "removed %v, want %v", g, x)
	}
	for i := 0; i < steps; i++ {
		if i%50 == 0 {
			phase = 2 + m.R.Intn(7)
		}
		op := m.R.Intn(10)
		switch {
		case op < phase || len(w) == 0:
			var e interface{} = next
			switch m.R.Intn(12) {
			case 0:
				e = nil
			case 1:
				e = "s"
			case 2:
				e = next / 2 // equal elements
			}
			next++
			switch {
			case m.R.Intn(2) == 0:
				c.Give(e)
			case stack:
				s.Push(e)
			default:
				q.Enqueue(e)
			}
			w = append(w, e)
		case m.R.Intn(60) == 0:
			r := c.Invert()
			m.Check(r == c, "Invert returned another collection")
			v := make([]interface{}, len(w))
			for k, e := range w {
				v[len(w)-1-k] = e
			}
			w = v
			audit(true)
		case m.R.Intn(60) == 0:
			c.Shrink()
			audit(true)
		case m.R.Intn(200) == 0:
			c.Reset()
			w = nil
		case !stack && m.R.Intn(3) == 0:
			x := w[len(w)-1]
			w = w[:len(w)-1]
			g := q.DequeueBack()
			m.Check(g == x, "DequeueBack() = %v, want %v", g, x)
		default:
			take()
		}
		m.Count("operations", 1)
		audit(m.R.Intn(40) == 0)
	}
	audit(true)
	for len(w) > 0 {
		take()
		audit(false)
	}
	m.Sig("%d", m.Seed)
	m.Sample("stack=%v %d operations, %d elements given", stack, steps, next)
}

// threshold crosses the shrinking bound of 1024 elements.
func threshold(m *vk.M, stack bool) {
	n := 1020 + m.R.Intn(3000)
	if m.Idx%20 < 2 {
		n = 10000 + m.R.Intn(150000)
	}
	q, s := &common.Queue{}, &common.Stack{}
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			if stack {
				s.Push(i)
			} else {
				q.Enqueue(i)
			}
		}
		lo, hi := 0, n
		inv := m.R.Intn(2) == 0
		var c common.Collection = q
		if stack {
			c = s
		}
		if inv {
			r := c.Invert()
			m.Check(r == c, "Invert returned another collection")
		}
		at := func(i int) int { // element at position i of what was given
			if inv {
				return n - 1 - i
			}
			return i
		}
		for lo < hi {
			if m.R.Intn(200) == 0 {
				k := m.R.Intn(hi - lo)
				m.Check(c.Get(k) == at(lo+k), "Get(%d) = %v, want %v", k, c.Get(k), at(lo+k))
				p := lo
				if stack {
					p = hi - 1
				}
				m.Check(c.Peek() == at(p), "Peek() = %v, want %v", c.Peek(), at(p))
			}
			var g interface{}
			x := hi - 1
			switch {
			case stack:
				g = s.Pop()
				hi--
			case m.R.Intn(3) == 0:
				g = q.DequeueBack()
				hi--
			default:
				g = q.Dequeue()
				x = lo
				lo++
			}
			x = at(x)
			if !m.Check(g == x, "removed %v, want %v with %d of %d left", g, x, hi-lo, n) {
				return
			}
			sz := q.Size()
			if stack {
				sz = s.Size()
			}
			if !m.Check(sz == hi-lo, "Size() = %d, want %d", sz, hi-lo) {
				return
			}
		}
		m.Count("threshold_crossings", 1)
	}
	m.Sig("%d", n)
}

func main() {
	w := []vk.Workload{
		{Name: "queue", Quick: 16000, Thorough: 160000, F: func(m *vk.M) { history(m, false, false) }},
		{Name: "stack", Quick: 12000, Thorough: 120000, F: func(m *vk.M) { history(m, true, false) }},
		{Name: "bigqueue", Quick: 400, Thorough: 2000, F: func(m *vk.M) { history(m, false, true) }},
		{Name: "bigstack", Quick: 300, Thorough: 1000, F: func(m *vk.M) { history(m, true, true) }},
		{Name: "threshold", Quick: 600, Thorough: 1000, F: func(m *vk.M) { threshold(m, m.Idx%2 == 0) }},
	}
	vk.Main(&vk.Prop{
		ID:          "C18",
		Rule:        "random operation histories against a sequence model, with the shrinking threshold at its default and at small values; every history is distinct by its seed",
		Assumptions: []string{"elements are removed or peeked only when present"},
		Workloads:   w,
	})
}

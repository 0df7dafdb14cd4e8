// C15: the bounded concurrency queue runs each job once, within its limit, and waits.
package main

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/vk"

	"github.com/RenatoGeh/gospn/conc"
)

// episode submits jobs from one or several goroutines and waits.
func episode(m *vk.M, q *conc.SingleQueue, limit, jobs, submitters int, delay func() func()) {
	var running, peak, total int64
	ran := make([]int64, jobs)  // atomic: executions per slot
	done := make([]int32, jobs) // plain: read after Wait only
	gotid := make([]int, jobs)  // plain
	scheme := m.R.Intn(6)
	ident := func(slot int) int {
		switch scheme {
		case 0:
			return slot*7 - 3
		case 1:
			return slot % 5 // repeated
		case 2:
			return -slot
		case 3:
			return 1<<62 - slot
		}
		return slot
	}
	var order []int32
	var omu sync.Mutex
	submit := func(slot int) {
		id := ident(slot)
		d := delay()
		q.Run(func(i int) {
			r := atomic.AddInt64(&running, 1)
			for {
				p := atomic.LoadInt64(&peak)
				if r <= p || atomic.CompareAndSwapInt64(&peak, p, r) {
					break
				}
			}
			atomic.AddInt64(&total, 1)
			atomic.AddInt64(&ran[slot], 1)
			omu.Lock()
			order = append(order, int32(slot))
			omu.Unlock()
			d()
			gotid[slot] = i
			done[slot] = 1
			atomic.AddInt64(&running, -1)
		}, id)
	}
	if submitters <= 1 {
		for s := 0; s < jobs; s++ {
			submit(s)
		}
	} else {
		var wg sync.WaitGroup
		for k := 0; k < submitters; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for s := k; s < jobs; s += submitters {
					submit(s)
				}
			}(k)
		}
		wg.Wait()
	}
	q.Wait()
	left := atomic.LoadInt64(&running)
	m.Check(left == 0, "Wait returned while %d jobs were running", left)
	bad := 0
	for s := 0; s < jobs; s++ {
		if done[s] != 1 {
			bad++
		}
	}
	m.Check(bad == 0, "Wait returned before %d of %d submitted jobs had finished", bad, jobs)
	for s := 0; s < jobs && bad == 0; s++ {
		m.Check(atomic.LoadInt64(&ran[s]) == 1, "job %d ran %d times", s, ran[s])
		m.Check(gotid[s] == ident(s), "job %d got id %d, not %d", s, gotid[s], ident(s))
	}
	m.Check(atomic.LoadInt64(&total) == int64(jobs), "%d executions of %d jobs", total, jobs)
	pk := atomic.LoadInt64(&peak)
	m.Check(pk <= int64(limit), "%d jobs ran at the same time, the limit is %d", pk, limit)
	m.Count("jobs_run", jobs)
	m.Count("episodes", 1)
	if pk == int64(limit) {
		m.Count("episodes_reaching_the_limit", 1)
	}
	inv := 0
	for i := 1; i < len(order); i++ {
		if order[i] < order[i-1] {
			inv++
		}
	}
	m.Sig("%d|%d|%d|%d|%d", limit, jobs, submitters, pk, inv)
}

func delays(m *vk.M) func() func() {
	mode := m.R.Intn(6)
	var mu sync.Mutex
	n := func(k int) int { mu.Lock(); defer mu.Unlock(); return m.R.Intn(k) }
	return func() func() {
		switch mode {
		case 0:
			return func() {}
		case 1:
			return func() { runtime.Gosched() }
		case 2:
			d := time.Duration(n(400)) * time.Microsecond
			return func() { time.Sleep(d) }
		case 3: // few long jobs among short ones
			if n(10) == 0 {
				return func() { time.Sleep(5 * time.Millisecond) }
			}
			return func() {}
		case 4:
			k := n(3000)
			return func() {
				x := 0
				for i := 0; i < k; i++ {
					x += i * i
				}
				atomic.AddInt64(&sink, int64(x))
			}
		default:
			g := n(20)
			return func() {
				for i := 0; i < g; i++ {
					runtime.Gosched()
				}
			}
		}
	}
}

var sink int64

func limitOf(m *vk.M) (*conc.SingleQueue, int) {
	n := []int{1, 1, 2, 3, 4, 8, 17, 0, -3}[m.R.Intn(9)]
	if m.R.Intn(20) == 0 {
		n = []int{32, 64, 65, 100, 150, 300}[m.R.Intn(6)]
	}
	q := conc.NewSingleQueue(n)
	if n <= 0 {
		n = runtime.NumCPU()
	}
	m.Check(q.Allowed() == n, "Allowed() = %d, want %d", q.Allowed(), n)
	return q, n
}

func stress(m *vk.M) {
	q, limit := limitOf(m)
	for k := 0; k < 1+m.R.Intn(4); k++ { // reuse of the queue
		jobs := []int{0, 1, limit - 1, limit, limit + 1, 3 * limit, 40, 200}[m.R.Intn(8)]
		if m.R.Intn(60) == 0 {
			jobs = 1000 + m.R.Intn(2000)
			if m.R.Intn(5) == 0 {
				jobs = 5000 + m.R.Intn(5000)
			}
		}
		if jobs < 0 {
			jobs = 0
		}
		sub := []int{1, 1, 1, 2, 5}[m.R.Intn(5)]
		m.Note("limit %d jobs %d submitters %d", limit, jobs, sub)
		m.Sample("limit %d jobs %d submitters %d", limit, jobs, sub)
		episode(m, q, limit, jobs, sub, delays(m))
	}
}

// full checks that the whole limit can run at the same time: every job waits
// for all the others.
func full(m *vk.M) {
	q, limit := limitOf(m)
	for round := 0; round < 2; round++ {
		var arrived int64
		all := make(chan struct{})
		var timeouts int64
		for i := 0; i < limit; i++ {
			q.Run(func(int) {
				if atomic.AddInt64(&arrived, 1) == int64(limit) {
					close(all)
				}
				select {
				case <-all:
				case <-time.After(20 * time.Second):
					atomic.AddInt64(&timeouts, 1)
				}
			}, i)
		}
		q.Wait()
		m.Must(timeouts == 0, "%d jobs never ran at the same time (limit %d)", limit, limit)
		m.Count("full_limit_barriers", 1)
		m.Sig("full|%d|%d", limit, round)
	}
}

// blocked checks that Run holds the caller back while the limit is reached and
// lets it go when one job finishes, whichever it is.
func blocked(m *vk.M) {
	n := 1 + m.R.Intn(5)
	q := conc.NewSingleQueue(n)
	rel := make([]chan struct{}, n+3)
	for i := range rel {
		rel[i] = make(chan struct{})
	}
	var started int64
	for i := 0; i < n; i++ {
		i := i
		q.Run(func(int) { atomic.AddInt64(&started, 1); <-rel[i] }, i)
	}
	extra := 1 + m.R.Intn(3)
	fin := make(chan struct{})
	go func() {
		for k := 0; k < extra; k++ {
			k := k
			q.Run(func(int) { atomic.AddInt64(&started, 1); <-rel[n+k] }, n+k)
		}
		close(fin)
	}()
	time.Sleep(time.Duration(1+m.R.Intn(8)) * time.Millisecond)
	s := atomic.LoadInt64(&started)
	m.Check(s <= int64(n), "%d jobs started at the limit %d", s, n)
	for _, i := range m.R.Perm(n) {
		close(rel[i])
	}
	for k := 0; k < extra; k++ {
		close(rel[n+k])
	}
	<-fin // a lost wake-up is seen by the deadlock watchdog
	q.Wait()
	m.Check(atomic.LoadInt64(&started) == int64(n+extra), "%d of %d jobs started", started, n+extra)
	m.Count("blocked_submissions", extra)
	m.Sig("blocked|%d|%d", n, extra)
}

// visible checks, under the race detector, that Wait orders the jobs' plain
// writes before the waiter's reads.
func visible(m *vk.M) {
	q, limit := limitOf(m)
	for k := 0; k < 3; k++ {
		n := 1 + m.R.Intn(3*limit+3)
		out := make([]int, n)
		shared := map[int]int{}
		var mu sync.Mutex
		for i := 0; i < n; i++ {
			q.Run(func(id int) {
				out[id] = id*id + 1
				mu.Lock()
				shared[id]++
				mu.Unlock()
			}, i)
		}
		q.Wait()
		for i, v := range out {
			m.Check(v == i*i+1, "slot %d holds %d after Wait", i, v)
		}
		m.Check(len(shared) == n, "%d of %d jobs recorded", len(shared), n)
		m.Count("plain_writes_checked", n)
		m.Sig("visible|%d|%d", limit, n)
	}
}

func main() {
	vk.Main(&vk.Prop{
		ID:   "C15",
		Rule: "stress episodes over limits, job counts, submitters and injected delays; distinct by (limit, jobs, submitters, peak concurrency, inversions of the start order)",
		Assumptions: []string{"jobs return normally", "no thread running for 60 s of wall time counts as blocked forever",
			"limit jobs that meet at a barrier get 20 s to start"},
		Workloads: []vk.Workload{
			{Name: "stress", Quick: 4000, Thorough: 30000, F: stress},
			{Name: "full", Quick: 400, Thorough: 3000, F: full},
			{Name: "blocked", Quick: 800, Thorough: 8000, F: blocked},
			{Name: "race-visible", Quick: 900, Thorough: 6000, Race: true, F: visible},
			{Name: "race-stress", Quick: 700, Thorough: 6000, Race: true, F: stress},
		},
	})
}

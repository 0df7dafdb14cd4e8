From 753215f506a4c04933a2c6c4e2d64206d854f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:49 +0000
Subject: [PATCH 01/66] fix: topological sorts emit children before parents
 when a child is reachable at several depths

---
 spn/topo.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/spn/topo.go b/spn/topo.go
index a8572fd..737bc76 100644
--- a/spn/topo.go
+++ b/spn/topo.go
@@ -43,10 +43,14 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
+		if V[u] {
+			// Already emitted through a deeper path.
+			continue
+		}
 		if P[u] {
+			V[u] = true
 			C.Give(u)
 			continue
 		}
@@ -54,9 +58,8 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -77,10 +80,14 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
+		if V[u] {
+			// Already emitted through a deeper path.
+			continue
+		}
 		if P[u] {
+			V[u] = true
 			C.Give(u)
 			if !f(u) {
 				return C
@@ -91,9 +98,8 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -111,12 +117,16 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 	}
 
 	S.Push(G)
-	V[G] = true
 
 	for !S.Empty() {
 		s := S.Pop().(SPN)
+		if V[s] {
+			// Already emitted through a deeper path.
+			continue
+		}
 		ch := s.Ch()
 		if len(ch) == 0 {
+			V[s] = true
 			C.Give(s)
 		} else {
 			var m []SPN
@@ -126,12 +136,12 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 				}
 			}
 			if len(m) == 0 {
+				V[s] = true
 				C.Give(s)
 			} else {
 				S.Push(s)
 				for _, c := range m {
 					S.Push(c)
-					V[c] = true
 				}
 			}
 		}
-- 
2.43.0


From f8ca240c74472bfe41d5a9d5f08a2098f8ba93db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:51 +0000
Subject: [PATCH 02/66] fix: inference and MAP on a network that is a single
 leaf

---
 spn/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index e0d5e1a..6264960 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -21,7 +21,7 @@ import (
 // InferenceY returns the value of S(I, Y=y). This convenience function allows for fast computation
 // of soft inference values without having to create another VarSet for each valuation of Y.
 func InferenceY(S SPN, I VarSet, Y, y int) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	J := map[int]int{Y: y}
@@ -64,7 +64,7 @@ func InferenceY(S SPN, I VarSet, Y, y int) float64 {
 
 // Inference simply returns the value of S(I), without storing values for later use.
 func Inference(S SPN, I VarSet) float64 {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return 0
 	}
 	O := common.Queue{}
@@ -104,7 +104,7 @@ func Inference(S SPN, I VarSet) float64 {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreInference creates a new ticket).
 func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1
 	}
 
@@ -162,7 +162,7 @@ func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreMAP creates a new ticket).
 func StoreMAP(S SPN, I VarSet, tk int, storage *Storer) (SPN, int, VarSet) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1, nil
 	}
 
-- 
2.43.0


From f08e7da114f2aa0da52edaa5f90df8d7d47eb1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:54 +0000
Subject: [PATCH 03/66] fix: Complete and Decomposable inspect every node, not
 only the root

---
 spn/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 6264960..b6e2477 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -402,7 +402,7 @@ func Complete(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
@@ -453,7 +453,7 @@ func Decomposable(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
-- 
2.43.0


From c01852eccb08e8f657f303d9e991686b7f6cc7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:56 +0000
Subject: [PATCH 04/66] fix: Sum.Sc returned an empty scope

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index 790eaaf..8a5c9cb 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -33,7 +33,7 @@ func (s *Sum) AddChildW(c SPN, w float64) {
 // Sc returns the scope of this node.
 func (s *Sum) Sc() []int {
 	if s.sc == nil {
-		copy(s.sc, s.ch[0].Sc())
+		s.sc = append(s.sc, s.ch[0].Sc()...)
 	}
 	return s.sc
 }
-- 
2.43.0


From 742899c7f9a8b7722a19a58d3bba4615cda0c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:59 +0000
Subject: [PATCH 05/66] fix: serialise sum weights and multinomial
 probabilities without losing precision

---
 spn/multinom.go | 2 +-
 spn/sum.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 9043ac6..299a7bf 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -220,7 +220,7 @@ func (m *Multinomial) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d %d", m.varid, len(m.pr))
 	for _, p := range m.pr {
-		fmt.Fprintf(&b, " %f", p)
+		fmt.Fprintf(&b, " %v", p)
 	}
 	return b.Bytes(), nil
 }
diff --git a/spn/sum.go b/spn/sum.go
index 8a5c9cb..bdfa512 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -138,7 +138,7 @@ func (s *Sum) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d", len(s.w))
 	for _, w := range s.w {
-		fmt.Fprintf(&b, " %f", w)
+		fmt.Fprintf(&b, " %v", w)
 	}
 	return b.Bytes(), nil
 }
-- 
2.43.0


From 9894934c2ad2f7bf10859554ed2a00b63b42dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:01 +0000
Subject: [PATCH 06/66] fix: restore the scope of indicators when loading a
 network

---
 spn/indicator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spn/indicator.go b/spn/indicator.go
index 4268f1d..6343849 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -71,5 +71,6 @@ func (i *Indicator) GobEncode() ([]byte, error) {
 func (i *Indicator) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
 	_, err := fmt.Fscanf(b, "%d %d", &i.varid, &i.v)
+	i.sc = []int{i.varid}
 	return err
 }
-- 
2.43.0


From 579df668dc0e9419491fc29bc86b07b38d334430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:04 +0000
Subject: [PATCH 07/66] fix: MAP state of an unobserved indicator is the value
 it indicates

---
 spn/indicator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/indicator.go b/spn/indicator.go
index 6343849..7b49d7c 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -48,7 +48,7 @@ func (i *Indicator) ArgMax(val VarSet) (VarSet, float64) {
 	retval := make(VarSet)
 	u, e := val[i.varid]
 	if !e || u == i.v {
-		retval[i.varid] = u
+		retval[i.varid] = i.v
 		return retval, 0
 	}
 	return retval, utils.LogZero
-- 
2.43.0


From 3d5feda85fd89eecb1961967112ccbfe26cc1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:27 +0000
Subject: [PATCH 08/66] fix: degenerate Gaussian marginalises when unobserved
 and respects evidence in MAP

---
 spn/gaussian.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 9a2f630..fec8395 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -115,7 +115,7 @@ func NewGaussianFit(varid int, counts []float64) *Gaussian {
 func (g *Gaussian) Type() string { return "leaf" }
 
 func zeroSigma(v int, ok bool, mu float64) float64 {
-	if ok && v == int(mu) {
+	if !ok || v == int(mu) {
 		return 0
 	}
 	return math.Inf(-1)
@@ -154,8 +154,12 @@ func (g *Gaussian) ArgMax(val VarSet) (VarSet, float64) {
 	v, ok := val[g.varid]
 
 	if g.dist.Sigma == 0 {
-		retval[g.varid] = int(g.dist.Mu)
-		return retval, 0.0
+		z := zeroSigma(v, ok, g.dist.Mu)
+		if !ok {
+			v = int(g.dist.Mu)
+		}
+		retval[g.varid] = v
+		return retval, z
 	} else if ok {
 		retval[g.varid] = v
 		z := g.dist.LogProb(float64(v))
-- 
2.43.0


From 0e908868947325066f56086a62546c546fdf79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:30 +0000
Subject: [PATCH 09/66] fix: NewGaussianMode is centred on the mode

---
 spn/gaussian.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index fec8395..5b34ba0 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -90,6 +90,7 @@ func NewGaussianMode(varid int, counts []int) *Gaussian {
 		c := float64(counts[i])
 		if c > max {
 			max = c
+			mode = float64(i)
 		}
 		d := float64(i) - mean
 		sd += (c / float64(N)) * d * d
-- 
2.43.0


From 60d06ee5b67485be1327cdd04270441530485f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:32 +0000
Subject: [PATCH 10/66] fix: Sum.ArgMax panicked when the evidence has zero
 probability

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index bdfa512..c5466b4 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -100,7 +100,7 @@ func (s *Sum) ArgMax(val VarSet) (VarSet, float64) {
 	for i := 0; i < n; i++ {
 		ch := s.ch[i]
 		m := math.Log(s.w[i]) + ch.Max(val)
-		if m > max {
+		if mch == nil || m > max {
 			max, mch = m, ch
 		}
 	}
-- 
2.43.0


From 117fef5fc80b728f5e5bd1a5d977690e47e3a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 11/66] fix: weight normalisation shifts negative weights up,
 not further down

---
 spn/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/utils.go b/spn/utils.go
index b6e2477..04ab724 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -265,7 +265,7 @@ func norm(v []float64) {
 	}
 	if min < 0 {
 		for i := range v {
-			v[i] += min
+			v[i] -= min
 		}
 	}
 
-- 
2.43.0


From c2f5d773aeb8188427493848369c25f3fbe176ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:37 +0000
Subject: [PATCH 12/66] fix: ComputeHeight is the longest path when nodes are
 reachable at several depths

---
 spn/utils.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 04ab724..7592519 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -307,28 +307,21 @@ func NormalizeSPN(S SPN) SPN {
 
 // ComputeHeight computes the height of a certain SPN S.
 func ComputeHeight(S SPN) int {
-	T := common.Stack{}
-	V := make(map[SPN]int)
-
-	T.Push(S)
-	V[S] = 0
+	T := common.Queue{}
+	TopSortTarjan(S, &T)
+	H := make(map[SPN]int)
 
-	var h int
 	for !T.Empty() {
-		s := T.Pop().(SPN)
-		if s.Type() == "leaf" && V[s] > h {
-			h = V[s]
-		}
+		s := T.Dequeue().(SPN)
 		ch := s.Ch()
 		for _, c := range ch {
-			if _, e := V[c]; !e {
-				T.Push(c)
-				V[c] = V[s] + 1
+			if h := H[c] + 1; h > H[s] {
+				H[s] = h
 			}
 		}
 	}
 
-	return h
+	return H[S]
 }
 
 // ComputeScope computes the scope of a certain SPN S.
-- 
2.43.0


From 5edb4a53dba2ec5216566dbc138fdc7cc8a713c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:40 +0000
Subject: [PATCH 13/66] fix: standard deviation of a multinomial weighs
 categories by their probability

---
 spn/multinom.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 299a7bf..cc6ebaf 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -195,11 +195,11 @@ func (m *Multinomial) Mean() float64 {
 func (m *Multinomial) StdDev() float64 {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return sd
 }
 
@@ -207,11 +207,11 @@ func (m *Multinomial) StdDev() float64 {
 func (m *Multinomial) MuSigma() (float64, float64) {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return mu, sd
 }
 
-- 
2.43.0


From c6bb5f1fb8f8a379804ecddbb84598829c32ca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:52 +0000
Subject: [PATCH 14/66] fix: DequeueBack removed the first element as well as
 the last

---
 common/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/queue.go b/common/queue.go
index a837b68..a54e6db 100644
--- a/common/queue.go
+++ b/common/queue.go
@@ -33,7 +33,7 @@ func (q *Queue) DequeueBack() interface{} {
 	n := len(q.data) - 1
 	e := q.data[n]
 	q.data[n] = nil
-	q.data = q.data[1:n]
+	q.data = q.data[:n]
 	if q.cap > sys.MemLowBoundShrink && q.cap >= (len(q.data)<<1) {
 		q.Shrink()
 	}
-- 
2.43.0


From ec56f874cb64c4351b54275db9d16d439b43a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:23 +0000
Subject: [PATCH 15/66] fix: DeriveSPN propagates a node's derivative only once
 it is complete

---
 learn/derive.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/learn/derive.go b/learn/derive.go
index 61344cf..0f08b68 100644
--- a/learn/derive.go
+++ b/learn/derive.go
@@ -33,10 +33,17 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 
 	table, _ := storage.Table(tk)
 	inf, _ := storage.Table(itk)
-	visited := make(map[spn.SPN]bool)
+	// Number of incoming edges yet to be derived. A node's derivative is only complete, and thus may
+	// only be propagated to its children, once all its parents have been derived.
+	pending := make(map[spn.SPN]int)
+	spn.BreadthFirst(S, func(s spn.SPN) int {
+		for _, cs := range s.Ch() {
+			pending[cs]++
+		}
+		return 0
+	})
 	table.StoreSingle(S, 0.0)
 	c.Give(S)
-	visited[S] = true
 
 	for !c.Empty() {
 		s := c.Take().(spn.SPN)
@@ -75,14 +82,14 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 		}
 
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && !visited[cs] {
+			pending[cs]--
+			if cs.Type() != "leaf" && pending[cs] == 0 {
 				c.Give(cs)
-				visited[cs] = true
 			}
 		}
 	}
 
-	visited = nil
+	pending = nil
 	c = nil
 	sys.Free()
 	return S, tk
-- 
2.43.0


From 2e895d90df20f674af0421f1fd83b87c192f0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:26 +0000
Subject: [PATCH 16/66] fix: discriminative gradient descent updates every sum
 node, not only the root

---
 learn/discriminative.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 7daa85a..70ba825 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -208,7 +208,7 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
@@ -244,7 +244,7 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
-- 
2.43.0


From b7ee5f9c87a36be012c1738b67f37720ae4e7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:28 +0000
Subject: [PATCH 17/66] fix: discriminative gradient is normalised by the value
 of the network

---
 learn/discriminative.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 70ba825..cb4d612 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -197,10 +197,10 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			W := sum.Weights()
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
+			iS, _ := ist.Single(S)
+			iZ, _ := izt.Single(S)
 			for i := range W {
-				delta := eta * (math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i]))
+				delta := eta * (math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ))
 				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
 			}
 			if norm {
@@ -235,10 +235,10 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			nw := len(sum.Weights())
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
+			iS, _ := ist.Single(S)
+			iZ, _ := izt.Single(S)
 			for i := 0; i < nw; i++ {
-				delta := math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i])
+				delta := math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ)
 				v, _ := lt.Entry(n, i)
 				lt.Store(n, i, v+delta)
 			}
-- 
2.43.0


From 4cb38a9e1c4eb038ceb95d9e43da6bf140874d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:51 +0000
Subject: [PATCH 18/66] fix: LogSum and LogSumPair returned NaN or infinity
 when a term is zero

---
 utils/log.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/log.go b/utils/log.go
index 49de4a3..02d5ec2 100644
--- a/utils/log.go
+++ b/utils/log.go
@@ -50,6 +50,9 @@ func LogSum(p []float64) float64 {
 			pi = lp
 		}
 	}
+	if math.IsInf(pi, 0) {
+		return pi
+	}
 
 	lg := 0.0
 	for i := 0; i < n; i++ {
@@ -86,6 +89,12 @@ func AntiLog(l float64) float64 {
 // LogSumPair is the result of the operation:
 // 	ln(p1+p2)=ln(p1)+ln(1+p2/p1)
 func LogSumPair(p1, p2 float64) float64 {
+	if p1 < p2 {
+		p1, p2 = p2, p1
+	}
+	if p1 == 0 {
+		return LogZero
+	}
 	return Log(p1) + Log(1.0+(p2/p1))
 }
 
-- 
2.43.0


From 98f4b155b3e637fd3b22cffb39dbe1ef254fcc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:31 +0000
Subject: [PATCH 19/66] fix: PartitionByLabels leftovers keep their own label

---
 data/manipulate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index cdcb80c..c146b20 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -157,7 +157,7 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 		for K[i] < len(R[i]) {
 			l := R[i][K[i]]
 			V := make(map[int]int)
-			copyMap(V, D[l])
+			copyMap(V, D[C[i][l]])
 			M[di] = append(M[di], V)
 			U[di] = append(U[di], i)
 			K[i]++
-- 
2.43.0


From fc4aa8f042af4abe9ffe5991c5e46c16b1720838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:33 +0000
Subject: [PATCH 20/66] fix: Divide panicked with fewer instances than parts

---
 data/manipulate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index c146b20..271ce2b 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -335,8 +335,8 @@ func Divide(D []map[int]int, L []int, n int) ([][]map[int]int, [][]int) {
 		for i, I := range D {
 			M := make(map[int]int)
 			copyMap(M, I)
-			Gd[0][i] = M
-			Gl[0][i] = L[i]
+			Gd[0] = append(Gd[0], M)
+			Gl[0] = append(Gl[0], L[i])
 		}
 		return Gd, Gl
 	}
-- 
2.43.0


From 7328a9bf35fbf209dd0068500836f46ec2137a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 21/66] fix: Identical ignored missing instances and variables

---
 data/manipulate.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 271ce2b..8458038 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -294,17 +294,25 @@ func Identical(D []map[int]int, E []map[int]int, L []int, M []int) bool {
 	if c && (len(L) != len(D) || len(M) != len(E)) {
 		panic("Length of dataset does not match length of labels.")
 	}
+	if len(D) != len(E) {
+		return false
+	}
 	for i, I := range D {
 		J := E[i]
+		if len(I) != len(J) {
+			return false
+		}
 		for k, v := range I {
-			if v != J[k] {
+			if u, e := J[k]; !e || v != u {
 				return false
 			}
 		}
 	}
-	for i, l := range L {
-		if M[i] != l {
-			return false
+	if c {
+		for i, l := range L {
+			if M[i] != l {
+				return false
+			}
 		}
 	}
 	return true
-- 
2.43.0


From d7e92434952633237edb09261c97abb48d1d6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:36 +0000
Subject: [PATCH 22/66] fix: ExtractLabels returned no label variable when
 variable ids have gaps

---
 data/manipulate.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 8458038..a5d1148 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -42,8 +42,13 @@ func copySlice(s []int) []int {
 // matrix, the label variable, and a slice where each value in index i contains the classification
 // value of the i-th element of the design matrix.
 func ExtractLabels(S map[int]*learn.Variable, D []map[int]int) (map[int]*learn.Variable, []map[int]int, *learn.Variable, []int) {
-	n, m := len(S), len(D)
-	lv := S[n-1]
+	m := len(D)
+	var lv *learn.Variable
+	for _, v := range S {
+		if lv == nil || v.Varid > lv.Varid {
+			lv = v
+		}
+	}
 	L := make([]int, m)
 	M := make([]map[int]int, m)
 
-- 
2.43.0


From e44c48dc393ea9e77bbcee109489e17d23eaeaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:38 +0000
Subject: [PATCH 23/66] fix: evaluating fewer than ten instances divided by
 zero

---
 score/score.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/score/score.go b/score/score.go
index 0265655..8052703 100644
--- a/score/score.go
+++ b/score/score.go
@@ -73,7 +73,7 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -94,7 +94,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -166,7 +166,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 				}
 				mu.Lock()
 				s.Register(ml, h[j])
-				if _n := s.total; (_n > 0) && (_n%(len(D)/10) == 0) {
+				if _n, _d := s.total, len(D)/10; (_d > 0) && (_n > 0) && (_n%_d == 0) {
 					sys.Printf("... %d%% ...\n", int(100.0*(float64(_n)/float64(len(D)))))
 				}
 				mu.Unlock()
-- 
2.43.0


From 06dba5f736c034d47524c35c16574f6eb0def62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:40 +0000
Subject: [PATCH 24/66] fix: EvaluatePosteriorConc with fewer instances than
 CPUs

---
 score/score.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/score.go b/score/score.go
index 8052703..67f22b2 100644
--- a/score/score.go
+++ b/score/score.go
@@ -143,7 +143,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 
 	k = Q.Allowed()
 	G, H := data.Divide(D, L, k)
-	for i := 0; i < k; i++ {
+	for i := range G {
 		Q.Run(func(id int) {
 			g, h := G[id], H[id]
 			st := spn.NewStorer()
-- 
2.43.0


From bc561129a6561195ed6928e0dcc8dbfd99e42b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:42 +0000
Subject: [PATCH 25/66] fix: evaluation added a label to instances that have
 none

---
 score/score.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/score/score.go b/score/score.go
index 67f22b2..14678a0 100644
--- a/score/score.go
+++ b/score/score.go
@@ -76,12 +76,14 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
+		l, e := I[v]
 		delete(I, v)
 		_, _, M := spn.StoreMAP(N, I, tk, st)
 		s.Register(M[v], L[i])
 		st.Reset(tk)
-		I[v] = l
+		if e {
+			I[v] = l
+		}
 	}
 }
 
@@ -97,7 +99,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		if n > 0 && i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
+		l, e := I[v]
 		delete(I, v)
 		spn.StoreInference(N, I, tk, st)
 		pe, _ := st.Single(tk, N)
@@ -115,7 +117,9 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		}
 		s.Register(ml, L[i])
 		st.Reset(tk)
-		I[v] = l
+		if e {
+			I[v] = l
+		}
 	}
 }
 
-- 
2.43.0


From 7c557b46eb1acbe198b798a4fe89b2e38db96c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 26/66] fix: Add could overwrite predictions of its operands

---
 score/score.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/score.go b/score/score.go
index 14678a0..f38780d 100644
--- a/score/score.go
+++ b/score/score.go
@@ -209,7 +209,8 @@ func Add(s, t *S) *S {
 	m.hits = s.hits + t.hits
 	m.misses = s.misses + t.misses
 	m.total = s.total + t.total
-	m.predictions = append(s.predictions, t.predictions...)
+	m.predictions = append(m.predictions, s.predictions...)
+	m.predictions = append(m.predictions, t.predictions...)
 	return m
 }
 
-- 
2.43.0


From 46851f045d2d14decdf012495d49ec32a45a267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 27/66] fix: KMeansData and KMeansFData lost instances by
 indexing them with the column map

---
 utils/cluster/kmeans.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index b83441a..a680e01 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -123,8 +123,8 @@ func KMeans(k int, data [][]int) []map[int][]int {
 }
 
 func KMeansData(k int, data []map[int]int) []map[int][]int {
-	D, Sc := learn.DataToMatrix(data)
-	return KMeansMuesli(k, D, Sc)
+	D, _ := learn.DataToMatrix(data)
+	return KMeansMuesli(k, D, nil)
 }
 
 func OldKMeans(k int, data [][]int) []map[int][]int {
@@ -220,8 +220,8 @@ func KMeansF(k int, D [][]float64, sc map[int]int) []map[int][]float64 {
 }
 
 func KMeansFData(k int, D []map[int]int) []map[int][]float64 {
-	E, Sc := learn.DataToMatrixF(D)
-	return KMeansMuesliF(k, E, Sc)
+	E, _ := learn.DataToMatrixF(D)
+	return KMeansMuesliF(k, E, nil)
 }
 
 func OldKMeansF(k int, D [][]float64, F metrics.MetricF) []map[int][]float64 {
-- 
2.43.0


From 612818b0477baacc16e1059e088acdd4f781cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:33 +0000
Subject: [PATCH 28/66] fix: DBSCANData indexed clusters by instance

---
 utils/cluster/dbscan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 5d52a7a..63dfd04 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -108,11 +108,11 @@ func DBSCANData(data []map[int]int, eps float64, mp int) [][]map[int]int {
 	rgs := dbscanInternal(M, eps, mp)
 	G := make([]int, len(M))
 	var k int
-	for i, u := range rgs {
+	for _, u := range rgs {
 		if u.Pa == u {
 			ch := utils.UFVarids(u)
 			for _, c := range ch {
-				G[c] = i
+				G[c] = k
 			}
 			k++
 		}
-- 
2.43.0


From 519798eb912b3a6543d69f4fdbecc18753956adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:35 +0000
Subject: [PATCH 29/66] fix: removing an instance from a k-modes cluster
 compared a count with a category

---
 utils/cluster/kmeans.go | 2 +-
 utils/cluster/kmode.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index a680e01..88a9649 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -27,7 +27,7 @@ func kMeansRemove(which int, means map[int][]int, clusters []map[int][]int, v []
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
diff --git a/utils/cluster/kmode.go b/utils/cluster/kmode.go
index 49342f1..359cd29 100644
--- a/utils/cluster/kmode.go
+++ b/utils/cluster/kmode.go
@@ -24,7 +24,7 @@ func kModeRemove(which int, means map[int][]int, clusters []map[int][]int, v []i
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
-- 
2.43.0


From a6ea11fb3dc84be876ba527df0f7055b7e760e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 30/66] fix: KMedoid panicked when there are fewer distinct
 instances than clusters

---
 utils/cluster/kmedoid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cluster/kmedoid.go b/utils/cluster/kmedoid.go
index debe94b..6ee83da 100644
--- a/utils/cluster/kmedoid.go
+++ b/utils/cluster/kmedoid.go
@@ -91,7 +91,7 @@ func KMedoid(k int, data [][]int) []map[int][]int {
 			which = v
 			min = metrics.Hamming(clusters[which][means[which]], data[i])
 		}
-		for j := 0; j < k; j++ {
+		for j := range clusters {
 			if j != which {
 				t := metrics.Hamming(clusters[j][means[j]], data[i])
 				if t < min {
-- 
2.43.0


From c36e06f79fa74eb0f97ef8283f0ae85ac9be79a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:39 +0000
Subject: [PATCH 31/66] fix: OPTICS panicked on dense neighbourhoods and never
 expanded to neighbours

---
 utils/cluster/optics.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/cluster/optics.go b/utils/cluster/optics.go
index 7d95bc2..1bb6232 100644
--- a/utils/cluster/optics.go
+++ b/utils/cluster/optics.go
@@ -83,7 +83,7 @@ func getCoreDist(nb []*object, o *object, eps float64, mp int) float64 {
 	if n < mp {
 		return undef
 	}
-	dists, p1 := make([]*objDist, n), o.data
+	dists, p1 := make([]*objDist, 0, n), o.data
 	for i := 0; i < n; i++ {
 		dists = append(dists, &objDist{dist: distance(p1, nb[i].data), index: i})
 	}
@@ -141,12 +141,12 @@ func seedsUpdate(nb []*object, o *object, pq *pQueue) {
 	for i := 0; i < n; i++ {
 		if !nb[i].vst {
 			rdist := max(cdist, distance(p1, nb[i].data))
-			if o.rdist == undef {
-				o.rdist = rdist
-				pq.Push(&item{obj: o, p: rdist})
-			} else if rdist < o.rdist {
-				o.rdist = rdist
-				pq.update(o, rdist)
+			if nb[i].rdist == undef {
+				nb[i].rdist = rdist
+				heap.Push(pq, &item{obj: nb[i], p: rdist})
+			} else if rdist < nb[i].rdist {
+				nb[i].rdist = rdist
+				pq.update(nb[i], rdist)
 			}
 		}
 	}
@@ -161,7 +161,7 @@ func expand(set []*object, o *object, eps float64, mp int, order *qObj, pq *pQue
 	if o.cdist != undef {
 		seedsUpdate(nb, o, pq)
 		for len(*pq) != 0 {
-			co := pq.Pop().(*item).obj
+			co := heap.Pop(pq).(*item).obj
 			nb := getNeighbors(set, co, eps)
 			co.vst = true
 			co.cdist = getCoreDist(nb, co, eps, mp)
-- 
2.43.0


From d6168e5c079799a3a9414e5100b7acb0e6a5ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:01 +0000
Subject: [PATCH 32/66] fix: matrix conversion panicked on an empty dataset

---
 learn/variable.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/learn/variable.go b/learn/variable.go
index fcc9157..b00c5a1 100644
--- a/learn/variable.go
+++ b/learn/variable.go
@@ -49,7 +49,7 @@ func ExtractInstance(v int, D spn.Dataset) []int {
 // variable's varid in D's scope is equivalent to its map position and the scope's maximum varid is
 // equal to the number of variables in D plus one (i.e. there are no "holes" in the scope).
 func CompleteDataToMatrix(D spn.Dataset) [][]int {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil
 	}
 	n := len(D)
@@ -66,7 +66,7 @@ func CompleteDataToMatrix(D spn.Dataset) [][]int {
 
 // DataToMatrix returns a Dataset's matrix form. Assumes a consistent dataset.
 func DataToMatrix(D spn.Dataset) ([][]int, map[int]int) {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil, nil
 	}
 	n := len(D)
@@ -98,7 +98,7 @@ func DataToMatrix(D spn.Dataset) ([][]int, map[int]int) {
 // variable's varid in D's scope is equivalent to its map position and the scope's maximum varid is
 // equal to the number of variables in D plus one (i.e. there are no "holes" in the scope).
 func CompleteDataToMatrixF(D spn.Dataset) [][]float64 {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil
 	}
 	n := len(D)
@@ -115,7 +115,7 @@ func CompleteDataToMatrixF(D spn.Dataset) [][]float64 {
 
 // DataToMatrixF returns a Dataset's matrix form. Assumes a consistent dataset.
 func DataToMatrixF(D spn.Dataset) ([][]float64, map[int]int) {
-	if D == nil || D[0] == nil {
+	if len(D) == 0 || D[0] == nil {
 		return nil, nil
 	}
 	n := len(D)
-- 
2.43.0


From e19b10ad88615e7880edd94ea546cccb960d6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:04 +0000
Subject: [PATCH 33/66] fix: variables with an empty name or blanks in it could
 not be serialised

---
 learn/variable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/learn/variable.go b/learn/variable.go
index b00c5a1..f9a92e5 100644
--- a/learn/variable.go
+++ b/learn/variable.go
@@ -23,13 +23,13 @@ type Variable struct {
 
 func (v *Variable) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
-	fmt.Fprintln(&b, v.Varid, v.Categories, v.Name)
+	fmt.Fprintf(&b, "%d %d %q\n", v.Varid, v.Categories, v.Name)
 	return b.Bytes(), nil
 }
 
 func (v *Variable) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
-	_, err := fmt.Fscanln(b, &v.Varid, &v.Categories, &v.Name)
+	_, err := fmt.Fscanf(b, "%d %d %q\n", &v.Varid, &v.Categories, &v.Name)
 	return err
 }
 
-- 
2.43.0


From 39741b50fef05b3bb211038a5c78932a28bb0a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:02 +0000
Subject: [PATCH 34/66] fix: PartitionQuantiles returned NaN for empty
 quantiles

---
 learn/poon/poon.go |  2 +-
 utils/stats.go     | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 4077f0f..aea69a2 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -111,7 +111,7 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	sort.Ints(V)
 	//sys.Printf("p: %d\n", p)
 	Q := utils.PartitionQuantiles(V, n)
-	S := make([]spn.SPN, n)
+	S := make([]spn.SPN, len(Q))
 	//s := spn.NewSum()
 	for i, q := range Q {
 		g := spn.NewGaussianParams(p, q[0], q[1])
diff --git a/utils/stats.go b/utils/stats.go
index 5f240b6..82f7d49 100644
--- a/utils/stats.go
+++ b/utils/stats.go
@@ -59,11 +59,22 @@ func MuSigma(c []int) (float64, float64) {
 // and standard deviation (in this order).
 func PartitionQuantiles(X []int, m int) [][]float64 {
 	k := len(X)
+	if m > k {
+		// There can be no more (non-empty) quantiles than values.
+		m = k
+	}
+	if m == 0 {
+		return nil
+	}
 	var l int
 	if k/m <= 1 {
 		l = 1
 	} else {
 		l = int(floats.Round(float64(k)/float64(m), 0))
+		if (m-1)*l >= k {
+			// Rounding up would leave no values for the last quantiles.
+			l = k / m
+		}
 	}
 	P := make([][]float64, m)
 	for i := 0; i < m; i++ {
-- 
2.43.0


From 1c501901498d45e389e7a1e8917ce1f0a6e6f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:04 +0000
Subject: [PATCH 35/66] fix: Dennis-Ventura single Gaussian leaf took values
 for counts

---
 learn/dennis/region.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 0e805dd..4f2397a 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -30,8 +30,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 		}
 		X := learn.ExtractInstance(v, D)
 		if g > len(D) {
-			mu, sigma := utils.MuSigma(X)
-			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
+			q := utils.PartitionQuantiles(X, 1)[0]
+			r.rep = []spn.SPN{spn.NewGaussianParams(v, q[0], q[1])}
 		} else {
 			r.rep = make([]spn.SPN, g)
 			Q := utils.PartitionQuantiles(X, g)
-- 
2.43.0


From 31b35d35c3991f126c501566cef152f9f4de16a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 36/66] fix: Poon-Domingos single Gaussian leaf took values for
 counts

---
 learn/poon/poon.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index aea69a2..9d35158 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -104,8 +104,8 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	}
 
 	if n == 1 {
-		mu, sigma := utils.MuSigma(V)
-		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, mu, sigma)}, 1)
+		q := utils.PartitionQuantiles(V, 1)[0]
+		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, q[0], q[1])}, 1)
 	}
 
 	sort.Ints(V)
-- 
2.43.0


From 83672f6e828db7fc0ae044c999301c14100596cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 37/66] fix: Gens learned a child from an empty cluster

---
 learn/gens/gens.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/learn/gens/gens.go b/learn/gens/gens.go
index 3b05146..2d0fadf 100644
--- a/learn/gens/gens.go
+++ b/learn/gens/gens.go
@@ -173,6 +173,9 @@ func clusterStep(np, k, g int, pval, eps float64, mp int, D []map[int]int, Sc ma
 	}
 	sum := spn.NewSum()
 	step := func(id int) {
+		if len(clusters[id]) == 0 {
+			return
+		}
 		nsc := learn.ReflectScope(Sc)
 		var nc spn.SPN
 		if g > 0 {
-- 
2.43.0


From 96d73f1cb926126de1fa7a128b4c25a03bd77aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:33 +0000
Subject: [PATCH 38/66] fix: parameters bound to a leaf node were ignored by it

---
 spn/gaussian.go  | 12 ++++++++++++
 spn/indicator.go | 12 ++++++++++++
 spn/multinom.go  | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 5b34ba0..0a84f8c 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -4,6 +4,7 @@ import (
 	//"github.com/RenatoGeh/gospn/sys"
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"gonum.org/v1/gonum/stat/distuv"
 	"math"
 )
@@ -201,3 +202,14 @@ func (g *Gaussian) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (g *Gaussian) SubType() string { return "gaussian" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (g *Gaussian) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(g)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(g, p)
+	}
+	return p
+}
diff --git a/spn/indicator.go b/spn/indicator.go
index 7b49d7c..f3368ed 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/utils"
 )
 
@@ -74,3 +75,14 @@ func (i *Indicator) GobDecode(data []byte) error {
 	i.sc = []int{i.varid}
 	return err
 }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (i *Indicator) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(i)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(i, p)
+	}
+	return p
+}
diff --git a/spn/multinom.go b/spn/multinom.go
index cc6ebaf..542706b 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/sys"
 	"math"
 )
@@ -248,3 +249,14 @@ func (m *Multinomial) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (m *Multinomial) SubType() string { return "multinomial" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (m *Multinomial) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(m)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(m, p)
+	}
+	return p
+}
-- 
2.43.0


From b34b74130f27a54541c8c8ce5fbe618244e0c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:35 +0000
Subject: [PATCH 39/66] fix: PartitionByLabels gave every leftover to one
 partition, not keeping the proportions

---
 data/manipulate.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index a5d1148..1160a4a 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -148,18 +148,15 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 			}
 		}
 	}
-	// Give leftovers to partition that is furthest from its ideal state.
-	var d float64
-	var di int
-	for i := 0; i < m; i++ {
-		u := float64(n) / float64(len(M[i]))
-		du := math.Abs(u - p[i])
-		if du > d {
-			d, di = du, i
-		}
-	}
+	// Give each leftover to the partition that is furthest from its ideal state.
 	for i := 0; i < c; i++ {
 		for K[i] < len(R[i]) {
+			d, di := math.Inf(-1), 0
+			for j := 0; j < m; j++ {
+				if dj := float64(n)*p[j] - float64(len(M[j])); dj > d {
+					d, di = dj, j
+				}
+			}
 			l := R[i][K[i]]
 			V := make(map[int]int)
 			copyMap(V, D[C[i][l]])
-- 
2.43.0


From 7978e9662904115a4b36fe0e3602971f0593c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:06 +0000
Subject: [PATCH 40/66] fix: G-test panicked when rounding makes its statistic
 negative

---
 utils/indep/gtest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/indep/gtest.go b/utils/indep/gtest.go
index 4c914d9..75b5d86 100644
--- a/utils/indep/gtest.go
+++ b/utils/indep/gtest.go
@@ -44,6 +44,10 @@ func GTest(p, q int, data [][]int, n int, sigval float64) bool {
 	}
 
 	sum *= 2
+	// The statistic is never negative, except by rounding.
+	if sum < 0 {
+		sum = 0
+	}
 	cmp := 1.0 - ChiSquare(sum, df)
 	//sys.Printf("G: df: %d, g: %f, cmp: %.50f, sigval: %.50f\n", df, sum, cmp, sigval)
 
-- 
2.43.0


From 29bce79f40fbd7dc0ef9f59cb6d65d41d5be0cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:56 +0000
Subject: [PATCH 41/66] fix: Dennis-Ventura learner panicked on an empty
 k-means cluster

---
 learn/dennis/dennis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/learn/dennis/dennis.go b/learn/dennis/dennis.go
index 1472c32..a25636f 100644
--- a/learn/dennis/dennis.go
+++ b/learn/dennis/dennis.go
@@ -59,6 +59,10 @@ func buildRegionGraph(D spn.Dataset, sc map[int]*learn.Variable, k int, t float6
 		C := cluster.KMeansDataI(k, D)
 		for i := 0; i < k; i++ {
 			//sys.Printf("Expanding region graph on cluster %d...\n", i)
+			if len(C[i]) == 0 {
+				// K-means may leave a cluster empty when there are repeated instances.
+				continue
+			}
 			P := transpose(dataToCluster(C[i]))
 			expandRegionGraph(G, n, P, t)
 		}
-- 
2.43.0


From 0b23fa498e25e189650a1f0d94858d3745d22331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:08 +0000
Subject: [PATCH 42/66] fix: Poon-Domingos learner panicked at resolution 1

---
 learn/poon/poon.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 9d35158..9b79a56 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -57,13 +57,7 @@ type decomp struct {
 }
 
 func newRegion(id int, inner []spn.SPN, step int) *region {
-	var d []*decomp
-	if step == 1 {
-		d = nil
-	} else {
-		d = make([]*decomp, len(inner))
-	}
-	return &region{id, inner, step, -1, 100, 100, d}
+	return &region{id, inner, step, -1, 100, 100, make([]*decomp, len(inner))}
 }
 
 // Encode is encode.
-- 
2.43.0


From ebaf69f494bfb210160e34d0c99f9c9ad87d3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:09 +0000
Subject: [PATCH 43/66] fix: Poon-Domingos learner could leave a sum node
 without children

---
 learn/poon/poon.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 9b79a56..cf28cad 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -466,6 +466,10 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 		counts.StoreSingle(pi, c+1.0)
 	} else {
 		pi := extractProd(bD, decompToProd)
+		if sum := R.inner[R.mapIndex].(*spn.Sum); len(sum.Ch()) == 0 {
+			// The product belongs to another sum of this region: share it, or this one is left empty.
+			sum.AddChildW(pi, 1.0)
+		}
 		c, _ := counts.Single(pi)
 		counts.StoreSingle(pi, c+1.0)
 	}
-- 
2.43.0


From c1b94e2c283cedecdaf021b09ee5840e7b39cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:10 +0000
Subject: [PATCH 44/66] fix: Poon-Domingos learner returned an arbitrary sum of
 an image as small as the resolution

---
 learn/poon/poon.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index cf28cad..1a2b534 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -158,7 +158,12 @@ func createRegions(D spn.Dataset, m, g, r int) map[uint64]*region {
 							if x == 1 && y == 1 {
 								R = createUnitRegion(x1, y1, g, D)
 							} else {
-								R = createRegion(m, r)
+								if x == w && y == h {
+									// The whole image is a single fine region: it is the root.
+									R = createRegion(1, r)
+								} else {
+									R = createRegion(m, r)
+								}
 								if x2-x1 <= r || y2-y1 <= r {
 									R.step = 1
 								}
-- 
2.43.0


From ae95e06283611a3cdc0becd97a9bad6016784bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:44 +0000
Subject: [PATCH 45/66] fix: dataset rows longer than 64 KB silently ended the
 dataset

---
 io/arff.go  | 1 +
 io/input.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/io/arff.go b/io/arff.go
index 7f8c736..fea46cd 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -205,6 +205,7 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 	defer in.Close()
 
 	stream := bufio.NewScanner(in)
+	stream.Buffer(nil, maxLineSize)
 	labels = make(map[int]map[string]int)
 	sc = make(map[int]*learn.Variable)
 	var typs []string
diff --git a/io/input.go b/io/input.go
index 7abf64f..a78e34f 100644
--- a/io/input.go
+++ b/io/input.go
@@ -15,6 +15,10 @@ import (
 	"github.com/RenatoGeh/gospn/spn"
 )
 
+// maxLineSize is the maximum length of a line in a dataset file. The default of bufio.Scanner is too
+// short for datasets with many variables.
+const maxLineSize = 1 << 30
+
 func GetDataPath(dataset string) string {
 	in, _ := filepath.Abs("data/" + dataset + "/compiled")
 	return in
@@ -45,6 +49,7 @@ func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
 	sc := make(map[int]*learn.Variable)
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, maxLineSize)
 
 	var line string
 
@@ -117,6 +122,7 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 	sc := make(map[int]*learn.Variable)
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, maxLineSize)
 
 	var line string
 
@@ -199,6 +205,7 @@ func ParseEvidence(filename string) (map[int]*learn.Variable, []map[int]int, []i
 	sc := make(map[int]*learn.Variable)
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, maxLineSize)
 
 	var line string
 
-- 
2.43.0


From b06113e0f1600c23d78e03c634010d3852cf5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 46/66] fix: blank lines in ARFF data were parsed as empty
 instances

---
 io/arff.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index fea46cd..c11bc6f 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -214,11 +214,9 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 	for i, lc := 0, 0; stream.Scan(); lc++ {
 		line := stream.Text()
 
-		// Line is a comment.
-		if len(line) > 0 {
-			if string(line[0]) == "%" {
-				continue
-			}
+		// Line is blank or a comment.
+		if strings.TrimSpace(line) == "" || string(line[0]) == "%" {
+			continue
 		}
 
 		if !data {
-- 
2.43.0


From 873bef4ea6d5ff6891bf4034af212baf0e413623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 47/66] fix: ARFFToData wrote the last value of every instance
 twice

---
 io/arff.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/io/arff.go b/io/arff.go
index c11bc6f..17c8d62 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -136,7 +136,6 @@ func ARFFToData(dirname, fname, dname string) {
 
 			fmt.Fprintf(write, "%s ", val)
 		}
-		fmt.Fprintf(write, "%s ", inst[len(inst)-1])
 		fmt.Fprintf(write, "\n")
 		fmt.Println("Instance written")
 	}
-- 
2.43.0


From 6f63c40c35abe26f1dfc89153a1c727bc92496aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:46 +0000
Subject: [PATCH 48/66] fix: ReadFromFile truncated the file it was asked to
 read

---
 io/input.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/io/input.go b/io/input.go
index a78e34f..f590232 100644
--- a/io/input.go
+++ b/io/input.go
@@ -343,12 +343,11 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 
 // ReadFromFile reads an SPN from an spn mdl file.
 func ReadFromFile(filename string) spn.SPN {
-	file, err := os.Create(filename)
+	S, err := LoadSPN(filename)
 	if err != nil {
-		fmt.Printf("Error. Could not create file [%s].\n", filename)
+		fmt.Printf("Error. Could not read file [%s].\n", filename)
 		panic(err)
 	}
-	defer file.Close()
 
-	return nil
+	return S
 }
-- 
2.43.0


From bd1c0ebcf66226bbd7e6a80520614424c3e2e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:47 +0000
Subject: [PATCH 49/66] fix: reading past the end of an npy file made up
 instances or never returned

---
 io/npy.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/io/npy.go b/io/npy.go
index f7e9423..eabf9dc 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -3,6 +3,7 @@ package io
 import (
 	"errors"
 	"github.com/sbinet/npyio"
+	"io"
 	"os"
 )
 
@@ -44,6 +45,7 @@ type NpyReader struct {
 	r *npyio.Reader // Npyio reader.
 	t int           // Actual type.
 	s [2]int        // Shape.
+	p int           // Number of instances already read.
 }
 
 // NewNpyReader creates a new *NpyReader from .npy file fname.
@@ -64,7 +66,7 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if t < 0 {
 		return nil, ErrNonIntegerType
 	}
-	return &NpyReader{f, r, t, [2]int{s[0], s[1]}}, nil
+	return &NpyReader{f, r, t, [2]int{s[0], s[1]}, 0}, nil
 }
 
 func new_counts(n int, k int) []int {
@@ -90,6 +92,10 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 	y := r.s[1]
 	C := new_counts(n, c)
 	for i := 0; i < n; {
+		if r.p >= r.s[0] {
+			return nil, nil, io.EOF
+		}
+		r.p++
 		switch r.t {
 		case 0:
 			m := make([]uint8, y)
@@ -217,8 +223,13 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 	return D, L, nil
 }
 
-// read reads .npy file from an *NpyReader, pulling n entries.
+// read reads .npy file from an *NpyReader, pulling n entries. If there are fewer than n entries left
+// to be read, read returns io.EOF.
 func read(r *NpyReader, n int) ([]map[int]int, []int, error) {
+	if n > r.s[0]-r.p {
+		return nil, nil, io.EOF
+	}
+	r.p += n
 	k := n * r.s[1]
 	u := make([]map[int]int, n)
 	l := make([]int, n)
@@ -392,7 +403,7 @@ func (r *NpyReader) ReadBalanced(n int, c int) ([]map[int]int, []int, error) {
 func (r *NpyReader) Reset() error {
 	r.f.Seek(0, 0)
 	nr, err := npyio.NewReader(r.f)
-	r.r = nr
+	r.r, r.p = nr, 0
 	return err
 }
 
-- 
2.43.0


From f204e28a1f41b83e08a6f5790c841051ec28e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:48 +0000
Subject: [PATCH 50/66] fix: reading no instances from an npy file panicked

---
 io/npy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index eabf9dc..b392c93 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -234,6 +234,10 @@ func read(r *NpyReader, n int) ([]map[int]int, []int, error) {
 	u := make([]map[int]int, n)
 	l := make([]int, n)
 	y := r.s[1]
+	if k == 0 {
+		// An empty slice makes npyio read the entire file.
+		return u, l, nil
+	}
 	switch r.t {
 	case 0:
 		m := make([]uint8, k)
-- 
2.43.0


From 915b87597e956f9fa31df1e5220e0a571c6d7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:49 +0000
Subject: [PATCH 51/66] fix: npy matrices in Fortran order were read transposed

---
 io/npy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index b392c93..ab56dfe 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -20,6 +20,7 @@ var (
 	}
 
 	ErrNonIntegerType  = errors.New("gospn: npy data type is non integer.")
+	ErrFortranOrder    = errors.New("gospn: npy data is in Fortran order.")
 	ErrNonDatasetShape = errors.New("gospn: npy data does not have dimension two.")
 )
 
@@ -62,6 +63,10 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if len(s) != 2 {
 		return nil, ErrNonDatasetShape
 	}
+	if r.Header.Descr.Fortran {
+		// Instances are not contiguous in the file.
+		return nil, ErrFortranOrder
+	}
 	t := isValid(r.Header.Descr.Type)
 	if t < 0 {
 		return nil, ErrNonIntegerType
-- 
2.43.0


From b2a934ee180693d05d05caaf6c240e4267422d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:50 +0000
Subject: [PATCH 52/66] fix: PGM pixels separated by other blanks than one
 space were lost or made up

---
 io/pgm.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/io/pgm.go b/io/pgm.go
index 06a42ef..45375d8 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -151,7 +151,7 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 		stream := instreams[i]
 		for stream.Scan() {
 			line := stream.Text()
-			tokens := strings.Split(line, " ")
+			tokens := strings.Fields(line)
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
 				tkn, err := strconv.Atoi(tokens[j])
@@ -290,7 +290,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 
 	for stream.Scan() {
 		line := stream.Text()
-		tokens := strings.Split(line, " ")
+		tokens := strings.Fields(line)
 		ntokens := len(tokens)
 		for i := 0; i < ntokens; i++ {
 			tkn, err := strconv.Atoi(tokens[i])
@@ -339,7 +339,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 			var vals []int
 			for lstream.Scan() {
 				line := lstream.Text()
-				tokens := strings.Split(line, " ")
+				tokens := strings.Fields(line)
 				ntokens := len(tokens)
 				for j := 0; j < ntokens; j++ {
 					tkn, err := strconv.Atoi(tokens[j])
@@ -513,7 +513,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 		for stream.Scan() {
 			line := stream.Text()
-			tokens := strings.Split(line, " ")
+			tokens := strings.Fields(line)
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
 				tkn, _ := strconv.Atoi(tokens[j])
-- 
2.43.0


From 5738d0b7156a9d628fdcc61f969f51647dfc317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:50 +0000
Subject: [PATCH 53/66] fix: evidence files gave wrong class positions when
 classes have different sizes

---
 io/pbm.go | 2 +-
 io/pgm.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/pbm.go b/io/pbm.go
index 88c49b9..63d55b0 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -317,7 +317,7 @@ func PBMFToEvidence(dirname, dname string) {
 
 			instreams = append(instreams, bufio.NewScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
+		slabels = append(slabels, len(instreams)-nsf)
 	}
 
 	// Create compiled folder.
diff --git a/io/pgm.go b/io/pgm.go
index 45375d8..5f830c9 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -449,7 +449,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 			instreams = append(instreams, bufio.NewScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
+		slabels = append(slabels, len(instreams)-nsf)
 	}
 
 	// Create compiled folder.
-- 
2.43.0


From 6dbfff0735a185e5404803af72a609e910805631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 54/66] fix: VarSetToPPM declared its plain text image as
 binary

---
 io/ppm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/ppm.go b/io/ppm.go
index 76e5555..27ccc54 100644
--- a/io/ppm.go
+++ b/io/ppm.go
@@ -17,7 +17,7 @@ func VarSetToPPM(filename string, state spn.VarSet, w, h, max int) {
 	}
 	defer file.Close()
 
-	fmt.Fprintf(file, "P6\n%d %d\n%d\n", w, h, max)
+	fmt.Fprintf(file, "P3\n%d %d\n%d\n", w, h, max)
 
 	n := len(state)
 	pixels := make([]int, n)
-- 
2.43.0


From c4e4feb009f9f11345f155c00a1103457041daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:52 +0000
Subject: [PATCH 55/66] fix: colours of hues above 300 degrees were black

---
 common/color.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/color.go b/common/color.go
index 8a233c8..7c7b5b9 100644
--- a/common/color.go
+++ b/common/color.go
@@ -151,7 +151,6 @@ func hsv2rgb(in hsv) rgb {
 		out.r = t
 		out.g = p
 		out.b = in.v
-	case 5:
 	default:
 		out.r = in.v
 		out.g = p
-- 
2.43.0


From 30da915c6304b1d289109960e464e5d7879d33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 56/66] fix: failed downloads crashed or left a bogus file
 behind

When the request failed, the response was used before checking the error, a
status other than 200 was taken for data, and the empty or incomplete file left
behind was taken for the downloaded one ever after.
---
 io/http.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/io/http.go b/io/http.go
index f316395..5d987ea 100644
--- a/io/http.go
+++ b/io/http.go
@@ -36,22 +36,30 @@ func DownloadFromURL(u, p string, override bool) error {
 		fmt.Println(e)
 		return e
 	}
-	out, e := os.Create(f)
-	defer out.Close()
+	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
+	d, e := http.Get(u)
 	if e != nil {
-		fmt.Println("Error when trying to create file [%s].\n", f)
+		fmt.Printf("Error while downloading [%s].\nStopping download.\n", u)
 		return e
 	}
-	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
-	d, e := http.Get(u)
 	defer d.Body.Close()
+	if d.StatusCode != http.StatusOK {
+		fmt.Printf("Error while downloading [%s].\nStopping download.\n", u)
+		return fmt.Errorf("could not download [%s]: %s", u, d.Status)
+	}
+	out, e := os.Create(f)
 	if e != nil {
-		fmt.Println("Error while downloading [%s].\nStopping download.", u)
+		fmt.Printf("Error when trying to create file [%s].\n", f)
 		return e
 	}
 	_, e = io.Copy(out, d.Body)
+	if ce := out.Close(); e == nil {
+		e = ce
+	}
 	if e != nil {
 		fmt.Println("Error while copying download to local directory.")
+		// Do not leave an incomplete file behind to be taken for the download.
+		os.Remove(f)
 		return e
 	}
 	sys.Printf("Download finished.")
-- 
2.43.0


From 25122689f00ffb1b9d9ebabb5adda8101af50644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 57/66] fix: a failed download of the MNIST training set was
 ignored

---
 data/datasets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/datasets.go b/data/datasets.go
index f7029f5..d5e35b8 100644
--- a/data/datasets.go
+++ b/data/datasets.go
@@ -189,6 +189,9 @@ func pullMNIST(n, b int) (map[int]*learn.Variable, []map[int]int, []map[int]int)
 		return nil, nil, nil
 	}
 	e = io.DownloadFromURL(ur, pr, false)
+	if e != nil {
+		return nil, nil, nil
+	}
 	v, dt := io.ParseData(pt)
 	_, dr := io.ParseData(pr)
 	return v, dt, dr
-- 
2.43.0


From de941eac59ebd5aaad2ff1854cd38527cb06affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 58/66] fix: SetLogFile did not redirect the log

---
 sys/print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sys/print.go b/sys/print.go
index b5acc08..e026bd8 100644
--- a/sys/print.go
+++ b/sys/print.go
@@ -17,6 +17,9 @@ func SetLogFile(filename string) (*os.File, error) {
 		return nil, nil
 	}
 	f, err := os.Create(filename)
+	if err == nil {
+		fout = f
+	}
 	return f, err
 }
 
-- 
2.43.0


From 22c1035fc7cce6c5e85e8f2184018c25286652d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 59/66] fix: drawing a single leaf ignored its variable and
 called add_node without a colour

---
 io/output.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/output.go b/io/output.go
index 7ddadd5..6fa163f 100644
--- a/io/output.go
+++ b/io/output.go
@@ -57,7 +57,7 @@ func DrawGraphTools(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "add_node(\"X\")\n\n")
+		fmt.Fprintf(file, "add_node(\"X_%d\", \"#0066ff\")\n\n", s.Sc()[0])
 		fmt.Fprintf(file, "g.vertex_properties[\"name\"]=vnames\n")
 		fmt.Fprintf(file, "g.vertex_properties[\"color\"]=vcolors\n")
 		fmt.Fprintf(file, "\ngraph_draw(g, vertex_text=g.vertex_properties[\"name\"], "+
@@ -167,7 +167,7 @@ func DrawGraph(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "X1 [label=<X<sub>1</sub>>,shape=circle];\n")
+		fmt.Fprintf(file, "X0 [label=<X<sub>%d</sub>>,shape=circle];\n", s.Sc()[0])
 		fmt.Fprintf(file, "}")
 		file.Close()
 		return
-- 
2.43.0


From 15b55e3b9ec1e8fb32d013753804f66332557726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:54 +0000
Subject: [PATCH 60/66] fix: Chisquare and Chisqr returned wrong probabilities

Chisquare took a vanishing lower tail (a statistic near zero) for a vanishing
p-value and overflowed for many degrees of freedom; Chisqr passed its arguments
in the wrong order.
---
 utils/indep/chisq.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/utils/indep/chisq.go b/utils/indep/chisq.go
index 2979a01..d14bb9d 100644
--- a/utils/indep/chisq.go
+++ b/utils/indep/chisq.go
@@ -112,23 +112,13 @@ func Chisquare(df int, cv float64) float64 {
 		return math.Exp(-x)
 	}
 
-	//fmt.Println("Computing incomplete lower gamma function...")
-	pval := lgamma(x, k, false)
-
-	if math.IsNaN(pval) || math.IsInf(pval, 0) || pval <= 1e-8 {
-		return 1e-14
-	}
-
-	//fmt.Println("Computing gamma function...")
-	pval /= math.Gamma(k)
-
-	//fmt.Println("Returning chi-square value...")
-	return 1.0 - pval
+	//fmt.Println("Computing regularized upper gamma function...")
+	return ugamma(x, k, true)
 }
 
 // Chisqr gives the function Chi-Square.
 func Chisqr(df int, cv float64) float64 {
-	return lgamma(float64(df)/2.0, cv/2.0, false) / math.Gamma(float64(df)/2.0)
+	return lgamma(cv/2.0, float64(df)/2.0, true)
 }
 
 /*
-- 
2.43.0


From f9c41d1985728f73873a06b27b952f1314ad47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:54 +0000
Subject: [PATCH 61/66] fix: printing a network with indicator leaves panicked

---
 spn/print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spn/print.go b/spn/print.go
index f9e4c3b..be02e43 100644
--- a/spn/print.go
+++ b/spn/print.go
@@ -63,6 +63,9 @@ func PrintSPN(S SPN, filename string) {
 			if st == "*spn.Multinomial" {
 				cc := s.(*Multinomial)
 				mu, sigma = cc.MuSigma()
+			} else if st == "*spn.Indicator" {
+				cc := s.(*Indicator)
+				mu, sigma = float64(cc.v), 0
 			} else /* Gaussian */ {
 				cc := s.(*Gaussian)
 				mu, sigma = cc.dist.Mu, cc.dist.Sigma
-- 
2.43.0


From 3436d7ce4dc8fb6f54e94eff09b4e106917cda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 62/66] fix: quantiles were consecutive chunks of the data, not
 of its ordered values

---
 utils/stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/stats.go b/utils/stats.go
index 82f7d49..c7cca02 100644
--- a/utils/stats.go
+++ b/utils/stats.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"gonum.org/v1/gonum/floats"
 	"math"
+	"sort"
 )
 
 // Mean returns the mean of a slice.
@@ -59,6 +60,9 @@ func MuSigma(c []int) (float64, float64) {
 // and standard deviation (in this order).
 func PartitionQuantiles(X []int, m int) [][]float64 {
 	k := len(X)
+	// Quantiles are taken over the ordered values.
+	X = append([]int(nil), X...)
+	sort.Ints(X)
 	if m > k {
 		// There can be no more (non-empty) quantiles than values.
 		m = k
-- 
2.43.0


From 38655ec4a8ce095bf3e1e786872f6658111f463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:21 +0000
Subject: [PATCH 63/66] fix: leave-one-out completions were all drawn as left
 completions

---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 5de9eef..48de62f 100644
--- a/app/image.go
+++ b/app/image.go
@@ -255,7 +255,7 @@ func ImgTest(filename string, m, g, r int, eta, eps float64) {
 		//spn.NormalizeSPN(S)
 		for _, q := range io.Quadrants {
 			cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, io.Left, sys.Width, sys.Height, sys.Max)
+			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 		}
 	}
 }
-- 
2.43.0


From f82f98a0b0633c43b8a983c14745a42b8740895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:21 +0000
Subject: [PATCH 64/66] fix: concurrent leave-one-out jobs wrote under the
 index of another job

---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 48de62f..3289119 100644
--- a/app/image.go
+++ b/app/image.go
@@ -320,7 +320,7 @@ func ImgTestParallel(filename string, m, g, r int, eta, eps float64, concurrents
 			S := dennis.LearnGD(train, lsc, 1, m, g, 0.95, P, id)
 			for _, q := range io.Quadrants {
 				cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
+				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, id), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 			}
 			sys.Printf("Ending job %d\n", id)
 
-- 
2.43.0


From f1c73f7d1103a4c291359f9adc45f73fa62177bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:22 +0000
Subject: [PATCH 65/66] fix: a partition ratio above one was accepted and
 crashed the classification job

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 5644489..ad160b4 100644
--- a/main.go
+++ b/main.go
@@ -61,7 +61,7 @@ func main() {
 
 	flag.Parse()
 
-	if p == 0 || p < 0 || p == 1 {
+	if !(p > 0 && p < 1) {
 		fmt.Println("Argument p must be a float64 in range (0, 1).")
 		return
 	}
-- 
2.43.0


From ae9129233dcedbd4dc5be4b0167115db098beb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:40 +0000
Subject: [PATCH 66/66] fix: downloading to a folder whose name has a dot
 reported success without a file

---
 io/http.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/io/http.go b/io/http.go
index 5d987ea..9023425 100644
--- a/io/http.go
+++ b/io/http.go
@@ -19,7 +19,12 @@ func DownloadFromURL(u, p string, override bool) error {
 	var f string
 	var isDir bool
 	p = filepath.Clean(GetPath(p))
-	if isDir = (filepath.Ext(p) == ""); isDir {
+	isDir = filepath.Ext(p) == ""
+	if i, e := os.Stat(p); e == nil && i.IsDir() {
+		// The name of a directory may contain a dot.
+		isDir = true
+	}
+	if isDir {
 		t := strings.Split(u, "/")
 		f = p + "/" + t[len(t)-1]
 	} else {
-- 
2.43.0


From b9ba31df65888f9b99a3d38e9d33a3ca59d70ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 01/10] fix: back-propagate in reverse topological order,
 applying each backward rule once

The recursive edge walk re-applied the rules of a tensor once per path leading to
it, each time with the gradient accumulated so far: wrong gradients (and exponential
time) as soon as an intermediate result feeds more than one operation.
---
 tensor/internal/gradtrack/back_propagation.go | 73 ++++++++++++++-----
 1 file changed, 54 insertions(+), 19 deletions(-)

diff --git a/tensor/internal/gradtrack/back_propagation.go b/tensor/internal/gradtrack/back_propagation.go
index b95b706..02c6a2f 100644
--- a/tensor/internal/gradtrack/back_propagation.go
+++ b/tensor/internal/gradtrack/back_propagation.go
@@ -3,26 +3,45 @@ package gradtrack
 import "github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 
 func BackPropagate(t tensor.Tensor) (err error) {
-	return backward(startEdge(t))
+	if !gradContextOf(t).tracked {
+		return nil
+	}
+
+	return backward(t)
 }
 
-func startEdge(t tensor.Tensor) (edge *backwardEdge) {
-	return &backwardEdge{
-		target: t,
-		gradFn: func() (tensor.Tensor, error) {
-			// neutral tensor; same shape, all ones
-			return toOnes(t), nil
-		},
+func backward(root tensor.Tensor) (err error) {
+	order := reverseTopologicalOrder(root)
+
+	// taking part in the back-propagation precedes evaluation of any gradient
+	for _, gctx := range order {
+		gctx.bpdirty = true
 	}
+
+	// neutral tensor; same shape, all ones
+	err = accumulateGrad(order[0], toOnes(root))
+	if err != nil {
+		return
+	}
+
+	// gradient of each tensor is complete before it is read by its back edges
+	for _, gctx := range order {
+		for _, edge := range gctx.backEdges {
+			err = propagate(edge)
+			if err != nil {
+				return
+			}
+		}
+	}
+
+	return nil
 }
 
-func backward(edge *backwardEdge) (err error) {
+func propagate(edge *backwardEdge) (err error) {
 	gctx := gradContextOf(edge.target)
 
 	if !gctx.tracked {
 		return nil
-	} else {
-		gctx.bpdirty = true
 	}
 
 	grad, err := edge.gradFn()
@@ -30,19 +49,35 @@ func backward(edge *backwardEdge) (err error) {
 		return
 	}
 
-	err = accumulateGrad(gctx, grad)
-	if err != nil {
-		return
-	}
+	return accumulateGrad(gctx, grad)
+}
 
-	for _, e := range gctx.backEdges {
-		err = backward(e)
-		if err != nil {
+// reverseTopologicalOrder lists tracked contexts reachable from the root such that
+// each one precedes all contexts it was computed from.
+func reverseTopologicalOrder(root tensor.Tensor) (order []*GradContext) {
+	visited := make(map[*GradContext]bool)
+
+	var visit func(*GradContext)
+	visit = func(gctx *GradContext) {
+		if !gctx.tracked || visited[gctx] {
 			return
 		}
+
+		visited[gctx] = true
+		for _, edge := range gctx.backEdges {
+			visit(gradContextOf(edge.target))
+		}
+
+		order = append(order, gctx)
 	}
 
-	return nil
+	visit(gradContextOf(root))
+
+	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
+		order[i], order[j] = order[j], order[i]
+	}
+
+	return order
 }
 
 func accumulateGrad(gctx *GradContext, grad tensor.Tensor) (err error) {
-- 
2.43.0


From 8cb126439ef87e54cb089ef9a7ec9c9be54649ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 02/10] fix: sum the gradient of an implicitly broadcast
 operand over its copies

Add, Sub, Mul, Div, Dot and MatMul averaged it. The rule of an explicit Broadcast
call is unchanged.
---
 .../internal/cputensor/cputensor_helpers.go   | 29 ++++++++++++-------
 tensor/internal/gradtrack/gradients.go        | 13 +++++++--
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/tensor/internal/cputensor/cputensor_helpers.go b/tensor/internal/cputensor/cputensor_helpers.go
index 6f1dc8a..467ffd2 100644
--- a/tensor/internal/cputensor/cputensor_helpers.go
+++ b/tensor/internal/cputensor/cputensor_helpers.go
@@ -3,6 +3,7 @@ package cputensor
 import (
 	"fmt"
 
+	"github.com/sahandsafizadeh/qeep/tensor/internal/gradtrack"
 	"github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 )
 
@@ -36,19 +37,16 @@ func assertCPUTensors(ts []tensor.Tensor) (cts []*CPUTensor, err error) {
 func broadcastForBinaryOp(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error) {
 	shape := targetBroadcastDims(ct1.dims, ct2.dims)
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = broadcastOperand(ct1, shape)
 	if err != nil {
 		return
 	}
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = broadcastOperand(ct2, shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
@@ -62,7 +60,7 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct1.dims[l1-1]
 	shape[lt-2] = ct1.dims[l1-2]
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = broadcastOperand(ct1, shape)
 	if err != nil {
 		return
 	}
@@ -70,17 +68,28 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct2.dims[l2-1]
 	shape[lt-2] = ct2.dims[l2-2]
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = broadcastOperand(ct2, shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
+// broadcastOperand expands an operand of a binary operation; the operand's gradient
+// is the sum over the copies of each of its elements.
+func broadcastOperand(ct *CPUTensor, shape []int) (bct *CPUTensor, err error) {
+	t, err := ct.Broadcast(shape)
+	if err != nil {
+		return
+	}
+
+	bct = t.(*CPUTensor)
+	bct.gctx = gradtrack.BroadcastOperand(bct, ct)
+
+	return bct, nil
+}
+
 func targetBroadcastDims(dims1, dims2 []int) (dims []int) {
 	var small, large []int
 	if len(dims1) > len(dims2) {
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index bde4f97..6d733b3 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -192,6 +192,15 @@ func Flatten(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 }
 
 func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
+	return broadcastContext(y, x, tensor.Tensor.AvgAlong)
+}
+
+// BroadcastOperand is for the expansion implied by an operation on operands of different shapes.
+func BroadcastOperand(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
+	return broadcastContext(y, x, tensor.Tensor.SumAlong)
+}
+
+func broadcastContext(y tensor.Tensor, x tensor.Tensor, reduceAlong func(tensor.Tensor, int) (tensor.Tensor, error)) (gctx *GradContext) {
 	if anyIsBPDirty(x) {
 		return NewDirtyGradContext()
 	}
@@ -213,7 +222,7 @@ func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 
 					i := 0
 					for ldd-i > lds {
-						gy, err = gy.AvgAlong(0)
+						gy, err = reduceAlong(gy, 0)
 						if err != nil {
 							return
 						}
@@ -224,7 +233,7 @@ func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 					j := 0
 					for i < ldd {
 						if srcDims[j] != dstDims[i] {
-							gy, err = gy.AvgAlong(j)
+							gy, err = reduceAlong(gy, j)
 							if err != nil {
 								return
 							}
-- 
2.43.0


From 294c2bde36b49b64d695fbcbdc213582528e3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 03/10] fix: gradient of Pow with exponent 0 is zero, also at
 base 0

0 * 0^-1 made it NaN, which reached every tensor from which a ones-like constant
was derived (Sigmoid, BCE, CE at an input of exactly 0).
---
 tensor/internal/gradtrack/gradients.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 6d733b3..5dc2a47 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -545,6 +545,10 @@ func Pow(y tensor.Tensor, x tensor.Tensor, a float64) (gctx *GradContext) {
 			{
 				target: x,
 				gradFn: func() (tensor.Tensor, error) {
+					if a == 0 {
+						return toZeros(x), nil
+					}
+
 					gy := y.Gradient()
 					gx := x.Pow(a - 1)
 					gx = gx.Scale(a)
-- 
2.43.0


From b3a69a0a8ab46683e2e2d961d4473ab7a765ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 04/10] fix: align the gradient of Dot with the contracted
 dimension

For operands of rank 2 and more the result's gradient was multiplied as if its last
dimension were the contracted one: wrong values, wrong shapes or an error.
---
 tensor/internal/gradtrack/gradients.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 5dc2a47..9a75455 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -999,14 +999,24 @@ func Dot(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 		backEdges: []*backwardEdge{
 			{
 				target: a,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(b)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape())) // contracted dim
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(b)
 				},
 			},
 			{
 				target: b,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(a)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape())) // contracted dim
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(a)
 				},
 			},
 		},
-- 
2.43.0


From eac9feb1f4d94283afff3a5bdc3644f70a22b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 05/10] fix: gradient of a Patch source covers only the patched
 block

With an omitted (or whole-dimension) range the gradient was sliced along the whole
dimension of the target, so a smaller source received a gradient of the wrong shape.
---
 tensor/internal/gradtrack/gradient_helpers.go | 17 +++++++++++++++++
 tensor/internal/gradtrack/gradients.go        |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 17d3460..77db6e7 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -23,3 +23,20 @@ func reducerBroadcasted(y tensor.Tensor, x tensor.Tensor, dim int) (o tensor.Ten
 
 	return o, nil
 }
+
+// patchedBlock is the block that source p occupies in the target when patched at the index.
+func patchedBlock(index []tensor.Range, p tensor.Tensor) (block []tensor.Range) {
+	shape := p.Shape()
+
+	block = make([]tensor.Range, len(shape))
+	for i := range block {
+		// special case of omitted range; offset 0 along dim
+		if i >= len(index) || (index[i].From == 0 && index[i].To == 0) {
+			block[i] = tensor.Range{From: 0, To: shape[i]}
+		} else {
+			block[i] = index[i]
+		}
+	}
+
+	return block
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 9a75455..f7e09d2 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -79,7 +79,7 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 			{
 				target: p,
 				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Slice(index)
+					return y.Gradient().Slice(patchedBlock(index, p))
 				},
 			},
 		},
-- 
2.43.0


From 46dc91ca152da80fc211ad10e2c4255b614a45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 06/10] fix: Slice and Patch keep their own copy of the index
 for back-propagation

---
 tensor/internal/gradtrack/gradient_helpers.go | 8 ++++++++
 tensor/internal/gradtrack/gradients.go        | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 77db6e7..6629b86 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -40,3 +40,11 @@ func patchedBlock(index []tensor.Range, p tensor.Tensor) (block []tensor.Range)
 
 	return block
 }
+
+// copyIndex detaches an index from the caller's slice for use at back propagation time.
+func copyIndex(index []tensor.Range) (o []tensor.Range) {
+	o = make([]tensor.Range, len(index))
+	copy(o, index)
+
+	return o
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index f7e09d2..f53a9fe 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -46,6 +46,8 @@ func Slice(y tensor.Tensor, x tensor.Tensor, index []tensor.Range) (gctx *GradCo
 		return NewGradContext(false)
 	}
 
+	index = copyIndex(index)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
@@ -67,6 +69,8 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 		return NewGradContext(false)
 	}
 
+	index = copyIndex(index)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
-- 
2.43.0


From f36e3855d371ff1fd39ff43342ea84f2812adc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 07/10] fix: align the Softmax normaliser with the normalised
 dimension

---
 component/layers/activations/softmax.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d941710..d9ab619 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -46,6 +46,11 @@ func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
+	s, err = s.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
 	return x.Div(s)
 }
 
-- 
2.43.0


From f5001954c1f5fdb1171a972cad1904a174e51ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 08/10] fix: keep uniform random samples below the upper bound
 and finite

---
 tensor/internal/cputensor/initializers.go | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/tensor/internal/cputensor/initializers.go b/tensor/internal/cputensor/initializers.go
index 7566020..048e834 100644
--- a/tensor/internal/cputensor/initializers.go
+++ b/tensor/internal/cputensor/initializers.go
@@ -1,6 +1,10 @@
 package cputensor
 
-import "gonum.org/v1/gonum/stat/distuv"
+import (
+	"math"
+
+	"gonum.org/v1/gonum/stat/distuv"
+)
 
 func (t *CPUTensor) initWith(initFunc initializerFunc) {
 
@@ -44,13 +48,26 @@ func uniformRandomTensor(l, u float64, dims []int) (t *CPUTensor) {
 	t = new(CPUTensor)
 	t.dims = make([]int, len(dims))
 	copy(t.dims, dims)
-	t.initWith(func() any {
-		return distuv.Uniform{Min: l, Max: u}.Rand()
-	})
+	t.initWith(func() any { return uniformRandom(l, u) })
 
 	return t
 }
 
+func uniformRandom(l, u float64) (v float64) {
+	if math.IsInf(u-l, 0) {
+		v = 2 * distuv.Uniform{Min: l / 2, Max: u / 2}.Rand()
+	} else {
+		v = distuv.Uniform{Min: l, Max: u}.Rand()
+	}
+
+	// the sample may be rounded up to the excluded upper bound
+	if v >= u {
+		v = math.Nextafter(u, l)
+	}
+
+	return v
+}
+
 func normalRandomTensor(u, s float64, dims []int) (t *CPUTensor) {
 	t = new(CPUTensor)
 	t.dims = make([]int, len(dims))
-- 
2.43.0


From c48dd4dd4319dd0352f0b8dc78e90c13324e4590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 09/10] fix: Xavier scale must not overflow the sum of the fans

---
 component/initializers/xavier_normal.go  | 2 +-
 component/initializers/xavier_uniform.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/initializers/xavier_normal.go b/component/initializers/xavier_normal.go
index 4df7b74..cc982ff 100644
--- a/component/initializers/xavier_normal.go
+++ b/component/initializers/xavier_normal.go
@@ -31,7 +31,7 @@ func NewXavierNormal(conf *XavierNormalConfig) (c *XavierNormal, err error) {
 }
 
 func (c *XavierNormal) Init(shape []int) (x tensor.Tensor, err error) {
-	s := math.Sqrt(2. / float64(c.fanIn+c.fanOut))
+	s := math.Sqrt(2. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandN(shape, 0., s, tensorInitConf())
 }
 
diff --git a/component/initializers/xavier_uniform.go b/component/initializers/xavier_uniform.go
index 575f73b..ff84e48 100644
--- a/component/initializers/xavier_uniform.go
+++ b/component/initializers/xavier_uniform.go
@@ -31,7 +31,7 @@ func NewXavierUniform(conf *XavierUniformConfig) (c *XavierUniform, err error) {
 }
 
 func (c *XavierUniform) Init(shape []int) (x tensor.Tensor, err error) {
-	r := math.Sqrt(6. / float64(c.fanIn+c.fanOut))
+	r := math.Sqrt(6. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandU(shape, -r, r, tensorInitConf())
 }
 
-- 
2.43.0


From 86b8de3554746a4d915bcafe8e92fc8456fcdaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 10/10] fix: infinities of the same sign compare equal

---
 tensor/internal/cputensor/operators.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/operators.go b/tensor/internal/cputensor/operators.go
index f2c3fa6..a839800 100644
--- a/tensor/internal/cputensor/operators.go
+++ b/tensor/internal/cputensor/operators.go
@@ -47,7 +47,7 @@ func (t *CPUTensor) tanh() (o *CPUTensor) {
 func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if areEqual(a, b) {
 				return 1.
 			} else {
 				return 0.
@@ -58,7 +58,7 @@ func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 func (t *CPUTensor) ne(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if areEqual(a, b) {
 				return 0.
 			} else {
 				return 1.
@@ -225,6 +225,11 @@ func applyBinaryFuncOnTensorsElemWise(t1, t2 *CPUTensor, sbf scalarBinaryFunc) (
 
 /* ----- helpers ----- */
 
+func areEqual(a, b float64) (are bool) {
+	// infinities of the same sign have no difference
+	return a == b || math.Abs(a-b) <= float64EqualityThreshold
+}
+
 func linearLastDimDotProductElemGenerator(t1, t2 *CPUTensor) initializerFunc {
 	dims := t1.dims
 	n := len(dims) - 1
-- 
2.43.0


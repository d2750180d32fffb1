From c28ea8358cb1f5f1ca7071570882c24174b76784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 01/27] fix: exponential transformation has no name of its own

TransformType.Name() indexed past the end of its table for Exponential and
TransformExponential.Name() answered "logistic".
---
 transformation/exponential.go    | 2 +-
 transformation/transformation.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/transformation/exponential.go b/transformation/exponential.go
index 87c1195..14491df 100644
--- a/transformation/exponential.go
+++ b/transformation/exponential.go
@@ -25,6 +25,6 @@ func (t *TransformExponential) Type() TransformType {
 }
 
 func (t *TransformExponential) Name() string {
-	return Logistic.Name()
+	return Exponential.Name()
 }
 
diff --git a/transformation/transformation.go b/transformation/transformation.go
index fe976eb..660e963 100644
--- a/transformation/transformation.go
+++ b/transformation/transformation.go
@@ -34,6 +34,7 @@ func (t TransformType) Name() string {
 		"logistic",
 		"softmax",
 		"leaf_index",
+		"exponential",
 	}
 	if t < Raw || t > Last {
 		return "unknown"
-- 
2.43.0


From 953b78aa4b9fbbdb8a5e58f2f72e4e83aaf9fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 02/27] fix: models of a single feature report zero features

With MaxFeatureIdx == 0 NFeatures() returned 0: rows without values were
accepted and sparse prediction panicked on an empty scratch row.
---
 lgensemble.go | 2 +-
 xgensemble.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgensemble.go b/lgensemble.go
index c45ba2c..18f0143 100644
--- a/lgensemble.go
+++ b/lgensemble.go
@@ -27,7 +27,7 @@ func (e *lgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *lgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
diff --git a/xgensemble.go b/xgensemble.go
index 35e3c51..2396e72 100644
--- a/xgensemble.go
+++ b/xgensemble.go
@@ -26,7 +26,7 @@ func (e *xgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *xgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
-- 
2.43.0


From 134622aaf9ca92375eaba5fadd0746fe01264ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 03/27] fix: sklearn models report max_features_ as their
 number of features

max_features_ is the number of features considered for a split; a model trained
with max_features < n_features accepted rows that are too short.
---
 internal/pickle/sklearn.go | 5 +++++
 skensemble_io.go           | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fb238e0..d70165c 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -205,6 +205,7 @@ type SklearnGradientBoosting struct {
 	Classes       []int
 	NEstimators   int
 	MaxFeatures   int
+	NFeatures     int
 	Estimators    []SklearnDecisionTreeRegressor
 	LearningRate  float64
 	InitEstimator SKlearnInitEstimator
@@ -287,6 +288,10 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if err != nil {
 		return
 	}
+	t.NFeatures, err = dict.toInt("n_features_")
+	if err != nil {
+		return
+	}
 	t.NEstimators, err = dict.toInt("n_estimators")
 	if err != nil {
 		return
diff --git a/skensemble_io.go b/skensemble_io.go
index 18f9159..eddfca0 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -132,7 +132,7 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
-	e.MaxFeatureIdx = gbdt.MaxFeatures - 1
+	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	nTrees := gbdt.NEstimators
 	if nTrees == 0 {
-- 
2.43.0


From 52c6456ca4d26a9429d544dc39e12816a9afc0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 04/27] fix: class priors with a truncated buffer are accepted

The error of the iteration over the raw bytes of the priors was dropped.
---
 internal/pickle/sklearn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index d70165c..cd9830a 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -386,10 +386,13 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyArray.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyArray.Type)
 		}
-		numpyArray.Data.Iterate(8, func(bytes []byte) error {
+		err = numpyArray.Data.Iterate(8, func(bytes []byte) error {
 			e.Prior = append(e.Prior, util.Float64FromBytes(bytes, numpyArray.Type.LittleEndinan))
 			return nil
 		})
+		if err != nil {
+			return err
+		}
 	} else {
 		return fmt.Errorf("unknown init estimator class: %s", e.Name)
 	}
-- 
2.43.0


From 2e7108a45bfd17f8d5744281cdd7f0da2b237e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 05/27] fix: class arrays of the wrong length or shape are
 accepted

The shape test joined its two conditions with && and also panicked on an array
without dimensions.
---
 internal/pickle/sklearn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index cd9830a..e5e9389 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -72,7 +72,7 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NOutputs {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NOutputs {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NOutputs, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
@@ -269,7 +269,7 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NClasses {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NClasses {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NClasses, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
-- 
2.43.0


From 97e5a2e8f3b8d250fdbaeac0d1c36111a372d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 06/27] fix: scalar transformations are accepted for models
 with several outputs

Logistic and exponential transformations fail on more than one raw value; the
error is invisible to the caller of Predict, which got success and untouched
predictions.
---
 lgensemble_io.go | 6 ++++++
 xgblinear_io.go  | 3 +++
 xgensemble_io.go | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c25aa45..2da4751 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -356,6 +356,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		}
 
 		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {
+			if e.nRawOutputGroups != 1 {
+				return nil, fmt.Errorf("got objective '%s' with %d output groups", objectiveStr, e.nRawOutputGroups)
+			}
 			transform = &transformation.TransformExponential{}
 		} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression
 			objectiveStruct, err := lgObjectiveParse(objectiveStr)
@@ -366,6 +369,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 				if objectiveStruct.value != 1 {
 					return nil, fmt.Errorf("got sigmoid with value != 1 (got %d)", objectiveStruct.value)
 				}
+				if e.nRawOutputGroups != 1 {
+					return nil, fmt.Errorf("got binary objective with %d output groups", e.nRawOutputGroups)
+				}
 				transform = &transformation.TransformLogistic{}
 			} else if objectiveStruct.name == "multiclass" && objectiveStruct.param == "num_class" {
 				if objectiveStruct.value != e.nRawOutputGroups {
diff --git a/xgblinear_io.go b/xgblinear_io.go
index 7c14333..140f076 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -39,6 +39,9 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
 	if loadTransformation {
 		if header.NameObj == "binary:logistic" {
+			if e.nRawOutputGroups != 1 {
+				return nil, fmt.Errorf("got objective '%s' with %d output groups", header.NameObj, e.nRawOutputGroups)
+			}
 			transform = &transformation.TransformLogistic{}
 		} else {
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 5102dfc..58cc580 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -225,6 +225,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
 	if loadTransformation {
 		if header.NameObj == "binary:logistic" {
+			if e.nRawOutputGroups != 1 {
+				return nil, fmt.Errorf("got objective '%s' with %d output groups", header.NameObj, e.nRawOutputGroups)
+			}
 			transform = &transformation.TransformLogistic{}
 		} else {
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
-- 
2.43.0


From 1bdeb597ac308cd97e01a54435b3bbe2c53f2280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 07/27] fix: ToCsvFile reports success when the data could not
 be written

The errors of flushing the buffer and closing the file were dropped.
---
 mat/mat_io.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index db3ad42..2921d54 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -279,9 +279,14 @@ func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 
 	buf := bufio.NewWriter(f)
-	defer buf.Flush()
-	return m.WriteStr(buf, delimiter)
+	err = m.WriteStr(buf, delimiter)
+	if err == nil {
+		err = buf.Flush()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
-- 
2.43.0


From f34149a2dac8a67824940df699e1f948da0533d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 08/27] fix: blank lines before a parameter block are not
 skipped

The line is compared with a newline after its white space was trimmed.
---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 5aa0081..7b1aa8d 100644
--- a/util/util.go
+++ b/util/util.go
@@ -37,7 +37,7 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 			return nil, err
 		}
 		line = strings.TrimSpace(line)
-		if line != "\n" {
+		if line != "" {
 			break
 		}
 	}
-- 
2.43.0


From 0282f8004c704d0e0037cc938d0b4fa943875e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 09/27] fix: leaf indices of a linear model silently leave
 predictions unset

Predict* reported success without writing anything.
---
 leaves.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leaves.go b/leaves.go
index a718898..bb0eefe 100644
--- a/leaves.go
+++ b/leaves.go
@@ -44,6 +44,9 @@ func (e *Ensemble) predictInnerAndTransform(fvals []float64, nEstimators int, pr
 }
 
 func (e *Ensemble) checkNEstimators(nEstimators int) error {
+	if e.transform.Type() == transformation.LeafIndex && len(e.NLeaves()) == 0 {
+		return fmt.Errorf("leaf indices are not available for %s (no trees in model)", e.Name())
+	}
 	if e.transform.Type() == transformation.LeafIndex && nEstimators != e.NEstimators() {
 		return fmt.Errorf("while predicting leaf indices all estimators should be used (provided num. of estimators = %d, should be %d)",
 			nEstimators, e.NEstimators())
-- 
2.43.0


From 9afbec0d1434fd54c499c47eab8b927d9ca28b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 10/27] fix: softmax of large raw scores is NaN

exp() overflows above 709 and underflows to an all zero row below -745; shift by
the maximum, as LightGBM and XGBoost do.
---
 util/util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 7b1aa8d..0dba10d 100644
--- a/util/util.go
+++ b/util/util.go
@@ -259,9 +259,16 @@ func SigmoidFloat64SliceInplace(vec []float64) {
 }
 
 func SoftmaxFloat64Slice(rawValues []float64, outputValues []float64, startIndex int) {
+	// shift by the maximum, exp() must not overflow
+	max := math.Inf(-1)
+	for _, v := range rawValues {
+		if v > max {
+			max = v
+		}
+	}
 	sum := 0.0
 	for i, v := range rawValues {
-		exp := math.Exp(v)
+		exp := math.Exp(v - max)
 		outputValues[startIndex+i] = exp
 		sum += exp
 	}
-- 
2.43.0


From 19f23e67763a66eb3e24c038d3f3790bb04b66fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 11/27] fix: PredictDense panics when vals is shorter than
 nrows*ncols

In the multi-threaded path the panic happens in a worker and cannot be
recovered by the caller.
---
 leaves.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leaves.go b/leaves.go
index bb0eefe..aa1e747 100644
--- a/leaves.go
+++ b/leaves.go
@@ -202,6 +202,9 @@ func (e *Ensemble) PredictDense(
 	if ncols == 0 || e.NFeatures() > ncols {
 		return fmt.Errorf("incorrect number of columns")
 	}
+	if len(vals) < nRows*ncols {
+		return fmt.Errorf("vals slice too short (should be at least %d)", nRows*ncols)
+	}
 	nEstimators = e.adjustNEstimators(nEstimators)
 	err := e.checkNEstimators(nEstimators)
 	if err != nil {
-- 
2.43.0


From 52a73b269c4c0db9b4a4a87ce83ec867ab041f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 12/27] fix: trees with dangling or cyclic references are
 accepted

A damaged model was loaded without an error and then made prediction panic or
loop forever (e.g. a node without a child: its index stays 0, the root).
---
 lgensemble_io.go |  6 ++++++
 lgtree.go        | 33 +++++++++++++++++++++++++++++++++
 skensemble_io.go |  3 +++
 xgensemble_io.go |  3 +++
 4 files changed, 45 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 2da4751..05c4df8 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -391,6 +391,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
@@ -669,6 +672,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil
diff --git a/lgtree.go b/lgtree.go
index c2d9894..ca7cfcf 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -1,6 +1,7 @@
 package leaves
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/dmitryikh/leaves/util"
@@ -93,6 +94,38 @@ func (t *lgTree) predict(fvals []float64) (float64, uint32) {
 	}
 }
 
+// validate checks that features and children referenced by nodes exist and that
+// every path goes down to a leaf. Otherwise predict could read out of range or
+// never return
+func (t *lgTree) validate(nFeatures int) error {
+	if len(t.leafValues) == 0 {
+		return fmt.Errorf("tree without leaf values")
+	}
+	for i := range t.nodes {
+		node := &t.nodes[i]
+		if int64(node.Feature) >= int64(nFeatures) {
+			return fmt.Errorf("node %d: wrong feature index %d (number of features is %d)", i, node.Feature, nFeatures)
+		}
+		// inner left child is always behind its parent
+		if node.Flags&leftLeaf > 0 {
+			if int64(node.Left) >= int64(len(t.leafValues)) {
+				return fmt.Errorf("node %d: wrong left leaf index %d", i, node.Left)
+			}
+		} else if int64(node.Left) <= int64(i) || int64(node.Left) >= int64(len(t.nodes)) {
+			return fmt.Errorf("node %d: wrong left child index %d", i, node.Left)
+		}
+		// inner right child always follows its parent
+		if node.Flags&rightLeaf > 0 {
+			if int64(node.Right) >= int64(len(t.leafValues)) {
+				return fmt.Errorf("node %d: wrong right leaf index %d", i, node.Right)
+			}
+		} else if int64(node.Right) != int64(i)+1 || int64(node.Right) >= int64(len(t.nodes)) {
+			return fmt.Errorf("node %d: wrong right child index %d", i, node.Right)
+		}
+	}
+	return nil
+}
+
 func (t *lgTree) findInBitset(idx uint32, pos uint32) bool {
 	i1 := pos / 32
 	idxS := t.catBoundaries[idx]
diff --git a/skensemble_io.go b/skensemble_io.go
index eddfca0..944c621 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -166,6 +166,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 			if err != nil {
 				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
 			}
+			if err := tree.validate(e.NFeatures()); err != nil {
+				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
+			}
 			e.Trees = append(e.Trees, tree)
 		}
 		for k := range base {
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 58cc580..06e8fb8 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -246,6 +246,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
-- 
2.43.0


From 788577a35a39c77c0d7150a1957ee8388455a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 13/27] fix: models with inconsistent sizes are accepted

Zero output groups made NEstimators divide by zero, a group short of a tree lost
trees silently, and too few gblinear weights made prediction panic.
---
 skensemble_io.go | 3 +++
 xgblinear_io.go  | 7 +++++++
 xgensemble_io.go | 7 +++++++
 3 files changed, 17 insertions(+)

diff --git a/skensemble_io.go b/skensemble_io.go
index 944c621..5dc7d61 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -131,6 +131,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	if e.nRawOutputGroups == 2 {
 		e.nRawOutputGroups = 1
 	}
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of classes (%d) should be > 0", e.nRawOutputGroups)
+	}
 
 	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
diff --git a/xgblinear_io.go b/xgblinear_io.go
index 140f076..d5906d8 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -34,6 +34,13 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	e.nRawOutputGroups = int(gbLinearModel.Param.NumOutputGroup)
 	e.NumFeature = int(gbLinearModel.Param.NumFeature)
 	e.Weights = gbLinearModel.Weights
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups (%d) should be > 0", e.nRawOutputGroups)
+	}
+	if len(e.Weights) != (e.NumFeature+1)*e.nRawOutputGroups {
+		return nil, fmt.Errorf("wrong number of weights (%d) for %d features and %d output groups",
+			len(e.Weights), e.NumFeature, e.nRawOutputGroups)
+	}
 
 	var transform transformation.Transform
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 06e8fb8..0c39ef6 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -199,6 +199,13 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	// 		header.Param.NumClass, origModel.Param.NumOutputGroup)
 	// }
 	e.nRawOutputGroups = int(origModel.Param.NumOutputGroup)
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups (%d) should be > 0", e.nRawOutputGroups)
+	}
+	if int(origModel.Param.NumTrees)%e.nRawOutputGroups != 0 {
+		return nil, fmt.Errorf("wrong number of trees (%d) for number of output groups (%d)",
+			origModel.Param.NumTrees, e.nRawOutputGroups)
+	}
 	if origModel.Param.NumRoots != 1 {
 		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)
 	}
-- 
2.43.0


From da45c03cfdece4869dabcc8d0f91e019dcb91abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 14/27] fix: refuse LightGBM regression objectives trained with
 reg_sqrt when a transformation is requested

---
 lgensemble_io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 05c4df8..4e3c74c 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -355,6 +355,10 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 			return nil, err
 		}
 
+		if strings.HasPrefix(objectiveStr, "regression") && strings.HasSuffix(objectiveStr, " sqrt") {
+			// reg_sqrt: raw scores are square roots of the predictions
+			return nil, fmt.Errorf("unknown transformation function '%s'", objectiveStr)
+		}
 		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {
 			if e.nRawOutputGroups != 1 {
 				return nil, fmt.Errorf("got objective '%s' with %d output groups", objectiveStr, e.nRawOutputGroups)
-- 
2.43.0


From 18b9f1ddcd1953c3933792773fa34b72bb7e68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 15/27] fix: refuse trees whose categorical nodes refer to
 missing category sets

---
 lgtree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgtree.go b/lgtree.go
index ca7cfcf..cd5b0bd 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -106,6 +106,12 @@ func (t *lgTree) validate(nFeatures int) error {
 		if int64(node.Feature) >= int64(nFeatures) {
 			return fmt.Errorf("node %d: wrong feature index %d (number of features is %d)", i, node.Feature, nFeatures)
 		}
+		// categories of big sets are kept in catThresholds
+		if node.Flags&categorical > 0 && node.Flags&(catOneHot|catSmall) == 0 {
+			if int64(node.Threshold)+1 >= int64(len(t.catBoundaries)) {
+				return fmt.Errorf("node %d: categories not found in the tree", i)
+			}
+		}
 		// inner left child is always behind its parent
 		if node.Flags&leftLeaf > 0 {
 			if int64(node.Left) >= int64(len(t.leafValues)) {
-- 
2.43.0


From 4d4d50c5aafc40d750a5e036d8b3adc0a081772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 16/27] fix: libsvm values after a repeated space are dropped

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 2921d54..e8ac955 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -161,7 +161,7 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
 			if len(tokens[col]) == 0 {
-				break
+				continue
 			}
 			pair := strings.Split(tokens[col], ":")
 			if len(pair) != 2 {
-- 
2.43.0


From 5d29e8c4f8580d9c77e0422ffcbaaefdb34bc2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 17/27] fix: empty csv fields at the ends of a line are lost
 when the delimiter is a space character

---
 mat/mat_io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index e8ac955..00f960b 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 type libsvmRecord struct {
@@ -210,7 +211,10 @@ func readFromCsv(reader *bufio.Reader,
 		if err != nil && err != io.EOF {
 			return err
 		}
-		line = strings.TrimSpace(line)
+		// leading and trailing delimiters stand for absent values
+		line = strings.TrimFunc(line, func(r rune) bool {
+			return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
+		})
 		if line == "" {
 			break
 		}
-- 
2.43.0


From 185ef3564360cd2004beaebfca7b7cd7ce32b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 18/27] fix: a matrix whose first row is empty accepts one row
 of another length

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 00f960b..01aa69f 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -120,7 +120,7 @@ func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
 		}
 		mat.Values = append(mat.Values, r.value)
 	}
-	if mat.Cols == 0 {
+	if mat.Rows == 0 {
 		mat.Cols = len(records)
 	} else if mat.Cols != len(records) {
 		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
-- 
2.43.0


From b73a28425a5aec5c225c0df3dc62954a895cf274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 19/27] fix: strings with escaped zero, return and substitute
 bytes are not decoded

Newer versions of python escape these bytes in protocol 0 pickles too.
---
 internal/pickle/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 5653c78..173c38f 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -195,6 +195,10 @@ func (d *Decoder) readLine() ([]byte, error) {
 func decodeUnicode(rawString []byte) Unicode {
 	// \u000a == \n
 	ret := bytes.Replace(rawString, []byte{'\\', 'u', '0', '0', '0', 'a'}, []byte{'\n'}, -1)
+	// newer versions of python escape these bytes too
+	ret = bytes.Replace(ret, []byte(`\u0000`), []byte{'\x00'}, -1)
+	ret = bytes.Replace(ret, []byte(`\u000d`), []byte{'\r'}, -1)
+	ret = bytes.Replace(ret, []byte(`\u001a`), []byte{'\x1a'}, -1)
 	// \u005c' == \\
 	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '5', 'c'}, []byte{'\\'}, -1)
 	return Unicode(ret)
-- 
2.43.0


From a8cdec7f7a01684dc39a4061b6be3a6d623b2637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 20/27] fix: a list taken from the memo lacks the elements
 appended to it

The memo keeps the list as it was when it was put there, which is before its
elements are appended.
---
 internal/pickle/decoder.go |  4 ++--
 internal/pickle/numpy.go   |  4 ++--
 internal/pickle/types.go   | 11 ++++++-----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 173c38f..652bf9d 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -103,7 +103,7 @@ loop:
 			d.machine.push(tuple)
 		case opList:
 			list := append(List{}, d.machine.popMark()...)
-			d.machine.push(list)
+			d.machine.push(&list)
 		case opAppend:
 			el := d.machine.pop()
 			obj := d.machine.pop()
@@ -111,7 +111,7 @@ loop:
 			if err != nil {
 				return nil, err
 			}
-			list = append(list, el)
+			*list = append(*list, el)
 			d.machine.push(list)
 		case opUnicode:
 			line, err := d.readLine()
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 85c98bb..483a4c0 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -73,9 +73,9 @@ func (a *NumpyArrayRaw) Build(build Build) (err error) {
 	case Build, Reduce:
 		// if we've got Build or Reduce objects we have a deal with plain data stored in raw byte array
 		err = ParseClass(&a.Data, args[4])
-	case List:
+	case *List:
 		// sometimes we've got data stored as python list (for array of python objects)
-		a.DataList = x
+		a.DataList = *x
 	default:
 		err = fmt.Errorf("unexpected type %T", args[4])
 	}
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 54c6c38..df01baa 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -8,7 +8,8 @@ type None struct{}
 // Tuple is python tuple
 type Tuple []interface{}
 
-// List is python list
+// List is python list. The machine holds pointers to lists, because a list in
+// the memo gets its elements after it was put there
 type List []interface{}
 
 // Dict represents python's dict.
@@ -70,13 +71,13 @@ func toTuple(obj interface{}, length int) (Tuple, error) {
 	return tuple, nil
 }
 
-func toList(obj interface{}, length int) (List, error) {
-	list, ok := obj.(List)
+func toList(obj interface{}, length int) (*List, error) {
+	list, ok := obj.(*List)
 	if !ok {
 		return nil, fmt.Errorf("expected List object (got %T)", obj)
 	}
-	if length > -1 && len(list) != length {
-		return nil, fmt.Errorf("expected List with length %d (got %d)", length, len(list))
+	if length > -1 && len(*list) != length {
+		return nil, fmt.Errorf("expected List with length %d (got %d)", length, len(*list))
 	}
 	return list, nil
 }
-- 
2.43.0


From a064dc494f5b25b93d2613e9f8365b8299d78299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 21/27] fix: an object taken from the memo lacks the state it
 was built with

The byte order of an array's type is part of this state: arrays that share
their type through the memo were read as little endian.
---
 internal/pickle/decoder.go |  5 ++++-
 internal/pickle/numpy.go   |  2 +-
 internal/pickle/types.go   | 12 +++++++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 652bf9d..92d2e6a 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -122,7 +122,7 @@ loop:
 		case opReduce:
 			args := d.machine.pop()
 			callable := d.machine.pop()
-			r := Reduce{Callable: callable}
+			r := &Reduce{Callable: callable}
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
@@ -135,6 +135,9 @@ loop:
 			args := d.machine.pop()
 			obj := d.machine.pop()
 			b := Build{Object: obj, Args: args}
+			if r, ok := obj.(*Reduce); ok && r.built == nil {
+				r.built = &b
+			}
 			d.machine.push(b)
 		case opDict:
 			objs := d.machine.popMark()
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 483a4c0..18cac24 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -70,7 +70,7 @@ func (a *NumpyArrayRaw) Build(build Build) (err error) {
 	}
 
 	switch x := args[4].(type) {
-	case Build, Reduce:
+	case Build, *Reduce:
 		// if we've got Build or Reduce objects we have a deal with plain data stored in raw byte array
 		err = ParseClass(&a.Data, args[4])
 	case *List:
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index df01baa..65c76df 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -25,10 +25,13 @@ type Global struct {
 	Name   string
 }
 
-// Reduce is result of REDUCE pickle command (usually class __init__ call)
+// Reduce is result of REDUCE pickle command (usually class __init__ call). The
+// machine holds pointers to it, because an object in the memo gets its state
+// after it was put there
 type Reduce struct {
 	Callable interface{}
 	Args     Tuple
+	built    *Build
 }
 
 // Build is result of BUILD pickle command (usually class __setstate__ call)
@@ -112,11 +115,11 @@ func toBuild(obj interface{}) (Build, error) {
 
 func toReduce(obj interface{}) (Reduce, error) {
 	def := Reduce{}
-	reduce, ok := obj.(Reduce)
+	reduce, ok := obj.(*Reduce)
 	if !ok {
 		return def, fmt.Errorf("expected Reduce object (got %T)", obj)
 	}
-	return reduce, nil
+	return *reduce, nil
 }
 
 func (d *Dict) value(key string) (interface{}, error) {
@@ -154,6 +157,9 @@ func (d *Dict) toFloat(key string) (float64, error) {
 // ParseClass calls PythonClass's Reduce and Build methods
 func ParseClass(entity PythonClass, obj interface{}) (err error) {
 	build, hasBuild := obj.(Build)
+	if r, ok := obj.(*Reduce); ok && r.built != nil {
+		build, hasBuild = *r.built, true
+	}
 	var reduce Reduce
 	if hasBuild {
 		reduce, err = toReduce(build.Object)
-- 
2.43.0


From 7f7dc687fad289f0c3f9f89e63b3fcc53ccc284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:49 +0000
Subject: [PATCH 22/27] fix: GET of a value the memo does not have is not an
 error

---
 internal/pickle/decoder.go | 5 ++++-
 internal/pickle/machine.go | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 92d2e6a..49a9c0a 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -52,7 +52,10 @@ loop:
 			if err != nil {
 				return nil, err
 			}
-			obj := d.machine.getMemory(string(line))
+			obj, ok := d.machine.getMemory(string(line))
+			if !ok {
+				return nil, fmt.Errorf("get: memo has no value %s", line)
+			}
 			d.machine.push(obj)
 		case opGlobal:
 			module, err := d.readLine()
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index 2b9c498..fe2939a 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -46,6 +46,7 @@ func (m *machine) putMemory(key string) {
 	m.memory[key] = m.stack[len(m.stack)-1]
 }
 
-func (m *machine) getMemory(key string) interface{} {
-	return m.memory[key]
+func (m *machine) getMemory(key string) (interface{}, bool) {
+	obj, ok := m.memory[key]
+	return obj, ok
 }
-- 
2.43.0


From 4951645316835ef5153f461551504da62846a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 23/27] fix: comparison helpers miss NaN against a number

|NaN - x| > threshold is never true, so AlmostEqualFloat64Slices and
NumMismatchedFloat64Slices took NaN predictions for matching ones.
---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index 0dba10d..f5db2b3 100644
--- a/util/util.go
+++ b/util/util.go
@@ -226,7 +226,7 @@ func AlmostEqualFloat64Slices(a, b []float64, threshold float64) error {
 		return fmt.Errorf("different sizes: len(a) = %d, len(b) = %d", len(a), len(b))
 	}
 	for i := range a {
-		if math.Abs(a[i]-b[i]) > threshold {
+		if math.Abs(a[i]-b[i]) > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i]) {
 			return fmt.Errorf("%d element mismatch: a[%d] = %f, b[%d] = %f", i, i, a[i], i, b[i])
 		}
 	}
@@ -239,7 +239,7 @@ func NumMismatchedFloat64Slices(a, b []float64, threshold float64) (int, error)
 	}
 	count := 0
 	for i := range a {
-		if math.Abs(a[i]-b[i]) > threshold {
+		if math.Abs(a[i]-b[i]) > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i]) {
 			count++
 		}
 	}
-- 
2.43.0


From 3d7382133e0dc3902a053d83db70c98185889f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:12 +0000
Subject: [PATCH 24/27] fix: AlmostEqualFloat64 takes equal infinities for
 different

---
 util/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index f5db2b3..172ab99 100644
--- a/util/util.go
+++ b/util/util.go
@@ -218,7 +218,8 @@ func ConstructBitset(values []int) []uint32 {
 }
 
 func AlmostEqualFloat64(a, b, threshold float64) bool {
-	return math.Abs(a-b) <= threshold
+	// difference of equal infinities is NaN
+	return a == b || math.Abs(a-b) <= threshold
 }
 
 func AlmostEqualFloat64Slices(a, b []float64, threshold float64) error {
-- 
2.43.0


From 9779223a77bfcc60b555bd32484e8dfa6f3de0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:28 +0000
Subject: [PATCH 25/27] fix: LightGBM trees whose arrays contradict num_leaves
 were accepted

---
 lgensemble_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 4e3c74c..7b51cc3 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -125,6 +125,9 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 	if err != nil {
 		return t, err
 	}
+	if len(leafValues) != numLeaves {
+		return t, fmt.Errorf("unexpected number of leaf values (%d, num_leaves is %d)", len(leafValues), numLeaves)
+	}
 	t.leafValues = leafValues
 
 	if numLeaves == 1 {
@@ -153,6 +156,11 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		return t, err
 	}
 
+	if len(leftChilds) != numNodes || len(rightChilds) != numNodes || len(decisionTypes) != numNodes ||
+		len(splitFeatures) != numNodes || len(thresholds) != numNodes {
+		return t, fmt.Errorf("unexpected number of nodes (num_leaves is %d)", numLeaves)
+	}
+
 	catThresholds := make([]uint32, 0)
 	catBoundaries := make([]uint32, 0)
 	if numCategorical > 0 {
-- 
2.43.0


From a95fda8fb067489ae36dca3aa1d8532ea48c953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 26/27] fix: LightGBM JSON trees whose leaves contradict
 num_leaves were accepted

---
 lgensemble_io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 7b51cc3..7909891 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -485,6 +485,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 
 	if value, ok := treeJSON.Root.(float64); ok {
 		// special case - constant value tree
+		if treeJSON.NumLeaves != 1 {
+			return t, fmt.Errorf("unexpected number of leaves (1, num_leaves is %d)", treeJSON.NumLeaves)
+		}
 		t.leafValues = append(t.leafValues, value)
 		return t, nil
 	}
@@ -629,6 +632,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			}
 		}
 	}
+	if len(t.leafValues) != treeJSON.NumLeaves {
+		return t, fmt.Errorf("unexpected number of leaves (%d, num_leaves is %d)", len(t.leafValues), treeJSON.NumLeaves)
+	}
 	return t, nil
 }
 
-- 
2.43.0


From 9d1e9932b7641f32e52a6f25784ae5117a458bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:31 +0000
Subject: [PATCH 27/27] fix: scikit-learn trees with contradicting numbers of
 nodes, values and outputs were accepted

---
 skensemble_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skensemble_io.go b/skensemble_io.go
index 5dc7d61..942dcbc 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -14,6 +14,14 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	// no support for categorical features in sklearn trees
 	t.nCategorical = 0
 
+	if tree.Tree.NOutputs != 1 {
+		return t, fmt.Errorf("support only trees with 1 output (got %d)", tree.Tree.NOutputs)
+	}
+	if len(tree.Tree.Nodes) != tree.Tree.NNodes || len(tree.Tree.Values) != tree.Tree.NNodes {
+		return t, fmt.Errorf("unexpected number of nodes (%d) and values (%d) for node count %d",
+			len(tree.Tree.Nodes), len(tree.Tree.Values), tree.Tree.NNodes)
+	}
+
 	numLeaves := 0
 	numNodes := 0
 	for _, n := range tree.Tree.Nodes {
-- 
2.43.0


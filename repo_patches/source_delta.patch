From c0f2750d783b9f6ce07f9a8391fbe0b64973cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 01/15] fix: clear variables when resetting the scoper

Variables declared in a scope that was still open when Reset was called
kept their old scope level and were renamed differently afterwards.
---
 query/scoper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/query/scoper.go b/query/scoper.go
index b907a91..5059749 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -118,4 +118,5 @@ func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
 
 func (s *baseScoper) Reset() {
 	s.scopes = nil
+	s.vars = make(map[QVar]int)
 }
-- 
2.43.0


From e328ce2ea30b8ad5caf8614130fae8b0426ad774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 02/15] fix: report temporary file errors in ComputeOptim

---
 compute/optimum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/optimum.go b/compute/optimum.go
index 43f14c2..b81cb22 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -47,7 +47,7 @@ func ComputeOptim(
 
 	tmpfp, err := os.CreateTemp("", "tmp.cnf")
 	if err != nil {
-		return OptOutput{}, nil
+		return OptOutput{}, err
 	}
 	defer func() {
 		tmpfp.Close()
-- 
2.43.0


From 876cd96e9d2de6ee2de39b59acb1aaba0fecad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 03/15] fix: report distance errors in leh.ConstConstConst

---
 query/extensions/leh/const_const_const.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query/extensions/leh/const_const_const.go b/query/extensions/leh/const_const_const.go
index 31f2744..e186866 100644
--- a/query/extensions/leh/const_const_const.go
+++ b/query/extensions/leh/const_const_const.go
@@ -42,11 +42,11 @@ func (l ConstConstConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 
 	hd12, err := hammingDistCC(sc1, sc2)
 	if err != nil {
-		return cnf.CNF{}, nil
+		return cnf.CNF{}, err
 	}
 	hd13, err := hammingDistCC(sc1, sc3)
 	if err != nil {
-		return cnf.CNF{}, nil
+		return cnf.CNF{}, err
 	}
 
 	if hd12 > hd13 {
-- 
2.43.0


From 2593e51ac8cc5b3618e1126571e385c00b6b846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 04/15] fix: name leh.ConstVarConst distance variable after its
 constant

The distance encoded is the one between I2 and I1 but the variable was
generated from I3, clashing with the distance between I2 and I3.
---
 query/extensions/leh/const_var_const.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index 9d6a61a..a879d89 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -36,7 +36,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I2)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
-- 
2.43.0


From a70da8244fdfc5e0e18f00881febf8da182ef214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 05/15] fix: require full variable in trivial leh distances

ConstConstVar and ConstVarConst accepted variables that are not full when
the distance comparison holds for every full instance.
---
 query/extensions/leh/const_const_var.go | 2 +-
 query/extensions/leh/const_var_const.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/query/extensions/leh/const_const_var.go b/query/extensions/leh/const_const_var.go
index 659ca26..e1fe6df 100644
--- a/query/extensions/leh/const_const_var.go
+++ b/query/extensions/leh/const_const_var.go
@@ -52,7 +52,7 @@ func (l ConstConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == 0 {
-		return cnf.TrueCNF, nil
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index a879d89..f12904c 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -52,7 +52,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == dim {
-		return cnf.TrueCNF, nil
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
-- 
2.43.0


From b23ca3e0e255d6caeb2897e2401ba12d974490d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 06/15] fix: separate feature indexes in hepr preference
 variables

Preferences such as [1 2] and [12] generated the same variable.
---
 query/extensions/hepr/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/query/extensions/hepr/util.go b/query/extensions/hepr/util.go
index 9735deb..09c9819 100644
--- a/query/extensions/hepr/util.go
+++ b/query/extensions/hepr/util.go
@@ -28,7 +28,10 @@ func validatePref(pref []int, dim int) error {
 func prefVar(pref []int) query.QVar {
 	var sb strings.Builder
 
-	for _, idx := range pref {
+	for i, idx := range pref {
+		if i > 0 {
+			sb.WriteByte(',')
+		}
 		sb.WriteString(strconv.Itoa(idx))
 	}
 
-- 
2.43.0


From ac60e6af1b477b83ce8aacefb99d011c21b41d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 07/15] fix: accept empty preferences in hepr variable
 encodings

ConstVar, VarConst and VarVar panicked with an empty preference, which
ConstConst accepts.
---
 query/extensions/hepr/const_var.go | 5 +++++
 query/extensions/hepr/var_const.go | 5 +++++
 query/extensions/hepr/var_var.go   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/query/extensions/hepr/const_var.go b/query/extensions/hepr/const_var.go
index 08b801f..7837679 100644
--- a/query/extensions/hepr/const_var.go
+++ b/query/extensions/hepr/const_var.go
@@ -48,6 +48,11 @@ func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	// Without preferences every instance has the same rank.
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_const.go b/query/extensions/hepr/var_const.go
index a1df829..0296300 100644
--- a/query/extensions/hepr/var_const.go
+++ b/query/extensions/hepr/var_const.go
@@ -48,6 +48,11 @@ func (d VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	// Without preferences every instance has the same rank.
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_var.go b/query/extensions/hepr/var_var.go
index 6d437d2..d4f3f09 100644
--- a/query/extensions/hepr/var_var.go
+++ b/query/extensions/hepr/var_var.go
@@ -35,6 +35,11 @@ func (d VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	// Without preferences every instance has the same rank.
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	sv1 := ctx.ScopeVar(d.I1)
 	sv2 := ctx.ScopeVar(d.I2)
 	vvp := d.FeaturePreferenceRankVarGen(prefVar(d.Preference), sv1, sv2)
-- 
2.43.0


From 0229849dd63b5ea235dffcfa50f69911ba0f7b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 08/15] fix: do not panic on empty models in dfs

---
 query/extensions/dfs/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/query/extensions/dfs/utils.go b/query/extensions/dfs/utils.go
index 16da7b4..ced177a 100644
--- a/query/extensions/dfs/utils.go
+++ b/query/extensions/dfs/utils.go
@@ -12,6 +12,10 @@ func leafsAsConsts(
 	dim int,
 	nodes []query.Node,
 ) ([]query.QConst, []query.QConst, error) {
+	if len(nodes) == 0 {
+		return nil, nil, nil
+	}
+
 	for _, n := range nodes {
 		if err := validateNode(n, dim, len(nodes)); err != nil {
 			return nil, nil, err
-- 
2.43.0


From 5d776aed6f3199e19351506847bb9f4dc2bd9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 09/15] fix: reject models with invalid nodes in isnode and
 allcomp

allcomp.Const, allcomp.Var and isnode.Var panicked, or encoded clauses over
nodes that do not exist, where isnode.Const and dfs return an error.
---
 query/extensions/allcomp/const.go |  9 ++-------
 query/extensions/allcomp/utils.go | 33 +++++++++++++++++++++++++++++++
 query/extensions/allcomp/var.go   |  6 ++++++
 query/predicates/isnode/utils.go  | 33 +++++++++++++++++++++++++++++++
 query/predicates/isnode/var.go    |  6 ++++++
 5 files changed, 80 insertions(+), 7 deletions(-)
 create mode 100644 query/extensions/allcomp/utils.go
 create mode 100644 query/predicates/isnode/utils.go

diff --git a/query/extensions/allcomp/const.go b/query/extensions/allcomp/const.go
index c68301c..8db4ae2 100644
--- a/query/extensions/allcomp/const.go
+++ b/query/extensions/allcomp/const.go
@@ -2,7 +2,6 @@ package allcomp
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/jtcaraball/goexpdt/cnf"
 	"github.com/jtcaraball/goexpdt/query"
@@ -49,12 +48,8 @@ func (ac Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		if n.Feat < 0 || n.Feat >= dim {
-			return cnf.CNF{}, fmt.Errorf(
-				"Node's feature %d is out of range [0, %d]",
-				n.Feat,
-				dim-1,
-			)
+		if err := validateNode(n, dim, len(nodes)); err != nil {
+			return cnf.CNF{}, err
 		}
 
 		switch sc.Val[n.Feat] {
diff --git a/query/extensions/allcomp/utils.go b/query/extensions/allcomp/utils.go
new file mode 100644
index 0000000..dda5576
--- /dev/null
+++ b/query/extensions/allcomp/utils.go
@@ -0,0 +1,33 @@
+package allcomp
+
+import (
+	"fmt"
+
+	"github.com/jtcaraball/goexpdt/query"
+)
+
+// validateNode returns a non nill error if the node n is invalid for the the
+// given dimension and number of nodes.
+func validateNode(n query.Node, dim, nlen int) error {
+	if n.IsLeaf() {
+		return nil
+	}
+
+	if n.Feat < 0 || n.Feat >= dim {
+		return fmt.Errorf(
+			"Node's feature %d is out of range [0, %d]",
+			n.Feat,
+			dim-1,
+		)
+	}
+
+	if n.ZChild < 0 || n.ZChild >= nlen {
+		return fmt.Errorf("Node's ZChild out of bounds %d", n.ZChild)
+	}
+
+	if n.OChild < 0 || n.OChild >= nlen {
+		return fmt.Errorf("Node's OChild out of bounds %d", n.OChild)
+	}
+
+	return nil
+}
diff --git a/query/extensions/allcomp/var.go b/query/extensions/allcomp/var.go
index 6eb3d71..78d5cab 100644
--- a/query/extensions/allcomp/var.go
+++ b/query/extensions/allcomp/var.go
@@ -34,6 +34,12 @@ func (ac Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
 	}
 
+	for _, node := range nodes {
+		if err := validateNode(node, ctx.Dim(), len(nodes)); err != nil {
+			return cnf.CNF{}, err
+		}
+	}
+
 	sv := ctx.ScopeVar(ac.I)
 	svReach := ac.ReachNodeVarGen(sv)
 	ncnf := cnf.CNF{}
diff --git a/query/predicates/isnode/utils.go b/query/predicates/isnode/utils.go
new file mode 100644
index 0000000..a18c3b3
--- /dev/null
+++ b/query/predicates/isnode/utils.go
@@ -0,0 +1,33 @@
+package isnode
+
+import (
+	"fmt"
+
+	"github.com/jtcaraball/goexpdt/query"
+)
+
+// validateNode returns a non nill error if the node n is invalid for the the
+// given dimension and number of nodes.
+func validateNode(n query.Node, dim, nlen int) error {
+	if n.IsLeaf() {
+		return nil
+	}
+
+	if n.Feat < 0 || n.Feat >= dim {
+		return fmt.Errorf(
+			"Node's feature %d is out of range [0, %d]",
+			n.Feat,
+			dim-1,
+		)
+	}
+
+	if n.ZChild < 0 || n.ZChild >= nlen {
+		return fmt.Errorf("Node's ZChild out of bounds %d", n.ZChild)
+	}
+
+	if n.OChild < 0 || n.OChild >= nlen {
+		return fmt.Errorf("Node's OChild out of bounds %d", n.OChild)
+	}
+
+	return nil
+}
diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 5f7277a..e0ebb95 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -30,6 +30,12 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
 	}
 
+	for _, node := range nodes {
+		if err := validateNode(node, ctx.Dim(), len(nodes)); err != nil {
+			return cnf.CNF{}, err
+		}
+	}
+
 	dim := ctx.Dim()
 	ncnf := cnf.CNF{}
 	sv := ctx.ScopeVar(f.I)
-- 
2.43.0


From 87a6c19f0429e83b823c76e6ebce1a756836a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 10/15] fix: do not share reach variables between isnode and
 allcomp

Both define (svReach, 0, i) but disagree on what a bottom feature reaches, so
using them on the same variable was unsatisfiable whenever a node was decided
on a bottom feature.
---
 query/predicates/isnode/var.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index e0ebb95..258e06e 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -42,7 +42,8 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	svReach := f.ReachNodeVarGen(sv)
 
 	// We will encode that sv reaches a node with index i as the triple
-	// (svReach, 0, i).
+	// (svReach, 1, i). The index 0 is used by the allcomp extension, for which
+	// bottom features reach both children.
 
 	// Every feature that is not BOT must be decided on
 	fcl := []cnf.Clause{}
@@ -55,13 +56,13 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 0, i))
+		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))
 	}
 
 	ncnf = ncnf.AppendSemantics(fcl...)
 
 	// Root is always reachable
-	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 0, 0)})
+	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 1, 0)})
 
 	// Add non-bot progapation clauses
 	for i, node := range nodes {
@@ -71,28 +72,28 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		ncnf = ncnf.AppendConsistency(
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.ZChild),
 			},
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ONE)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.OChild),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.OChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, node.OChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ONE)),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
 			},
 		)
-- 
2.43.0


From cfc6e6a232fe21734e84b1a1ce497928cc181834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 11/15] fix: evaluate queries in a clean context

QDTFAtom.Sat and the first step of ComputeOptim encoded into whatever state
the previous evaluation left in the context, so the answer could depend on
earlier evaluations.
---
 compute/boolcomb.go | 5 +++++
 compute/optimum.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/compute/boolcomb.go b/compute/boolcomb.go
index ceb1074..1c33d99 100644
--- a/compute/boolcomb.go
+++ b/compute/boolcomb.go
@@ -66,6 +66,11 @@ func (a QDTFAtom) Sat(
 	ctx query.QContext,
 	solver Solver,
 ) (bool, error) {
+	// Discard what previous computations left in the context.
+	if ctx != nil {
+		ctx.Reset()
+	}
+
 	err := solver.Step(a.Query, ctx)
 	if err != nil {
 		if errors.Is(err, UnsatError) {
diff --git a/compute/optimum.go b/compute/optimum.go
index b81cb22..9c025d1 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -54,6 +54,11 @@ func ComputeOptim(
 		os.Remove(tmpfp.Name())
 	}()
 
+	// Discard what previous computations left in the context.
+	if ctx != nil {
+		ctx.Reset()
+	}
+
 	if err = solver.Step(logop.WithVar{I: v, Q: fg(v)}, ctx); err != nil {
 		if errors.Is(err, UnsatError) {
 			return OptOutput{false, query.QConst{}, 1}, nil
-- 
2.43.0


From 348f16abeb83ee0c335836ee6075fab5a816d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 12/15] fix: do not write into clauses shared between formulas

Negate, AppendSemantics and AppendConsistency appended to the backing arrays
of their receiver, which other formulas may share.
---
 cnf/cnf.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index 2f7b4a6..31fc597 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -125,7 +125,7 @@ func (c *CNF) tseytinNegation(tv int) {
 				clauses = append(clauses, Clause{-lit, -auxv})
 			}
 			// Oposite implication.
-			clauses = append(clauses, append(clause, auxv))
+			clauses = append(clauses, append(clause[:len(clause):len(clause)], auxv))
 		}
 
 		// Literals representing negated clauses.
@@ -133,7 +133,10 @@ func (c *CNF) tseytinNegation(tv int) {
 	}
 
 	// If no errors were found then update CNF.
-	c.cClauses = append(c.cClauses, clauses...)
+	c.cClauses = append(
+		c.cClauses[:len(c.cClauses):len(c.cClauses)],
+		clauses...,
+	)
 	c.tv = tv
 
 	// Generate bidirectional implication from new enc literal and enclits.
@@ -173,7 +176,7 @@ func (c CNF) AppendSemantics(clauses ...Clause) CNF {
 	topv := maxInt(c.tv, maxVar(clauses))
 	return CNF{
 		tv:       topv,
-		sClauses: append(c.sClauses, clauses...),
+		sClauses: append(c.sClauses[:len(c.sClauses):len(c.sClauses)], clauses...),
 		cClauses: c.cClauses,
 	}
 }
@@ -184,7 +187,7 @@ func (c CNF) AppendConsistency(clauses ...Clause) CNF {
 	return CNF{
 		tv:       topv,
 		sClauses: c.sClauses,
-		cClauses: append(c.cClauses, clauses...),
+		cClauses: append(c.cClauses[:len(c.cClauses):len(c.cClauses)], clauses...),
 	}
 }
 
-- 
2.43.0


From 93957e8a620a1432a409fbf593d5d6d44d49293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 13/15] fix: report features without value in the solver output

Values returned constants of a smaller dimension when the output did not
decide a feature.
---
 compute/solver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compute/solver.go b/compute/solver.go
index 9286a3e..7b6d185 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -3,6 +3,7 @@ package compute
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"os"
 	"os/exec"
 	"strconv"
@@ -174,6 +175,11 @@ func varValueFromBytes(
 			c.Val = append(c.Val, query.ZERO)
 			continue
 		}
+		return query.QConst{}, fmt.Errorf(
+			"Solver output has no value for feature %d of variable '%s'",
+			i,
+			v,
+		)
 	}
 
 	return c, nil
-- 
2.43.0


From f9fb236af12173c2fc1d70fc7812edd54ae52ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 14/15] fix: resolve constants to the innermost scope

Nested guarded quantifiers over the same constant name used the value of the
outer one.
---
 query/scoper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/query/scoper.go b/query/scoper.go
index 5059749..1fb2e87 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -78,7 +78,8 @@ func (s *baseScoper) AddVar(v QVar) {
 }
 
 func (s *baseScoper) ScopeConst(c QConst) (QConst, bool) {
-	for _, g := range s.scopes {
+	for i := len(s.scopes) - 1; i >= 0; i-- {
+		g := s.scopes[i]
 		if g.target == c.ID {
 			return QConst{c.ID, g.value}, true
 		}
-- 
2.43.0


From 3925556f15ac8602bb0a05f9f0450f28d17ad7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 15/15] fix: accept any spacing in solver value lines

A bare "v" line made Values panic and repeated or trailing blanks made it
fail.
---
 compute/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/solver.go b/compute/solver.go
index 7b6d185..9f2642e 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -150,7 +150,7 @@ func varValueFromBytes(
 		if len(line) == 0 || line[0] != byte(118) {
 			continue
 		}
-		for _, vb := range bytes.Split(line[2:], []byte(" ")) {
+		for _, vb := range bytes.Fields(line[1:]) {
 			val, err := strconv.Atoi(string(vb))
 			if err != nil {
 				return query.QConst{}, err
-- 
2.43.0


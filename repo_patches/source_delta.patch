From 6c70bfc71b34a168a16dd4bd8ddd72e3f504ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 01/17] fix: set difference with an empty left operand is empty

apply(0, g) with OPdiff returned g instead of 0.
---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index e4ccd8b..3c7cd77 100644
--- a/operations.go
+++ b/operations.go
@@ -236,7 +236,7 @@ func (b *BDD) apply(left int, right int) int {
 			return 0
 		}
 		if left == 0 {
-			return right
+			return 0
 		}
 	case OPless:
 		if (left == right) || (left == 1) {
-- 
2.43.0


From 0da8d3ff00f453cde9d7e953fee7a607ba0e8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 02/17] fix: Allsat stops and returns the error of its callback

---
 operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index 3c7cd77..92f5344 100644
--- a/operations.go
+++ b/operations.go
@@ -723,7 +723,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(low, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -733,7 +733,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(high, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From a576cf379d28008ba6ef49f18144d8b443d357ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 03/17] fix: Exist over the empty set of variables returns its
 operand

The constant varset was rejected by quantset2cache before the special case.
---
 operations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 92f5344..89a6dd9 100644
--- a/operations.go
+++ b/operations.go
@@ -398,12 +398,12 @@ func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(varset) != nil {
 		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
 	}
-	if err := b.quantset2cache(*varset); err != nil {
-		return nil
-	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
 	}
+	if err := b.quantset2cache(*varset); err != nil {
+		return nil
+	}
 
 	b.quantcache.id = cacheidEXIST
 	b.applycache.op = int(OPor)
-- 
2.43.0


From ef8559806101e7b41dba876f0cc82f3617833609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 04/17] fix: New takes Maxnodesize into account

The limit was never copied into the node table.
---
 buddy.go | 1 +
 hudd.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/buddy.go b/buddy.go
index 3f6e8c3..7e16560 100644
--- a/buddy.go
+++ b/buddy.go
@@ -94,6 +94,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	nodesize := primeGte(config.nodesize)
 	impl.nodes = make([]buddynode, nodesize)
diff --git a/hudd.go b/hudd.go
index bd817d1..7e8fd48 100644
--- a/hudd.go
+++ b/hudd.go
@@ -94,6 +94,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	// initializing the list of nodes
 	nodesize := config.nodesize
-- 
2.43.0


From 4cbcc2d820e9480f99eb8b9cf59d803ffe0770fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 05/17] fix: Ithvar and NIthvar reject indices that do not fit
 an int32

---
 bdd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdd.go b/bdd.go
index 002580d..4b24291 100644
--- a/bdd.go
+++ b/bdd.go
@@ -263,7 +263,7 @@ func (b *BDD) checkptr(n Node) error {
 // expression xi), otherwise we set the error status in the BDD and returns the
 // nil node. The requested variable must be in the range [0..Varnum).
 func (b *BDD) Ithvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to ithvar", i)
 	}
 	// we do not need to reference count variables
@@ -274,7 +274,7 @@ func (b *BDD) Ithvar(i int) Node {
 // success (the expression !xi), otherwise the nil node. See *ithvar* for
 // further info.
 func (b *BDD) NIthvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to nithvar", i)
 	}
 	// we do not need to reference count variables
-- 
2.43.0


From 4198f5d579ad184619badfea1cdb972abe4bc3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 06/17] fix: Retnode rejects the index one past the node table

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 9983ede..8495cd4 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -16,7 +16,7 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
diff --git a/hkernel.go b/hkernel.go
index 554c344..5643741 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -16,7 +16,7 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
 		}
-- 
2.43.0


From 280a421acb9a84e33faf97ed806e9b793d0bf9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 07/17] fix: operations given a nil node return an error
 instead of panicking

The error messages dereferenced the node that had just been found to be nil
(checkptr already reports the index of an invalid node).
---
 operations.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/operations.go b/operations.go
index 89a6dd9..115fd02 100644
--- a/operations.go
+++ b/operations.go
@@ -101,7 +101,7 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 // the zero-terminal with references to the one-terminal and vice versa.
 func (b *BDD) Not(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong operand in call to Not (%d)", *n)
+		return b.seterror("Wrong operand in call to Not")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -145,10 +145,10 @@ func (b *BDD) not(n int) int {
 //    OPinvimp      reverse implication      [1,0,1,1]
 func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 	if b.checkptr(n1) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: %d, n2: ...)", op, *n1)
+		return b.seterror("Wrong operand in call to Apply %s (n1)", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %d)", op, *n2)
+		return b.seterror("Wrong operand in call to Apply %s (n2)", op)
 	}
 	b.applycache.op = int(op)
 	b.Initref()
@@ -305,13 +305,13 @@ func (b *BDD) apply(left int, right int) int {
 // & g) | (!f & h)] more efficiently than doing the three operations separately.
 func (b *BDD) Ite(f, g, h Node) Node {
 	if b.checkptr(f) != nil {
-		return b.seterror("Wrong operand in call to Ite (f: %d)", *f)
+		return b.seterror("Wrong operand in call to Ite (f)")
 	}
 	if b.checkptr(g) != nil {
-		return b.seterror("Wrong operand in call to Ite (g: %d)", *g)
+		return b.seterror("Wrong operand in call to Ite (g)")
 	}
 	if b.checkptr(h) != nil {
-		return b.seterror("Wrong operand in call to Ite (h: %d)", *h)
+		return b.seterror("Wrong operand in call to Ite (h)")
 	}
 	b.Initref()
 	b.Pushref(*f)
@@ -393,10 +393,10 @@ func (b *BDD) ite(f, g, h int) int {
 // nil and set the error flag in b if there is an error.
 func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong node in call to Exist (n: %d)", *n)
+		return b.seterror("Wrong node in call to Exist (n)")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
+		return b.seterror("Wrong varset in call to Exist")
 	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
@@ -448,16 +448,16 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 		return b.seterror("operator %s not supported in call to AppEx")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("wrong varset in call to AppEx (%d)", *varset)
+		return b.seterror("wrong varset in call to AppEx")
 	}
 	if *varset < 2 { // we have an empty set
 		return b.Apply(n1, n2, op)
 	}
 	if b.checkptr(n1) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(left: %d)", op, *n1)
+		return b.seterror("wrong operand in call to AppEx %s (left)", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(right: %d)", op, *n2)
+		return b.seterror("wrong operand in call to AppEx %s (right)", op)
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -592,7 +592,7 @@ func (b *BDD) appquant(left, right, varset int) int {
 // variables with new ones. See type Replacer.
 func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("wrong operand in call to Replace (%d)", *n)
+		return b.seterror("wrong operand in call to Replace")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -658,7 +658,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 func (b *BDD) Satcount(n Node) *big.Int {
 	res := big.NewInt(0)
 	if b.checkptr(n) != nil {
-		b.seterror("Wrong operand in call to Satcount (%d)", *n)
+		b.seterror("Wrong operand in call to Satcount")
 		return res
 	}
 	// We compute 2^level with a bit shift 1 << level
@@ -698,7 +698,7 @@ func (b *BDD) satcount(n int, satc map[int]*big.Int) *big.Int {
 // point.
 func (b *BDD) Allsat(f func([]int) error, n Node) error {
 	if b.checkptr(n) != nil {
-		return fmt.Errorf("wrong node in call to Allsat (%d)", *n)
+		return fmt.Errorf("wrong node in call to Allsat")
 	}
 	prof := make([]int, b.varnum)
 	for k := range prof {
-- 
2.43.0


From 81bfaa50662d348cb91b63052fdb920b5ee6de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 08/17] fix: And and Or of a single invalid node return nil and
 set the error status

---
 bdd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bdd.go b/bdd.go
index 4b24291..804022e 100644
--- a/bdd.go
+++ b/bdd.go
@@ -317,6 +317,9 @@ func (b *BDD) High(n Node) Node {
 // computes the intersection of a sequence of Boolean vectors.
 func (b *BDD) And(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return nil
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
@@ -329,6 +332,9 @@ func (b *BDD) And(n ...Node) Node {
 // the union of a sequence of Boolean vectors.
 func (b *BDD) Or(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return nil
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
-- 
2.43.0


From 1b851f357aecc8cf0e94193e16317331d2d84076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 09/17] fix: failure to create a node is reported and does not
 corrupt the BDD

When the node table was full, Makenode returned -1 without setting the error
status, kept cache entries for the nodes reclaimed by the failed attempt, and
later built nodes with -1 as a branch.
---
 bdd.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bdd.go b/bdd.go
index 804022e..55a840d 100644
--- a/bdd.go
+++ b/bdd.go
@@ -167,6 +167,10 @@ func (b *BDD) Varnum() int {
 // exist or creates a new one in the BDD. You can create a node from the value
 // returned by Makenode using function Retnode.
 func (b *BDD) Makenode(level int32, low, high int) int {
+	if low < 0 || high < 0 {
+		// the computation of one of the branches failed
+		return -1
+	}
 	res, err := b.tables.makenode(level, low, high, b.refstack)
 	if err == nil {
 		return res
@@ -183,7 +187,13 @@ func (b *BDD) Makenode(level int32, low, high int) int {
 		b.cacheresize(b.size())
 		return res
 	}
-	return res
+	// We could not create the node. The failed attempt may have reclaimed some
+	// nodes, so we also need to invalidate the caches.
+	b.cachereset()
+	if b.error == nil {
+		b.seterror("cannot create node in Makenode; %s", err)
+	}
+	return -1
 }
 
 // caches is a collection of caches used for operations
-- 
2.43.0


From 7552468cf05c80be74ad775c5a352a82d4203e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 10/17] fix: use the nodes freed by a collection when the table
 cannot grow

makenode gave up when the table could not be enlarged, even if the collection
had just freed some nodes.
---
 bkernel.go | 7 +++----
 hkernel.go | 5 ++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 8495cd4..1b6cf77 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -78,11 +78,10 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			if b.noderesize() == errResize {
+				err = errResize
+				hash = b.nodehash(level, low, high)
 			}
-			hash = b.nodehash(level, low, high)
 		}
 		// Panic if we still have no free positions after all this
 		if b.freepos == 0 {
diff --git a/hkernel.go b/hkernel.go
index 5643741..17a084a 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -70,9 +70,8 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			if b.noderesize() == errResize {
+				err = errResize
 			}
 		}
 		// Panic if we still have no free positions after all this
-- 
2.43.0


From d3d288782d2d9ca8046d81c4de97e6f1eea805a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 11/17] fix: Replace returns an error when a sub-result is
 refused

correctify accessed node -1 when the replacement of a branch had failed.
---
 operations.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/operations.go b/operations.go
index 115fd02..d84564e 100644
--- a/operations.go
+++ b/operations.go
@@ -618,6 +618,10 @@ func (b *BDD) replace(n int, r Replacer) int {
 }
 
 func (b *BDD) correctify(level int32, low, high int) int {
+	// we check for errors
+	if low < 0 || high < 0 {
+		return -1
+	}
 	/* FIXME: we do not use the cache here */
 	if (level < b.level(low)) && (level < b.level(high)) {
 		return b.Makenode(level, low, high)
-- 
2.43.0


From dac85ae9e01d152bbaf5369c03da1ca883c9e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 12/17] fix: Makeset and Makecube check their variables

Variables outside the BDD built nodes with an unknown level instead of
reporting an error, and Makeset of an unsorted slice, or of one with
repetitions, built nodes that break the order on variables.
---
 operations.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index d84564e..3dce29b 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"sort"
 )
 
 // Scanset returns the set of variables (levels) found when following the high
@@ -43,13 +44,26 @@ func (b *BDD) Makeset(varset []int) Node {
 	// 	res = tmp
 	// }
 	// return res
+	for _, v := range varset {
+		if v < 0 || v >= int(b.varnum) {
+			b.seterror("unknown variable (%d) in call to Makeset", v)
+			return bddzero
+		}
+	}
+	// nodes must be built following the order on variables
+	vars := append([]int{}, varset...)
+	sort.Ints(vars)
 	res := 1
 	b.Initref()
-	for k := len(varset) - 1; k >= 0; k-- {
-		res = b.Makenode(int32(varset[k]), 0, res)
+	for k := len(vars) - 1; k >= 0; k-- {
+		if k+1 < len(vars) && vars[k] == vars[k+1] {
+			b.Pushref(res)
+			continue
+		}
+		res = b.Makenode(int32(vars[k]), 0, res)
 		b.Pushref(res)
 	}
-	b.Popref(len(varset))
+	b.Popref(len(vars))
 	return b.Retnode(res)
 }
 
@@ -83,6 +97,11 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	if len(varset) != len(polarity) {
 		return b.seterror("wrong size for slices in Makecube")
 	}
+	for _, v := range varset {
+		if v < 0 || v >= int(b.varnum) {
+			return b.seterror("unknown variable (%d) in call to Makecube", v)
+		}
+	}
 	b.Initref()
 	for k := len(polarity) - 1; k >= 0; k-- {
 		if polarity[k] {
-- 
2.43.0


From e92a1044dcb55587a8ac6874328fa39dc23b3fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 13/17] fix: NewReplacer rejects out of range variables and
 duplicates in newvars

Negative or too large variables caused a panic and a variable occurring twice
in newvars was accepted.
---
 replace.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/replace.go b/replace.go
index 6a33658..1720901 100644
--- a/replace.go
+++ b/replace.go
@@ -68,7 +68,16 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	res.id = (_REPLACEID << 2) | cacheidREPLACE
 	_REPLACEID++
 	varnum := b.Varnum()
+	for k, v := range oldvars {
+		if v < 0 || v >= varnum {
+			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
+		}
+		if newvars[k] < 0 || newvars[k] >= varnum {
+			return nil, fmt.Errorf("invalid variable in newvars (%d)", newvars[k])
+		}
+	}
 	support := make([]bool, varnum)
+	newsupport := make([]bool, varnum)
 	res.image = make([]int32, varnum)
 	for k := range res.image {
 		res.image[k] = int32(k)
@@ -77,13 +86,11 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 		if support[v] {
 			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
 		}
-		if v >= varnum {
-			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
-		}
-		if newvars[k] >= varnum {
-			return nil, fmt.Errorf("invalid variable in newvars (%d)", v)
+		if newsupport[newvars[k]] {
+			return nil, fmt.Errorf("duplicate variable (%d) in newvars", newvars[k])
 		}
 		support[v] = true
+		newsupport[newvars[k]] = true
 		res.image[v] = int32(newvars[k])
 		if int32(v) > res.last {
 			res.last = int32(v)
-- 
2.43.0


From c8e4716b2bb5702e604de1554522f3408fd31c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 14/17] fix: Dot reports invalid nodes

---
 stdio.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stdio.go b/stdio.go
index 05686f8..d99e416 100644
--- a/stdio.go
+++ b/stdio.go
@@ -96,6 +96,12 @@ func (b *BDD) Dot(w io.Writer, n ...Node) error {
 		fmt.Fprintf(w, "Error: %s\n", mesg)
 		return fmt.Errorf(mesg)
 	}
+	for _, v := range n {
+		if err := b.checkptr(v); err != nil {
+			fmt.Fprintf(w, "Error: %s\n", err)
+			return fmt.Errorf("wrong node in call to Dot; %s", err)
+		}
+	}
 	// we write the result by visiting each node but we never draw edges to the
 	// False constant.
 	fmt.Fprintln(w, "digraph G {")
-- 
2.43.0


From f44f7c476fb86de4d58fe3398e6afe2e77f7380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 15/17] fix: a saturated reference counter is never decremented

Handles created after the counter reached _MAXREFCOUNT are not counted, so the
finalizers of the others could free a node that is still in use.
---
 buddy.go | 5 ++++-
 hudd.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/buddy.go b/buddy.go
index 7e16560..72fe2b8 100644
--- a/buddy.go
+++ b/buddy.go
@@ -127,7 +127,10 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a counter that reached its maximal value is sticky
+		if impl.nodes[*n].refcou&_MAXREFCOUNT != _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	for k := 0; k < config.varnum; k++ {
 		v0, _ := impl.makenode(int32(k), 0, 1, nil)
diff --git a/hudd.go b/hudd.go
index 7e8fd48..730cc8b 100644
--- a/hudd.go
+++ b/hudd.go
@@ -151,7 +151,10 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a counter that reached its maximal value is sticky
+		if impl.nodes[*n].refcou&_MAXREFCOUNT != _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	b.tables = impl
 	b.cacheinit(config)
-- 
2.43.0


From 8f64c377b9add706f300da80e2b94d3fca087f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 16/17] fix: reference counters are protected from concurrent
 finalizers

Finalizers run in their own goroutine. An update of refcou in Retnode, or the
copy of the table in noderesize, could overwrite a concurrent decrement (or be
overwritten by it), which leaks nodes or frees nodes in use.
---
 bkernel.go | 5 +++++
 buddy.go   | 4 ++++
 hkernel.go | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/bkernel.go b/bkernel.go
index 1b6cf77..1d3d7ff 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -29,6 +29,9 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	// finalizers, that decrement refcou, run in another goroutine
+	b.Lock()
+	defer b.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -134,8 +137,10 @@ func (b *tables) noderesize() error {
 	}
 
 	tmp := b.nodes
+	b.Lock()
 	b.nodes = make([]buddynode, nodesize)
 	copy(b.nodes, tmp)
+	b.Unlock()
 
 	for n := 0; n < oldsize; n++ {
 		b.nodes[n].hash = 0
diff --git a/buddy.go b/buddy.go
index 72fe2b8..fd9a366 100644
--- a/buddy.go
+++ b/buddy.go
@@ -9,6 +9,7 @@ package rudd
 import (
 	"fmt"
 	"log"
+	"sync"
 	"sync/atomic"
 	"unsafe"
 )
@@ -17,6 +18,7 @@ import (
 // Diagrams based on the data structures and algorithms found in the BuDDy
 // library.
 type tables struct {
+	sync.Mutex              // Protects reference counters, that are also accessed by finalizers
 	nodes         []buddynode // List of all the BDD nodes. Constants are always kept at index 0 and 1
 	freenum       int         // Number of free nodes
 	freepos       int         // First free node
@@ -121,6 +123,8 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl.freenum = nodesize - 2
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
+		impl.Lock()
+		defer impl.Unlock()
 		if _DEBUG {
 			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
 			if _LOGLEVEL > 2 {
diff --git a/hkernel.go b/hkernel.go
index 17a084a..b01cb9d 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -29,6 +29,9 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	// finalizers, that decrement refcou, run in another goroutine
+	b.Lock()
+	defer b.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -176,8 +179,10 @@ func (b *tables) noderesize() error {
 	}
 
 	tmp := b.nodes
+	b.Lock()
 	b.nodes = make([]huddnode, nodesize)
 	copy(b.nodes, tmp)
+	b.Unlock()
 
 	for n := oldsize; n < nodesize; n++ {
 		b.nodes[n].refcou = 0
-- 
2.43.0


From b881c35f89b160b5508cad8ced7d8134b219e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 17/17] fix: no integer overflow with a large Maxnodeincrease

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 1d3d7ff..d7058cc 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -124,7 +124,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && (nodesize-oldsize) > b.maxnodeincrease {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
diff --git a/hkernel.go b/hkernel.go
index b01cb9d..fd34b78 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -167,7 +167,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && (nodesize-oldsize) > b.maxnodeincrease {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
-- 
2.43.0


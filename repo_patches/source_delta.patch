From 67972e77077a6dda2fa338f13ebc8a03fac2986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 01/41] fix: Monom::div of two monomials of one component is a
 ring monomial

The quotient kept the component, so reductions by a module element moved
every term of the multiple into the component of the leading term.
---
 ginv/monom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 13392fd..b032c45 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -275,6 +275,8 @@ void Monom::mult(Monom::Variable v, const Monom& a) {
   
 void Monom::div(const Monom& a) {
   assert(divisiable(a));
+  if (mPos == a.mPos)
+    mPos = -1;
   mDegree -=a.mDegree;
   Variable *i=mVariables;
   const Variable* const iend=mVariables+mSize;
-- 
2.43.0


From fc1826e30e8bd9e6bd9586dfadd9cbf60cc34101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 02/41] fix: monomials of different components are not equal

Monom == and Wrap::update ignored the component, so the involutive
algorithms reduced unrelated components against each other.
---
 ginv/monom.cpp | 2 +-
 ginv/wrap.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index b032c45..c27301a 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -217,7 +217,7 @@ void Monom::permutation(const Monom &a, RandPermutation &p) {
 
 bool operator==(const Monom& a, const Monom& b) {
   assert(a.mSize == b.mSize);
-  bool r=a.mDegree == b.mDegree;
+  bool r=a.mPos == b.mPos && a.mDegree == b.mDegree;
   if (r) {
     const Monom::Variable *ia=a.mVariables,
                           *ib=b.mVariables;
diff --git a/ginv/wrap.cpp b/ginv/wrap.cpp
index 532d960..82d9d33 100644
--- a/ginv/wrap.cpp
+++ b/ginv/wrap.cpp
@@ -23,7 +23,7 @@
 namespace GInv {
 
 void Wrap::update(const Monom& m) {
-  if (mLm.lex(m) != 0) {
+  if (mLm != m) {
     mLm = m;
     mAnsector = m;
     for(int i=0; i < mLm.size(); i++) {
-- 
2.43.0


From c0457aacb7123d68d78bdbcd4a0d639ea2cda434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 03/41] fix: detect the unit ideal when the constant appears
 inside a block, and only for ideals

A constant produced by reductions inside a block of equal degree was not
recognised (isOne() false), and a unit vector of a module was.
---
 ginv/poly_int.cpp | 15 +++++++++++----
 ginv/poly_int.h   |  3 +++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d0a199..ab75e93 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -720,7 +720,7 @@ void JanetPolyInt::algorithmBlockTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (isConst(j.data()->poly())) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -838,6 +838,13 @@ std::cerr << "A" << std::endl;
       }
     } while(k1);
 
+    if (isConst(tmp.head()->poly())) {
+      for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
+        delete j.data();
+      setOne(order, size);
+      break;
+    }
+
     GCListWrapPolyInt::Iterator k(tmp.begin());
     while(k) {
       k.data()->update(k.data()->poly().lm());
@@ -939,7 +946,7 @@ void JanetPolyInt::algorithmTQ1() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (isConst(j.data()->poly())) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1123,7 +1130,7 @@ void JanetPolyInt::algorithmTQ2() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (isConst(j.data()->poly())) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1318,7 +1325,7 @@ void JanetPolyInt::algorithmTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (isConst(j.data()->poly())) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index f6f95fa..885c60e 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -367,6 +367,9 @@ class JanetPolyInt {
   void setPos();
   void setOne(int order, int size);
   void prolong(WrapPolyInt *w);
+  bool isConst(const PolyInt &a) const {
+    return mPos == -1 && a.degree() == 0;
+  }
   bool assertT() const;
 
   static void insert(GCListWrapPolyInt &lst, WrapPolyInt *w);
-- 
2.43.0


From 4f9372c757878738acb859ffa3cc44c5be888529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 04/41] fix: examine the remaining nonmultiplicative
 prolongations before stopping

Elements above the current degree were not prolonged, and were forgotten
if the queue then became empty: the result was no Groebner basis.
---
 ginv/poly_int.cpp | 15 +++++++++++----
 ginv/poly_int.h   |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index ab75e93..460ba06 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -632,6 +632,13 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     }
 }
 
+bool JanetPolyInt::prolong() {
+  if (!mQ)
+    for(GCListWrapPolyInt::ConstIterator k(mT.begin()); k; ++k)
+      prolong(k.data());
+  return mQ;
+}
+
 bool JanetPolyInt::assertT() const {
   if (mT) {
     GCListWrapPolyInt::ConstIterator i(mT.begin());
@@ -704,7 +711,7 @@ void JanetPolyInt::algorithmBlockTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(prolong()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -928,7 +935,7 @@ void JanetPolyInt::algorithmTQ1() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(prolong()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1112,7 +1119,7 @@ void JanetPolyInt::algorithmTQ2() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(prolong()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1309,7 +1316,7 @@ void JanetPolyInt::algorithmTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(prolong()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 885c60e..10c86b5 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -367,6 +367,7 @@ class JanetPolyInt {
   void setPos();
   void setOne(int order, int size);
   void prolong(WrapPolyInt *w);
+  bool prolong();
   bool isConst(const PolyInt &a) const {
     return mPos == -1 && a.degree() == 0;
   }
-- 
2.43.0


From 75875fb25e37c3661d4eca6993f37cebb2ef06f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 05/41] fix: the product criterion holds for ideals only, not
 for modules

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 460ba06..8516bc8 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -618,7 +618,7 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     if (w->NM(i) && !w->build(i)) {
       Monom m(allocator, i, w->lm());
       const WrapPolyInt *d=find(m);
-      if (d && m.degree() >=
+      if (mPos == -1 && d && m.degree() >=
         (w->ansector().degree() + d->ansector().degree())) {
         ++mCritI;
         w->setBuild(i);
-- 
2.43.0


From e9f440fffb4f477fcd33bab97b880dff55c7558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 06/41] fix: tail-reduce the elements of a block against each
 other

With an order that is not degree compatible an element could keep tail
terms divisible by another element of the same block (assertT()).
---
 ginv/poly_int.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 8516bc8..2fc1cc9 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -859,6 +859,14 @@ std::cerr << "A" << std::endl;
       mJanet[k.data()->lm().pos()+1].insert(k.data());
       ++k;
     }
+    for(k = tmp.begin(); k; ++k) {
+      int r=k.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        k.data()->poly().pp();
+        k.data()->reallocate();
+      }
+    }
 
 //     if (degPref > deg) {
 //       delete[] mJanet;
-- 
2.43.0


From 09a2d99eaa354012a2e89a3236e7c1fdc73414bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 07/41] fix: PolyInt::mult by a single term released only the
 first old term

---
 ginv/poly_int.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 2fc1cc9..27afca8 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -295,7 +295,8 @@ void PolyInt::mult(const PolyInt &a) {
       }
     }
     mHead.swap(tmp);
-    mAllocator->destroy(tmp.head());
+    for(List<Term*>::Iterator k(tmp.begin()); k; k.del())
+      mAllocator->destroy(k.data());
   }
   else {
     List<Term*> sum(mAllocator);
-- 
2.43.0


From eb4e527f10e5d6e347582a2692a8ec4b0a1dc2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 08/41] fix: the zeroth power of a polynomial is one, not zero

---
 ginv/poly_int.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 27afca8..9dcb680 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -359,8 +359,10 @@ void PolyInt::pow(int deg) {
   assert(deg >= 0);
   if (deg == 1)
     ;
-  else if (deg == 0)
+  else if (deg == 0) {
     clear();
+    mHead.push(new(mAllocator) Term(mAllocator, mSize));
+  }
   else {
     assert(deg > 1);
     PolyInt tmp(mAllocator, *this);
-- 
2.43.0


From 389e51901a60a01138b050da25075dca98163a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 09/41] fix: constant polynomials: zero has no terms, adding to
 zero and under alex

PolyInt(...,"0x0") and add/sub of 0x0 stored a zero coefficient, adding to
the zero polynomial read the missing head, and with the alex order the
constant was put behind the smaller terms.
---
 ginv/poly_int.cpp | 44 ++------------------------------------------
 ginv/poly_int.h   |  2 ++
 2 files changed, 4 insertions(+), 42 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 9dcb680..d0c05c2 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -127,26 +127,7 @@ void PolyInt::minus() {
 }
 
 void PolyInt::add(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i)
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.add(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  add(PolyInt(mAllocator, mOrder, mSize, hex));
 }
 
 void PolyInt::add(const PolyInt &a) {
@@ -183,28 +164,7 @@ void PolyInt::add(const PolyInt &a) {
 }
 
 void PolyInt::sub(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i) {
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-    i.data()->mCoeff.set_neg();
-  }
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.sub(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  sub(PolyInt(mAllocator, mOrder, mSize, hex));
 }
 
 void PolyInt::sub(const PolyInt &a) {
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 10c86b5..bcd9d9a 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -134,6 +134,8 @@ public:
       mAllocator(allocator),
       mHead(allocator) {
     mHead.push(new(allocator) Term(allocator, size, integer));
+    if (lc().isZero())
+      clear();
     assert(assertValid());
   }
   PolyInt(Allocator* allocator, int order, const Monom& a):
-- 
2.43.0


From 43d0782a12e85325c133d616fd0d2475269d9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 10/41] fix: copying a Janet tree lost the subtree of the last
 node of every level

---
 ginv/janet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index 73b1e62..ee660c2 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -97,6 +97,8 @@ Janet::Link Janet::build(Link j, Allocator* allocator) {
     i->mNextDeg = new(allocator) Node(j->mDeg, j->mWrap);
     i = i->mNextDeg;
   }
+  if (j->mNextVar)
+    i->mNextVar = build(j->mNextVar, allocator);
   return r;
 }
 
-- 
2.43.0


From 3fc0eb13c545b79567c3dc72bb354686e791a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 11/41] fix: MCompletion used a duplicate element after
 destroying it

---
 ginv/mcompletion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/mcompletion.cpp b/ginv/mcompletion.cpp
index 337881f..4868d19 100644
--- a/ginv/mcompletion.cpp
+++ b/ginv/mcompletion.cpp
@@ -35,8 +35,10 @@ void MCompletion::insert(Wrap *w) {
   }
   if (!j || mCmp(*j.data(), *w) > 0)
     j.insert(w);
-  else
+  else {
     mAllocator->destroy(w);
+    return;
+  }
   ++j;
   while(j) {
     for(int v=0; v < w->lm().size(); v++) {
-- 
2.43.0


From 4479dd9e95d4e608e6598a92a681c9cd8f248d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 12/41] fix: assigning a GCPolyInt shared and then double-freed
 its arena

---
 ginv/poly_int.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index bcd9d9a..1e06bf4 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -245,6 +245,11 @@ public:
   }
   ~GCPolyInt() {}
 
+  void operator=(const GCPolyInt &a) {
+    assert(this != &a);
+    PolyInt::operator=(a);
+  }
+
   void swap(GCPolyInt &a) {
     AllocatorPtr::swap(a);
     PolyInt::swap(a);
-- 
2.43.0


From 6d98d451c72e28ad2fecbfe4cabe09bb176a9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 13/41] fix: compare with a product by the component of the
 product, not of its first factor

---
 ginv/poly.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ginv/poly.cpp b/ginv/poly.cpp
index a6b8dcd..2a73e48 100644
--- a/ginv/poly.cpp
+++ b/ginv/poly.cpp
@@ -22,6 +22,10 @@
 
 namespace GInv {
 
+static inline int multPos(const Monom& b, const Monom& c) {
+  return (b.pos() == -1) ? c.pos(): b.pos();
+}
+
 int Poly::TOPlex(const Monom& a, const Monom& b) {
   int r=a.lex(b);
   if (r == 0 && a.pos() != b.pos())
@@ -45,22 +49,22 @@ int Poly::TOPalex(const Monom& a, const Monom& b) {
 
 int Poly::TOPlex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.lex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != multPos(b, c))
+    r = (a.pos() > multPos(b, c)) ? 1: -1;
   return r;
 }
 
 int Poly::TOPdeglex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.deglex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != multPos(b, c))
+    r = (a.pos() > multPos(b, c)) ? 1: -1;
   return r;
 }
 
 int Poly::TOPalex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.alex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != multPos(b, c))
+    r = (a.pos() > multPos(b, c)) ? 1: -1;
   return r;
 }
 
@@ -93,8 +97,8 @@ int Poly::POTalex(const Monom& a, const Monom& b) {
 
 int Poly::POTlex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != multPos(b, c))
+    r = (a.pos() > multPos(b, c)) ? 1: -1;
   else
     r = a.lex(b, c);
   return r;
@@ -102,8 +106,8 @@ int Poly::POTlex2(const Monom& a, const Monom& b, const Monom& c) {
 
 int Poly::POTdeglex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != multPos(b, c))
+    r = (a.pos() > multPos(b, c)) ? 1: -1;
   else
     r = a.deglex(b, c);
   return r;
@@ -111,8 +115,8 @@ int Poly::POTdeglex2(const Monom& a, const Monom& b, const Monom& c) {
 
 int Poly::POTalex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != multPos(b, c))
+    r = (a.pos() > multPos(b, c)) ? 1: -1;
   else
     r = a.alex(b, c);
   return r;
-- 
2.43.0


From 179c46d002e3c0cb3c979c287c3669e58deea962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 14/41] fix: assigning an empty red-black tree dereferenced a
 null root

---
 util/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cdf17d4..cac4272 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -522,7 +522,7 @@ public:
     assert(this != &a);
     if (mRoot)
       clear(mRoot, mAllocator);
-    mRoot = copy(a.mRoot, mAllocator, nullptr);
+    mRoot = (a.mRoot) ? copy(a.mRoot, mAllocator, nullptr): nullptr;
     mCount = a.mCount;
     assert(assertValid());
   }
-- 
2.43.0


From d0de53b5d906c3ab8cc2c3eb35218b3cb0fa0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 15/41] fix: the move constructor of the red-black tree did not
 compile

---
 util/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cac4272..01cfa82 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -475,7 +475,7 @@ public:
   };
 
   inline RBTree(RBTree&& a):
-      mAllocator(a.allocator),
+      mAllocator(a.mAllocator),
       mRoot(a.mRoot),
       mCount(a.mCount) {
     a.mRoot = nullptr;
-- 
2.43.0


From 9ee6ba365ef1f117df4b537df1cd9eb0536e2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 16/41] fix: move assignment of a list did not compile

---
 util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/list.h b/util/list.h
index 60d015f..76ce2b4 100644
--- a/util/list.h
+++ b/util/list.h
@@ -211,7 +211,7 @@ public:
       ++i;
     }
   }
-  inline void operator=(const List&& a) {
+  inline void operator=(List&& a) {
     assert(this != &a);
 
     Iterator(this).clear();
-- 
2.43.0


From 815c1cc2188405558a7c2b6b2c6e3926a9a0f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 17/41] fix: copying or multiplying the integer zero aborted in
 builds with assertions

---
 util/integer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/util/integer.cpp b/util/integer.cpp
index fdf1f6f..2836399 100644
--- a/util/integer.cpp
+++ b/util/integer.cpp
@@ -27,7 +27,6 @@ char*  Integer::sBuffer=new char[Integer::sBufferSize];
 
 #ifdef GINV_UTIL_INTEGER_ALLOCATOR  
   void Integer::reallocate(int size) {
-    assert(size > 0);
     if (mMpz._mp_alloc < size) {
       if (mMpz._mp_alloc)
         mAllocator->dealloc(mMpz._mp_d, mMpz._mp_alloc);
-- 
2.43.0


From 45e66adb3dc9a05b4853a076f542caa4600a9b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 18/41] fix: elements completed by the TQ algorithms are made
 primitive

An element entered the basis with its content when its tail was not reduced,
against the invariant assertT() states (isPp).
---
 ginv/poly_int.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index d0c05c2..f864318 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1023,6 +1023,7 @@ void JanetPolyInt::algorithmTQ1() {
     }
     assert(assertSort(mQ));
 
+    w->poly().pp();
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
@@ -1214,6 +1215,7 @@ void JanetPolyInt::algorithmTQ2() {
       w->poly().pp();
       w->reallocate();
     }
+    w->poly().pp();
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
@@ -1372,6 +1374,7 @@ void JanetPolyInt::algorithmTQ() {
     }
      assert(assertSort(mQ));
 
+    w->poly().pp();
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
-- 
2.43.0


From 036cafe05dcdd9cbde9bff4ed8a64a91e8106509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 19/41] fix: the unit ideal says nothing of components above
 the ring's

---
 ginv/poly_int.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 1e06bf4..5c9d7ca 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -415,6 +415,11 @@ public:
   }
   void push(const PolyInt& a) {
     assert(comparable(a));
+    if (mOneWrap && a.maxPos() > -1) {
+      mQ.push(mOneWrap);
+      mOneWrap = nullptr;
+      mPos = -2;
+    }
     if (mOneWrap == nullptr && a)
       insert(mQ, new WrapPolyInt(a));
   }
@@ -436,7 +441,7 @@ public:
   }
   WrapPolyInt* find(const Monom &m) const {
     if (mOneWrap)
-      return mOneWrap;
+      return (m.pos() == -1)? mOneWrap: nullptr;
     else if (mJanet == nullptr || mPos < m.pos())
       return nullptr;
     else
-- 
2.43.0


From 8d415b5e217b7c4305d007a2a62cd1e4c4a583fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 20/41] fix: binding: polynomial minus a Python integer added
 the integer

---
 cython/ginv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 73ed869..8fe8606 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -517,7 +517,7 @@ cdef class const_poly_int:
     if isinstance(other, const_poly_int):
       return -other.sub(self)
     else:
-      return self.add(other)
+      return self.sub(other)
 
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
-- 
2.43.0


From 88d57606ce97fab493515b40635f98b05d05dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 21/41] fix: binding: Python integer on the left of a
 polynomial operation

---
 cython/ginv.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 8fe8606..2030a5c 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -498,6 +498,8 @@ cdef class const_poly_int:
       return other.add(self)
     else:
       return self.add(other)
+  def __radd__(self, other):
+    return self.add(other)
 
   def sub(const_poly_int self, other):
     assert self.ptr
@@ -518,6 +520,9 @@ cdef class const_poly_int:
       return -other.sub(self)
     else:
       return self.sub(other)
+  def __rsub__(self, other):
+    r = self.sub(other)
+    return r if r is NotImplemented else -r
 
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
@@ -538,6 +543,8 @@ cdef class const_poly_int:
       return other.mul(self)
     else:
       return self.mul(other)
+  def __rmul__(self, other):
+    return self.mul(other)
 
   def __pow__(const_poly_int self, int other, modulo):
     assert other >= 0
-- 
2.43.0


From 0bc08191ea088c2e47eab08fd728f90db058aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 22/41] fix: binding: integer operations on the zero polynomial
 raised AssertionError

---
 cython/ginv.pyx | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 2030a5c..677559c 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -484,7 +484,6 @@ cdef class const_poly_int:
     r = poly_int()
     r.ptr = new PolyInt(r.allocator, self.ptr[0])
     if isinstance(other, int):
-      assert self
       (<PolyInt*>r.ptr).addI(hex(other).encode("utf-8"))
     elif isinstance(other, const_poly_int):
       assert (<const_poly_int>other).ptr and self.ptr.comparable((<const_poly_int>other).ptr[0])
@@ -506,7 +505,6 @@ cdef class const_poly_int:
     r = poly_int()
     r.ptr = new PolyInt(r.allocator, self.ptr[0])
     if isinstance(other, int):
-      assert self
       (<PolyInt*>r.ptr).subI(hex(other).encode("utf-8"))
     elif isinstance(other, const_poly_int):
       assert (<const_poly_int>other).ptr and self.ptr.comparable((<const_poly_int>other).ptr[0])
@@ -529,7 +527,6 @@ cdef class const_poly_int:
     r = poly_int()
     r.ptr = new PolyInt(r.allocator, self.ptr[0])
     if isinstance(other, int):
-      assert self
       (<PolyInt*>r.ptr).multI(hex(other).encode("utf-8"))
     elif isinstance(other, const_poly_int):
       assert (<const_poly_int>other).ptr and self.ptr.comparable((<const_poly_int>other).ptr[0])
-- 
2.43.0


From b5c09654998732ff2ae348dcfe3a975870fff6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 23/41] fix: binding: timer of a Janet basis reported the time
 of the garbage collector

---
 cython/ginv.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 677559c..b373ce0 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -74,11 +74,11 @@ cdef class const_timer:
     self.ptr = NULL
 
   def userTime(self):
-    return allocator_timer().userTime()
+    return self.ptr.userTime()
   def sysTime(self):
-    return allocator_timer().sysTime()
+    return self.ptr.sysTime()
   def realTime(self):
-    return allocator_timer().realTime()
+    return self.ptr.realTime()
 
   def __str__(self):
     return "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (\
-- 
2.43.0


From bdd8a54c2eabad9249070ea700a1db061df51229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 24/41] fix: binding: views kept pointers into collected
 polynomials and bases

---
 cython/ginv.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index b373ce0..b358ba7 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -70,6 +70,7 @@ cdef class const_timer_GC:
 
 cdef class const_timer:
   cdef const Timer* ptr
+  cdef object owner # keeps alive what ptr points into
   def __cinit__(self):
     self.ptr = NULL
 
@@ -172,6 +173,7 @@ cdef extern from "integer.h" namespace "GInv":
 
 cdef class const_integer:
   cdef const Integer *ptr
+  cdef object owner # keeps alive what ptr points into
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -247,6 +249,7 @@ cdef extern from "monom.h" namespace "GInv":
 
 cdef class const_monom:
   cdef const Monom *ptr
+  cdef object owner # keeps alive what ptr points into
   def __cinit__(self):
     self.ptr = NULL
 
@@ -399,6 +402,7 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class const_poly_int:
   cdef const PolyInt *ptr
+  cdef object owner # keeps alive what ptr points into
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -415,6 +419,7 @@ cdef class const_poly_int:
     while i.isNext():
       m, c = const_monom(), const_integer()
       m.ptr, c.ptr = &i.monom(), &i.coeff()
+      m.owner, c.owner = self, self
       i.next()
       yield (m, c)
   def __str__(self):
@@ -445,12 +450,14 @@ cdef class const_poly_int:
     assert self
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def lc(self):
     assert self.ptr
     assert self
     r = const_integer()
     r.ptr = &self.ptr.lc()
+    r.owner = self
     return r
   def comparable(self, const_poly_int other):
     return self.ptr.comparable(other.ptr[0])
@@ -605,16 +612,19 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class wrap_poly_int:
   cdef const WrapPolyInt *ptr
+  cdef object owner # keeps alive what ptr points into
   def __cinit__(self, ):
     self.ptr = NULL
 
   def lm(self):
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def ansector(self):
     r = const_monom()
     r.ptr = &self.ptr.ansector()
+    r.owner = self
     return r
   def isGB(self):
     return self.ptr.isGB()
@@ -626,6 +636,7 @@ cdef class wrap_poly_int:
   def poly(self):
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
+    r.owner = self
     return r
 
   def __str__(self):
@@ -647,6 +658,7 @@ cdef extern from "janet.h" namespace "GInv":
 
 cdef class const_janet:
   cdef const Janet *ptr
+  cdef object owner # keeps alive what ptr points into
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -716,6 +728,7 @@ cdef class janet_poly_int:
     while i.isNext():
       r = wrap_poly_int()
       r.ptr = i.data()
+      r.owner = self
       i.next()
       yield r
 
@@ -741,6 +754,7 @@ cdef class janet_poly_int:
     else:
       r = wrap_poly_int()
       r.ptr = w
+      r.owner = self
       return r
 
   def nf(self, const_poly_int p):
@@ -754,6 +768,7 @@ cdef class janet_poly_int:
     assert -1 <= pos <= self.ptr.maxPos()
     r = const_janet()
     r.ptr = &self.ptr.janet(pos)
+    r.owner = self
     return r
 
   def HilbertPoly(self):
@@ -771,6 +786,7 @@ cdef class janet_poly_int:
   def timer(self):
     r = const_timer()
     r.ptr = &self.ptr.timer()
+    r.owner = self
     return r
   def reduction(self):
     return self.ptr.reduction()
-- 
2.43.0


From 832b8b27e714a4f5bfe4f5826bfa6dfefb4fa55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 25/41] fix: binding: the memory of collected monomials and
 polynomials was never freed

---
 cython/ginv.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index b358ba7..bf0c609 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -329,9 +329,12 @@ cdef class const_monom:
     return self.ptr.alex(other.ptr[0])
 
 cdef class monom(const_monom):
-  cdef Allocator allocator[1]
+  cdef Allocator *allocator
+  def __cinit__(self):
+    self.allocator = new Allocator()
   def __dealloc__(self):
     del self.ptr
+    del self.allocator
 
   @staticmethod
   def zero(int size, int pos):
@@ -562,9 +565,12 @@ cdef class const_poly_int:
     return self.ptr.isPp()
 
 cdef class poly_int(const_poly_int):
-  cdef Allocator allocator[1]
+  cdef Allocator *allocator
+  def __cinit__(self):
+    self.allocator = new Allocator()
   def __dealloc__(self):
     del self.ptr
+    del self.allocator
 
   @staticmethod
   def to_monom(pos, order, const_monom a):
-- 
2.43.0


From 38917e5b56c3d146a93dbff5d6164fb40678c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 26/41] fix: a number minus a Python polynomial subtracted the
 number from the polynomial

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index c40b8f7..9909e08 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -107,7 +107,7 @@ class Poly(list):
     return p
 
   def __rsub__(self, other):
-    return self-other
+    return -self + other
 
   def __sub__(self, other):
     if other == S.Zero:
-- 
2.43.0


From f0217e9668dc2db05715952218b26ea77bf5d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 27/41] fix: a number divided by a Python polynomial divided
 the polynomial by the number

---
 pyginv/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 9909e08..58fa91b 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -167,7 +167,8 @@ class Poly(list):
     return p
   
   def __rtruediv__(self, other):
-    return self/other
+    assert len(self) == 1 and not self[0][0]
+    return self.__class__(S(other)/self[0][1])
   
   def __truediv__(self, other):
     p = self.__class__()
-- 
2.43.0


From 2e388460ba1f0cf9519ef48fd189a08ead023579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 28/41] fix: sums, differences and trivial products of Python
 polynomials shared their terms with the operands

---
 pyginv/polynomial.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 58fa91b..be151ea 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -63,7 +63,7 @@ class Poly(list):
     return self.lm().cmp(other.lm())
 
   def __pos__(self):
-    return self
+    return self.__class__(self)
 
   def __neg__(self):
     p = self.__class__()
@@ -76,7 +76,7 @@ class Poly(list):
 
   def __add__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -86,7 +86,7 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append(list(self[i]))
         i += 1
       elif c < 0:
         p.append(other[j])
@@ -98,7 +98,7 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append(list(self[i]))
       i += 1
     while j < jend:
       p.append(other[j])
@@ -111,7 +111,7 @@ class Poly(list):
 
   def __sub__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -121,7 +121,7 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append(list(self[i]))
         i += 1
       elif c < 0:
         p.append([other[j][0], -other[j][1]])
@@ -133,7 +133,7 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append(list(self[i]))
       i += 1
     while j < jend:
       p.append([other[j][0], -other[j][1]])
@@ -146,7 +146,7 @@ class Poly(list):
 
   def __mul__(self, other):
     if other == S.One:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -181,7 +181,7 @@ class Poly(list):
     if other == 0:
       p = self.__class__(Integer(1))
     else:
-      p = self
+      p = self.__class__(self)
       for i in range(1, other):
         p = p*self
     return p
-- 
2.43.0


From 4884f002bf7c04085a729cb44756b8a8e7fc7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 29/41] fix: S polynomials of Python module elements failed,
 the lcm lost the component

---
 pyginv/monomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyginv/monomial.py b/pyginv/monomial.py
index 3594da0..55894dd 100644
--- a/pyginv/monomial.py
+++ b/pyginv/monomial.py
@@ -164,7 +164,9 @@ class Monom(tuple):
 
   def lcm(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-    return Monom(max(i, j) for i, j in zip(self, other))
+    r = Monom(max(i, j) for i, j in zip(self, other))
+    r.__pos = max(self.__pos, other.__pos)
+    return r
 
   def gcd(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-- 
2.43.0


From 816664e6bb8c8c145dd17c35cf92788b4dc11e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 30/41] fix: ginvMin never prolonged unless it was told to
 print

---
 pyginv/ginv.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index f57d193..02cb952 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -151,13 +151,14 @@ def ginvMin(pset, invdiv, level=0):
   q = Q(Wrap(p) for p in pset)
   while True:
     m = q[0].lm if q else None
-    if level > 0:
-      if m:
+    if m:
+      if level > 0:
         print(f"prolong {m}")
-        q.push(invdiv.prolongMonom(m))
-      else:
+      q.push(invdiv.prolongMonom(m))
+    else:
+      if level > 0:
         print("prolongAll")
-        q.push(invdiv.prolongAll())
+      q.push(invdiv.prolongAll())
     if not q:
       break
     r = q.reduceAll(invdiv)
-- 
2.43.0


From ebcd2c1ff743c6cc794e485ceb6536c1692e8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 31/41] fix: the product criterion of Python completions was
 applied to modules

---
 pyginv/janet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index fdffb11..04c9ac9 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -79,7 +79,7 @@ class Wrap:
     return sum(0 if i else 1 for i in self.nonmult)
 
   def crit1(self, other):
-    return type(self.poly) == Poly and\
+    return type(self.poly) == Poly and self.lm.position() < 0 and\
         all(i == 0 or j == 0 for i, j in zip(self.ansector, other.ansector))
 
   def crit2(self, other):
-- 
2.43.0


From cc63c777eea226da41cdb07d10d03abaaa683b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 32/41] fix: ginvBlockLow stopped at elements of degree 0

---
 pyginv/ginv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index 02cb952..ceabad6 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -198,9 +198,9 @@ def ginvBlockLow(pset, invdiv, level=0):
     i = invdiv.degMinProlong()
     if level > 0:
       print(f"prolong {i}, Q {j}")
-    if i == 0 and j == 0:
+    if i == 0 and not q:
       break
-    if j == 0 or 0 < i < j:
+    if not q or 0 < i < j:
       q.push(invdiv.prolongDeg(i))
     res = q.reduceMinDegree(invdiv)
     if res:
-- 
2.43.0


From 599e9ca2ebf321e17c5d1e978acebe5f2c15020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 33/41] fix: forests of cached Janet trees failed on tails in
 another component

---
 pyginv/janet.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 04c9ac9..953882a 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -170,8 +170,7 @@ class Janet:
     return False
 
   def findWrap(self, m):
-    if self.root:
-      assert self.pos == m.position()
+    if self.root and self.pos == m.position():
       r, d, v = self.root, m.degree(), 0
       while r and d >= 0: # TODO
         if len(r)-1 <= m[v] and isinstance(r[-1], Wrap):
-- 
2.43.0


From fcb195681c76ba3b37e10016f4649aa5d3c71d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 34/41] fix: cached Janet trees reduced prolongations by
 themselves

---
 pyginv/janet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 953882a..826f8c7 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -384,6 +384,13 @@ class JanetCache(Janet):
     super().__init__(*args)
     self.сache = {}
 
+  def insert(self, q):
+    q = list(q)
+    for w in q:
+      for m in [m for m in self.сache if m.divisible(w.lm)]:
+        del self.сache[m]
+    return super().insert(q)
+
   def find(self, m):
     w = self.findWrap(m)
     if not w:
-- 
2.43.0


From 6547e08a6961435cad21179dfaec03cb41c9bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 35/41] fix: sums, products and derivatives of Python
 polynomials kept terms whose coefficient is zero when multiplied out

---
 pyginv/polynomial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index be151ea..dd46cc7 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -93,6 +93,8 @@ class Poly(list):
         j += 1
       else:
         k = self[i][1] + other[j][1]
+        if not k.is_integer:
+          k = expand(k)
         if k:
           p.append([self[i][0], k])
         i += 1
@@ -128,6 +130,8 @@ class Poly(list):
         j += 1
       else:
         k = self[i][1] - other[j][1]
+        if not k.is_integer:
+          k = expand(k)
         if k:
           p.append([self[i][0], k])
         i += 1
@@ -161,6 +165,8 @@ class Poly(list):
           t[m] = k
     p = self.__class__()
     for m, k in sorted(t.items(), reverse=True):
+      if not k.is_integer:
+        k = expand(k)
       if k:
         p.append([m, k])
     assert p.assertValid()
@@ -196,7 +202,7 @@ class Poly(list):
   def diff(self, dv):
     p = self.__class__()
     for m, k in self:
-      k = sympy.diff(k, dv)
+      k = expand(sympy.diff(k, dv))
       if k:
         p.append([m, k])
     assert p.assertValid()
@@ -451,7 +457,7 @@ class PolyDiff(Poly):
       if m:
         p1.append([m.prolong(var), k])
     for m, k in self:
-      k = sympy.diff(k, PolyDiff.__var[var])
+      k = expand(sympy.diff(k, PolyDiff.__var[var]))
       if k:
         p2.append([m, k])
     return p1 + p2
-- 
2.43.0


From d69e202172939f879f81b273b88fef77ee6ab12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 36/41] fix: Python polynomials with sums for coefficients were
 printed without parentheses

---
 pyginv/polynomial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index dd46cc7..07249d7 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -44,7 +44,7 @@ class Poly(list):
         elif c == S.One:
           r.append(f"{m}")
         else:
-          r.append(f"{m}*{c}")
+          r.append(f"{m}*({c})" if c.is_Add else f"{m}*{c}")
       return " + ".join(r)
 
   def lm(self):
@@ -434,7 +434,7 @@ class PolyDiff(Poly):
         elif c == S.One:
           r.append(f"{m.df()}")
         else:
-          r.append(f"{m.df()}*{c}")
+          r.append(f"{m.df()}*({c})" if c.is_Add else f"{m.df()}*{c}")
       return " + ".join(r)
 
   def df_sympy(self):
@@ -448,7 +448,7 @@ class PolyDiff(Poly):
         elif c == S.One:
           r.append(f"{m.df_sympy()}")
         else:
-          r.append(f"{m.df_sympy()}*{c}")
+          r.append(f"{m.df_sympy()}*({c})" if c.is_Add else f"{m.df_sympy()}*{c}")
       return " + ".join(r)
     
   def prolong(self, var):
@@ -540,7 +540,7 @@ class PolySchem(Poly):
         elif c == S.One:
           r.append(f"{m.T()}")
         else:
-          r.append(f"{m.T()}*{c}")
+          r.append(f"{m.T()}*({c})" if c.is_Add else f"{m.T()}*{c}")
       return " + ".join(r)
   
 if __name__ == '__main__':
-- 
2.43.0


From db0913a075ecd3edd6fe6381f0e0c3c9609fed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 37/41] fix: cached Janet trees prolonged differential
 polynomials without deriving the coefficients

---
 pyginv/janet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 826f8c7..c0d2cee 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -403,7 +403,9 @@ class JanetCache(Janet):
         if m in self.сache:
           r = self.сache[m]
         else:
-          r = w.poly.mult(m1, sympy.S.One)
+          r = w.poly
+          for v in m1.expand():
+            r = r.prolong(v)
         r.NFtail(self)
         r.pp()
         self.сache[m] = r
-- 
2.43.0


From 14d47c9e1e77fe8ce3c19c2560f00a4e5dc1b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:40 +0000
Subject: [PATCH 38/41] fix: rational normal forms of Python polynomials kept
 coefficients that cancel to zero

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 07249d7..b7275eb 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -302,7 +302,7 @@ class Poly(list):
       else:
         k = self[i][1] + other[j][1]*k2
         if not k.is_integer:
-          k = expand(k)
+          k = cancel(k)
         if k == S.Zero:
           del self[i]
         else:
-- 
2.43.0


From 41723ec511a60bdd6b303ae0fcb22a8507aaadd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:13 +0000
Subject: [PATCH 39/41] fix: algorithmTQ2 restarted with trees that forget
 prolongations

When the degree of the examined elements fell, algorithmTQ2 threw its Janet
trees away and put T back into the queue without the prolongations already
made, so it stopped before the basis was complete (2y^3, 2z^2, z in a
component-first order) or did not stop.  The other algorithms have this block
commented out; remove it.  Elements exchanged for one of smaller norm go back
to their place in the sorted list, and an empty basis has no Hilbert
polynomial.
---
 ginv/poly_int.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index f864318..93097fb 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1162,9 +1162,11 @@ void JanetPolyInt::algorithmTQ2() {
       if (k.data()->poly().norm() < w->poly().norm()) {
         auto w1=w;
         w = k.data();
-        k.data() = w1;
+        k.del();
+        insert(tmp, w1);
       }
-      ++k;
+      else
+        ++k;
     }
 //     if (mMaxEqualLm < maxEqualLm)
 //       mMaxEqualLm = maxEqualLm;
@@ -1219,14 +1221,6 @@ void JanetPolyInt::algorithmTQ2() {
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
-    if (degPref > deg) {
-      delete[] mJanet;
-      mJanet = new GCJanet[mPos+2];
-      for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
-        j.data()->clearNM();
-        mQ.push(j.data());
-      }
-    }
     degPref = deg;
 
 
@@ -1273,7 +1267,7 @@ void JanetPolyInt::algorithmTQ2() {
 
   std::cerr << "isZeroNf() - " << isZeroNf() << std::endl;
 
-  if (mOneWrap == nullptr) {
+  if (mOneWrap == nullptr && mT) {
     HilbertPoly hp;
     buildHP(hp);
     std::cerr << "HilbertPoly - " << hp << std::endl;
-- 
2.43.0


From 1ac94170d50180038883bbbbb3012e2ddc4cf716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:00 +0000
Subject: [PATCH 40/41] fix: subtracting a polynomial from itself read the
 freed term

The term was released before the iterator of the operand, which stands on the
same term, moved on.
---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 93097fb..84c5a47 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -184,13 +184,13 @@ void PolyInt::sub(const PolyInt &a) {
       break;
     default:
       i.data()->mCoeff.sub(ia.data()->mCoeff);
+      ++ia;
       if (!i.data()->mCoeff.isZero())
         ++i;
       else {
         mAllocator->destroy(i.data());
         i.del();
       }
-      ++ia;
     }
 
   while(ia) {
-- 
2.43.0


From d3b6273624a6a6177a2d02c88fa39d7ff4bc9d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:42 +0000
Subject: [PATCH 41/41] fix: releasing an array of objects gave back the wrong
 address and size

---
 util/allocator.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/allocator.h b/util/allocator.h
index e9296e2..c3522fb 100644
--- a/util/allocator.h
+++ b/util/allocator.h
@@ -24,6 +24,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <cassert>
+#include <type_traits>
 
 #include "config.h"
 #include "timer.h"
@@ -96,9 +97,12 @@ public:
   template <typename T>
   inline void destroy(const T *ptr, size_t n) {// освобождение памяти с вызовом деструктора
     assert(n > 0);
-    for(int i=0; i < n; i++)
+    for(size_t i=0; i < n; i++)
       ptr[i].~T();
-    deallocate(ptr, sizeof(size_t) + sizeof(T)*n);
+    // перед массивом объектов с деструктором хранится его длина
+    const size_t cookie=std::is_trivially_destructible<T>::value ? 0:
+        (alignof(T) > sizeof(size_t) ? alignof(T): sizeof(size_t));
+    deallocate((const char*)ptr - cookie, cookie + sizeof(T)*n);
   }
 
   inline size_t alloc() const { return mAlloc; }
-- 
2.43.0


From 05a188e8185b8123e16a7fe0283542ed6f9277c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 01/67] fix: merge touching pieces when intersecting a Union
 with points or an Interval

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index c15833f..f0ac4a9 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -330,7 +330,7 @@ class Union(Set):
                     return intervalsne[0]
             if not intervalsne:
                 return atoms
-            return Union(atoms, *intervalsne)
+            return make_union(atoms, *intervalsne)
         if isinstance(x, Union):
             terms = [self & v for v in x.values]
             return reduce(lambda a,b: a |b, terms)
-- 
2.43.0


From e1979e114a616b612c1e3af228e3bb62e7315418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 02/67] fix: keep infinite points when uniting them with an
 unbounded Interval

---
 src/sets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index f0ac4a9..eba86b7 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -141,12 +141,12 @@ class FiniteReal(Set):
             # Merge endpoints.
             values = set(self.values)
             interval = x
-            if interval.a in values and interval.left_open:
+            if interval.a in values and interval.left_open and not isinf_neg(interval.a):
                 values.remove(interval.a)
                 interval = Interval(interval.a, interval.b,
                     left_open=None,
                     right_open=interval.right_open)
-            if interval.b in values and interval.right_open:
+            if interval.b in values and interval.right_open and not isinf_pos(interval.b):
                 values.remove(interval.b)
                 interval = Interval(interval.a, interval.b,
                     left_open=interval.left_open,
@@ -429,7 +429,7 @@ def convert_sympy(x):
         return EmptySet
     if isinstance(x, sympy.Interval):
         left = -inf if x.left == -inf else x.left
-        right = inf if x.right == -inf else x.right
+        right = inf if x.right == inf else x.right
         return Interval(left, right, left_open=x.left_open, right_open=x.right_open)
     if isinstance(x, sympy.FiniteSet):
         return FiniteReal(*x.args)
-- 
2.43.0


From 226a183a5834dda84f4edfd942485224a66d684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 03/67] fix: combine FiniteReal sets by equality of numbers,
 not by hash

---
 src/sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index eba86b7..8285c5c 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -123,7 +123,7 @@ class FiniteReal(Set):
         return Union(*intervals)
     def __and__(self, x):
         if isinstance(x, FiniteReal):
-            values = self.values & x.values
+            values = {v for v in self.values if v in x}
             return FiniteReal(*values) if values else EmptySet
         if isinstance(x, Interval):
             values = {v for v in self.values if v in x}
@@ -135,7 +135,7 @@ class FiniteReal(Set):
         return NotImplemented
     def __or__(self, x):
         if isinstance(x, FiniteReal):
-            values = self.values | x.values
+            values = self.values | {v for v in x.values if v not in self}
             return FiniteReal(*values)
         if isinstance(x, Interval):
             # Merge endpoints.
-- 
2.43.0


From b9721eb92faf54c4c16599348e68be095ef53102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 04/67] fix: convert SymPy booleans when converting SymPy
 intervals

---
 src/sets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 8285c5c..bab495e 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -430,7 +430,9 @@ def convert_sympy(x):
     if isinstance(x, sympy.Interval):
         left = -inf if x.left == -inf else x.left
         right = inf if x.right == inf else x.right
-        return Interval(left, right, left_open=x.left_open, right_open=x.right_open)
+        return Interval(left, right,
+            left_open=bool(x.left_open),
+            right_open=bool(x.right_open))
     if isinstance(x, sympy.FiniteSet):
         return FiniteReal(*x.args)
     if isinstance(x, sympy.Union):
-- 
2.43.0


From aa44a2d830e1a47171940a3783d983dfccae43a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 05/67] fix: membership of numbers in nominal sets and of
 strings in intervals is False

---
 src/sets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index bab495e..9e8d280 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -50,7 +50,7 @@ class FiniteNominal(Set):
         self.b = b
     def __contains__(self, x):
         if self.b:
-            return x not in self.values
+            return isinstance(x, str) and x not in self.values
         return x in self.values
     def __invert__(self):
         if not self.values:
@@ -183,6 +183,8 @@ class Interval(Set):
         # SymPy compatibility.
         (self.left, self.right) = (a, b)
     def __contains__(self, x):
+        if isinstance(x, str):
+            return False
         if self.left_open and self.right_open:
             return self.a < x < self.b
         if self.left_open and not self.right_open:
-- 
2.43.0


From 23a145599f6e4305cea1f757b6c08c162e03b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 06/67] fix: number - transform subtracts the transform from
 the number

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 686c074..1419dbc 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -203,7 +203,7 @@ class Transform():
     def __sub__(self, x):
         return self + (-1 * x)
     def __rsub__(self, x):
-        return self - x
+        return (-1 * self) + x
     # Negation.
     def __neg__(self):
         return -1 * self
-- 
2.43.0


From 20ba70f0491b79f2412936b2ae4ba8d514cbaf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 07/67] fix: evaluating a Logarithm returns a number, not a set

---
 src/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 1419dbc..d544a1d 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -501,7 +501,9 @@ class Logarithm(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
-        return {sympy.log(x, self.base) if x > 0 else -oo}
+        if x <= 0:
+            return -oo
+        return sympy.log(x, self.base) if not isinf_pos(x) else oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
-- 
2.43.0


From d836a3f7ba675413f711f94186eb855d984c593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 08/67] fix: negating an empty nominal event gives all strings

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index d544a1d..5bff4be 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1073,7 +1073,7 @@ class EventFiniteNominal(EventBasic):
     def __str__(self):
         return '%s << %s' % (str(self.subexpr), str(self.values))
     def __invert__(self):
-        values_not = ~self.values
+        values_not = Strings if self.values is EmptySet else ~self.values
         return EventFiniteNominal(self.subexpr, values_not)
 
 class EventCompound(Event):
-- 
2.43.0


From 7c90d8594b3498ae36624cf98ca4be566edd3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 09/67] fix: nominal event inverts the set of both truth values

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 5bff4be..0702e26 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1064,7 +1064,7 @@ class EventFiniteNominal(EventBasic):
             return self.finv(0)
         if ys == FiniteReal(1):
             return self.finv(1)
-        if ys == FiniteReal(1, 2):
+        if ys == FiniteReal(0, 1):
             return Strings
 
     def __repr__(self):
-- 
2.43.0


From 7b258b4913f550b095a4119054f6ad41f80356ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 10/67] fix: partition values by equality instead of by hash
 alone

---
 src/sym_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 05d809a..9903ac2 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -45,10 +45,9 @@ def powerset(values, start=0):
 def partition_list_blocks(values):
     partition = OrderedDict([])
     for i, v in enumerate(values):
-        x = hash(v)
-        if x not in partition:
-            partition[x] = []
-        partition[x].append(i)
+        if v not in partition:
+            partition[v] = []
+        partition[v].append(i)
     return list(partition.values())
 
 def partition_finite_real_contiguous(x):
-- 
2.43.0


From 88e0386e0c5e0a933db675d52082b8c0389709eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 11/67] fix: memoize passes the event through when memo is
 disabled

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index d5f0856..cfd4532 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -51,7 +51,7 @@ def memoize(f):
     def f_(*args):
         (spe, event_factor, memo) = args
         if memo is False:
-            return f(spe, event_factor_to_event, memo)
+            return f(spe, event_factor, memo)
         m = getattr(memo, table)
         key = spe.get_memo_key(event_factor)
         if key not in m:
-- 
2.43.0


From 254cc5388d0b794335eb77d9dcd0c9be2876f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 12/67] fix: round bounds of discrete leaves towards negative
 infinity

---
 src/math_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_util.py b/src/math_util.py
index 09a6a66..c1d406c 100644
--- a/src/math_util.py
+++ b/src/math_util.py
@@ -52,4 +52,4 @@ def random(x):
 
 int_or_isinf_neg = lambda a: isinf_neg(a) or float(a) == int(a)
 int_or_isinf_pos = lambda a: isinf_pos(a) or float(a) == int(a)
-float_to_int = lambda a: a if isinf(a) else int(a)
+float_to_int = lambda a: a if isinf(a) else int(a) - bool(a < int(a))
-- 
2.43.0


From 7358806e126e1be2260073ff1330d33d3056ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 13/67] fix: AtomicLeaf keeps and compares derived variables

---
 src/spe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index cfd4532..2b60332 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -818,7 +818,7 @@ class RealLeaf(LeafSPE):
 
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
-        return AtomicLeaf(self.symbol, x)
+        return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
         d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
@@ -955,12 +955,13 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value)
+        x = (self.__class__, self.symbol, self.value, tuple(self.env.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.value == x.value
+            and self.value == x.value \
+            and self.env == x.env
 
 # ==============================================================================
 # Nominal distribution.
-- 
2.43.0


From 193c8b2863bc38458d31091c081fd43db382ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 14/67] fix: AtomicLeaf answers density queries and can be
 constrained

---
 src/spe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index 2b60332..ce279cf 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -953,6 +953,11 @@ class AtomicLeaf(LeafSPE):
         interval = event.solve()
         assert self.value in interval, 'Measure zero condition %s' % (event,)
         return self
+    def logpdf__(self, x):
+        return 0 if x == self.value else -inf
+    def constrain__(self, x):
+        assert not isinf_neg(self.logpdf__(x))
+        return self
 
     def __hash__(self):
         x = (self.__class__, self.symbol, self.value, tuple(self.env.items()))
-- 
2.43.0


From 875661adc5fbc528c89160e43989e8edcb276a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 15/67] fix: shuffle samples of a mixture individually, not by
 component

---
 src/spe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index ce279cf..a44c8ff 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -242,8 +242,9 @@ class SumSPE(BranchSPE):
         selections = logflip(self.weights, self.indexes, N, prng)
         counts = Counter(selections)
         samples = [func(i, counts[i]) for i in counts]
-        random(prng).shuffle(samples)
-        return list(chain.from_iterable(samples))
+        samples_flat = list(chain.from_iterable(samples))
+        random(prng).shuffle(samples_flat)
+        return samples_flat
 
     def transform(self, symbol, expr):
         children = [spe.transform(symbol, expr) for spe in self.children]
-- 
2.43.0


From c6e541953350bab0b41b1075f7c2f42a2f8e0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 16/67] fix: NominalLeaf rejects negative weights

---
 src/spe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spe.py b/src/spe.py
index a44c8ff..d00e7c9 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -986,6 +986,7 @@ class NominalLeaf(LeafSPE):
         self.outcomes = list(self.dist.keys())
         self.weights = list(self.dist.values())
         assert allclose(float(sum(self.weights)),  1)
+        assert all(0 <= w for w in self.weights)
 
     def logpdf__(self, x):
         if x not in self.dist:
-- 
2.43.0


From 03e75e72ea12450fdc60b0e46168ac3bbccb7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 17/67] fix: condition a continuous leaf on a set with isolated
 points

---
 src/spe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index d00e7c9..3bde8eb 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -775,7 +775,9 @@ class RealLeaf(LeafSPE):
         if isinstance(values, Interval):
             return [values]
         if isinstance(values, FiniteReal):
-            assert isinstance(self, DiscreteLeaf)
+            if not isinstance(self, DiscreteLeaf):
+                # Isolated points have measure zero.
+                return []
             blocks = partition_finite_real_contiguous(values)
             return [Range(min(v), max(v)) for v in blocks]
         if isinstance(values, Union):
-- 
2.43.0


From 0ef5b61d36ab9f67b2c0db61a14ed7435005b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 18/67] fix: condition a discrete leaf on bounds or points that
 are not integers

---
 src/spe.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index 3bde8eb..1ec3e14 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -916,6 +916,24 @@ class DiscreteLeaf(RealLeaf):
             return -inf
         return self.dist.logpmf(xf) - self.logZ
 
+    def flatten_values_contiguous(self, values):
+        # Restrict to integers, so that all end points are integers.
+        if isinstance(values, Interval):
+            (a, b) = (values.left, values.right)
+            a_int = int_or_isinf_neg(a)
+            b_int = int_or_isinf_pos(b)
+            left = a if a_int else float_to_int(a)
+            right = b if b_int else float_to_int(b) + 1
+            values = Interval(left, right,
+                left_open=(values.left_open or not a_int),
+                right_open=(values.right_open or not b_int))
+        if isinstance(values, FiniteReal):
+            integers = [v for v in values if float(v) == int(v)]
+            if not integers:
+                return []
+            values = FiniteReal(*integers)
+        return super().flatten_values_contiguous(values)
+
     def logprob_finite__(self, values):
         logps = [self.logpdf__(x) for x in values]
         return logps[0] if len(logps) == 1 else logsumexp(logps)
-- 
2.43.0


From ddd1569b43edf8cb91a4e81d0ceb4fecb0af2211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 19/67] fix: invert exponentials with base below one, which are
 decreasing

---
 src/transforms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 0702e26..4ed2db8 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -351,7 +351,10 @@ class Injective(Transform):
         (a, b) = (ys.left, ys.right)
         a_prime = next(iter(self.finv(a)))
         b_prime = next(iter(self.finv(b)))
-        ys_prime = transform_interval(ys, a_prime, b_prime)
+        if a_prime < b_prime:
+            ys_prime = transform_interval(ys, a_prime, b_prime)
+        else:
+            ys_prime = transform_interval(ys, b_prime, a_prime, flip=True)
         return self.subexpr.invert(ys_prime)
 
 class Identity(Injective):
@@ -441,7 +444,7 @@ class Radical(Injective):
 
 class Exponential(Injective):
     def __init__(self, subexpr, base):
-        assert base > 0
+        assert base > 0 and base != 1
         self.subexpr = make_subexpr(subexpr, self)
         self.base = base
     def domain(self):
@@ -463,9 +466,9 @@ class Exponential(Injective):
         if not y in self.range():
             return EmptySet
         if isinf_pos(y):
-            return FiniteReal(oo)
+            return FiniteReal(oo if self.base > 1 else -oo)
         if y <= 0:
-            return FiniteReal(-oo)
+            return FiniteReal(-oo if self.base > 1 else oo)
         return FiniteReal(sympy.log(y, self.base))
     def __eq__(self, x):
         return isinstance(x, Exponential) \
-- 
2.43.0


From ffa0531efe31e879df4bd746e33507b65a77361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 20/67] fix: evaluate Piecewise transforms, including nested
 subexpressions

---
 src/transforms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 4ed2db8..515d5f6 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -724,10 +724,13 @@ class Piecewise(Transform):
         events_prime = [event.subs(env) for event in self.events]
         return Piecewise(subexprs_prime, events_prime)
     def evaluate(self, assignment):
-        raise NotImplementedError()
+        for subexpr, event in zip(self.subexprs, self.events):
+            if event.evaluate(assignment):
+                return subexpr.evaluate(assignment)
+        raise ValueError('Cannot evaluate %s on %s' % (str(self), assignment))
     def ffwd(self, x):
-        index = next(i for i, domain in enumerate(self.domains) if x in domain)
-        return self.subexprs[index].ffwd(x)
+        [symbol] = self.symbols
+        return self.evaluate({symbol: x})
     def finv(self, y):
         xs_list = get_piecewise_inverse(lambda subexpr: subexpr.finv(y),
             self.subexprs, self.domains)
-- 
2.43.0


From d282658e0f4896b84345cf0be194b64e2cf7ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 21/67] fix: Piecewise transforms are hashable

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 515d5f6..b4c0778 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -763,7 +763,7 @@ class Piecewise(Transform):
         ]
         return ' + '.join(strings)
     def __hash__(self):
-        x = (self.__class__, self.subexprs, self.events)
+        x = (self.__class__, tuple(self.subexprs), tuple(self.events))
         return hash(x)
 
 def get_piecewise_symbol(subexprs, events):
-- 
2.43.0


From 9572d1f5c58cdf4b8d11aaaa8771cbdaf44567ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 22/67] fix: solve polynomials numerically when there are few
 or no real roots

---
 src/poly.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index df634cd..56928dc 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -59,9 +59,10 @@ def solve_poly_inequality_numerically(expr, b, strict):
     symX = get_poly_symbol(expr)
     # Obtain numerical roots.
     roots = sympy.nroots(poly)
-    zeros = sorted([r for r in roots if r.is_real])
+    zeros = sorted(set(r for r in roots if r.is_real))
+    # Polynomial has constant sign.
     if not zeros:
-        return sympy.EmptySet
+        return Reals if poly.subs(symX, 0) < 0 else EmptySet
     # Construct intervals around roots.
     mk_intvl = lambda a, b: \
         Interval(a, b, left_open=strict, right_open=strict)
@@ -79,7 +80,9 @@ def solve_poly_inequality_numerically(expr, b, strict):
     f_xs_probe = [poly.subs(symX, x) for x in xs_probe]
     # Return intervals where poly is less than zero.
     idxs = [i for i, fx in enumerate(f_xs_probe) if fx < 0]
-    return make_union(*[intervals[i] for i in idxs])
+    # All roots are solutions unless the inequality is strict.
+    solutions_zeros = EmptySet if strict else FiniteReal(*zeros)
+    return make_union(solutions_zeros, *[intervals[i] for i in idxs])
 
 def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Minimum value of polynomial is negative infinity.
@@ -128,7 +131,7 @@ def solve_poly_equality_symbolically(expr, b):
 def solve_poly_equality_numerically(expr, b):
     roots = sympy.nroots(expr-b)
     zeros = [r for r in roots if r.is_real]
-    return FiniteReal(*zeros)
+    return FiniteReal(*zeros) if zeros else EmptySet
 
 def solve_poly_equality_inf(expr, b):
     assert isinf(b)
-- 
2.43.0


From beea4786718464d5db9c8c6635be8bb9009a480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 23/67] fix: find repeated roots of polynomials numerically

---
 src/poly.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index 56928dc..aa13980 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -28,6 +28,12 @@ def get_poly_symbol(expr):
     assert len(symbols) == 1
     return symbols[0]
 
+def get_poly_real_roots(expr, symX):
+    # Repeated roots are removed because they are numerically unstable.
+    poly = sympy.Poly(sympy.nsimplify(expr, rational=True), symX)
+    roots = sympy.nroots(poly.sqf_part())
+    return sorted(r for r in roots if r.is_real)
+
 # ==============================================================================
 # Solving inequalities.
 
@@ -58,8 +64,7 @@ def solve_poly_inequality_numerically(expr, b, strict):
     poly = expr - b
     symX = get_poly_symbol(expr)
     # Obtain numerical roots.
-    roots = sympy.nroots(poly)
-    zeros = sorted(set(r for r in roots if r.is_real))
+    zeros = get_poly_real_roots(poly, symX)
     # Polynomial has constant sign.
     if not zeros:
         return Reals if poly.subs(symX, 0) < 0 else EmptySet
@@ -129,8 +134,7 @@ def solve_poly_equality_symbolically(expr, b):
     return sympy.Intersection(soln_lt, soln_gt)
 
 def solve_poly_equality_numerically(expr, b):
-    roots = sympy.nroots(expr-b)
-    zeros = [r for r in roots if r.is_real]
+    zeros = get_poly_real_roots(expr - b, get_poly_symbol(expr))
     return FiniteReal(*zeros) if zeros else EmptySet
 
 def solve_poly_equality_inf(expr, b):
-- 
2.43.0


From 2ccc01bc10f69de5b4684ac008338e2181fd62ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 24/67] fix: read back dictionaries with exact and symbolic
 numbers

---
 src/compilers/spe_to_dict.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 671648b..a5e52d1 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -3,10 +3,17 @@
 
 """Convert SPE to JSON friendly dictionary."""
 
+import ast
+
 from fractions import Fraction
 
 import scipy.stats
+import sympy
+from sympy import CRootOf
 from sympy import E
+from sympy import exp
+from sympy import log
+from sympy import pi
 from sympy import sqrt
 
 from ..spe import AtomicLeaf
@@ -33,11 +40,27 @@ from ..transforms import EventFiniteNominal
 from ..transforms import EventOr
 from ..transforms import EventAnd
 
+class ExactDivision(ast.NodeTransformer):
+    # Quotients of integers are SymPy rationals, e.g., 1/3.
+    def visit_BinOp(self, node):
+        self.generic_visit(node)
+        if isinstance(node.op, ast.Div):
+            sympify = ast.Name(id='sympify', ctx=ast.Load())
+            node.left = ast.Call(func=sympify, args=[node.left], keywords=[])
+        return node
+
+def eval_exact(source):
+    tree = ExactDivision().visit(ast.parse(source, mode='eval'))
+    code = compile(ast.fix_missing_locations(tree), '<spe>', 'eval')
+    # SymPy shows roots of polynomials in terms of x.
+    names = {'sympify': sympy.sympify, 'x': sympy.Symbol('x')}
+    return eval(code, globals(), names)
+
 def env_from_dict(env):
     if env is None:
         return None
     # Used in eval.
-    return {eval(k): eval(v) for k, v in env.items()}
+    return {eval_exact(k): eval_exact(v) for k, v in env.items()}
 
 def env_to_dict(env):
     if len(env) == 1:
@@ -62,20 +85,21 @@ def spe_from_dict(metadata):
         return NominalLeaf(symbol, dist)
     if metadata['class'] == 'AtomicLeaf':
         symbol = Id(metadata['symbol'])
-        value = float(metadata['value'])
+        value = metadata['value']
+        value = eval_exact(value) if isinstance(value, str) else float(value)
         env = env_from_dict(metadata['env'])
         return AtomicLeaf(symbol, value, env=env)
     if metadata['class'] == 'ContinuousLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = eval_exact(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return ContinuousLeaf(symbol, dist, support, conditioned, env=env)
     if metadata['class'] == 'DiscreteLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = eval_exact(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return DiscreteLeaf(symbol, dist, support, conditioned, env=env)
@@ -104,7 +128,8 @@ def spe_to_dict(spe):
         return {
             'class'        : 'AtomicLeaf',
             'symbol'       : spe.symbol.token,
-            'value'        : spe.value,
+            'value'        : spe.value
+                if isinstance(spe.value, (int, float)) else str(spe.value),
             'env'          : env_to_dict(spe.env),
         }
     if isinstance(spe, ContinuousLeaf):
-- 
2.43.0


From 6d7e32ef15a5abf60b30fa54f3a600d5d710126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 25/67] fix: compile pass statements, which keep branches of
 conditionals aligned

---
 src/compilers/sppl_to_python.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 31b5d7d..1986d20 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -251,6 +251,11 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.command.write('\n')
         self.context.pop()
 
+    def visit_Pass(self, node):
+        idt = get_indentation(self.indentation)
+        self.command.write('%sSkip(),' % (idt,))
+        self.command.write('\n')
+
     def visit_Call(self, node):
         unode = unparse(node)
         if node.func.id == 'condition':
@@ -370,7 +375,7 @@ class SPPL_Compiler():
             self.prog.imports.write('from sppl.distributions import %s' % (d,))
             self.prog.imports.write('\n')
         for c in ['Id', 'IdArray', 'Condition', 'Constrain', 'IfElse', 'For', 'Sample',
-                    'Sequence', 'Switch', 'Transform']:
+                    'Sequence', 'Skip', 'Switch', 'Transform']:
             self.prog.imports.write('from sppl.compilers.ast_to_spe import %s' % (c,))
             self.prog.imports.write('\n')
         # Write the constants.
-- 
2.43.0


From ea613f8c97324fdbed23e63f39503056e4efd3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 26/67] fix: compile chained comparisons and Boolean operators
 to events

---
 src/compilers/sppl_to_python.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 1986d20..e552f0d 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -14,6 +14,7 @@ from types import SimpleNamespace
 from collections import namedtuple
 from collections import OrderedDict
 from contextlib import contextmanager
+from functools import reduce
 
 from astunparse import unparse
 
@@ -298,10 +299,24 @@ def unroll_ifexp(target, node):
     return expr
 
 class SPPL_Transformer_Compare(ast.NodeTransformer):
+    def visit_BoolOp(self, node):
+        # Rewrite (a and b) as a & b, and (a or b) as a | b.
+        op = ast.BitAnd() if isinstance(node.op, ast.And) else ast.BitOr()
+        values = [self.visit(value) for value in node.values]
+        return reduce(lambda x, y: ast.BinOp(left=x, op=op, right=y), values)
+    def visit_UnaryOp(self, node):
+        self.generic_visit(node)
+        if isinstance(node.op, ast.Not):
+            return ast.UnaryOp(op=ast.Invert(), operand=node.operand)
+        return node
     def visit_Compare(self, node):
-        # TODO: Implement or/and.
         if len(node.ops) > 1:
-            return node
+            # Rewrite a < b < c as (a < b) & (b < c).
+            operands = [node.left] + node.comparators
+            return self.visit(ast.BoolOp(op=ast.And(), values=[
+                ast.Compare(left=copy.deepcopy(x), ops=[op], comparators=[y])
+                for x, op, y in zip(operands, node.ops, operands[1:])
+            ]))
         if isinstance(node.ops[0], ast.In):
             return ast.BinOp(
                 left=node.left,
-- 
2.43.0


From 236bd2d975578da40f38e918a39acd7ab0600631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 27/67] fix: supports of distributions that are not confined to
 positive or negative reals

---
 src/distributions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index d1816f0..e319147 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -149,7 +149,7 @@ class chi2(ContinuousReal):
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi/2, sympy.pi/2)
+    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
@@ -219,7 +219,7 @@ class foldnorm(ContinuousReal):
 class genlogistic(ContinuousReal):
     """A generalized logistic continuous random variable."""
     dist = scipy.stats.genlogistic
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class gennorm(ContinuousReal):
     """A generalized normal continuous random variable."""
@@ -294,7 +294,7 @@ class gumbel_r(ContinuousReal):
 class gumbel_l(ContinuousReal):
     """A left-skewed Gumbel continuous random variable."""
     dist = scipy.stats.gumbel_l
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class halfcauchy(ContinuousReal):
     """A Half-Cauchy continuous random variable."""
@@ -394,7 +394,7 @@ class logistic(ContinuousReal):
 class loggamma(ContinuousReal):
     """A log gamma continuous random variable."""
     dist = scipy.stats.loggamma
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return Reals
 
 class loglaplace(ContinuousReal):
     """A log-Laplace continuous random variable."""
@@ -485,7 +485,7 @@ class powerlognorm(ContinuousReal):
 class powernorm(ContinuousReal):
     """A power normal continuous random variable."""
     dist = scipy.stats.powernorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
@@ -551,7 +551,7 @@ class truncnorm(ContinuousReal):
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
     dist = scipy.stats.tukeylambda
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class uniform(ContinuousReal):
     """A uniform continuous random variable."""
-- 
2.43.0


From 600f9f6407d1ee23059cd2ca727f5c53a6b12408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 28/67] fix: lower end of the support of hypergeom

---
 src/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distributions.py b/src/distributions.py
index e319147..f98f3cc 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -637,7 +637,7 @@ class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
     def get_domain(self):
-        low = max(0, self.kwargs['N'], self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
+        low = max(0, self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
         high = min(self.kwargs['n'], self.kwargs['N'])
         return Range(low, high)
 
-- 
2.43.0


From b5ba97bb609d575be8e289ce59d5bb1fa855500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 29/67] fix: support of kstwobign, which has no parameter n

---
 src/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distributions.py b/src/distributions.py
index f98f3cc..7c3d4d3 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -364,7 +364,7 @@ class ksone(ContinuousReal):
 class kstwobign(ContinuousReal):
     """Kolmogorov-Smirnov two-sided test for large N."""
     dist = scipy.stats.kstwobign
-    def get_domain(self): return Interval(0, sympy.sqrt(self.kwargs['n']))
+    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class laplace(ContinuousReal):
     """A Laplace continuous random variable."""
-- 
2.43.0


From 1b70b73d468b12c9b8303f7040963c615ecd195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 30/67] fix: supports of continuous distributions follow
 location and scale

---
 src/distributions.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index 7c3d4d3..e41ae01 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -78,10 +78,13 @@ def RealsPosLoc(kwargs):
         return Interval(kwargs['loc'], oo)
     return RealsPos
 
-def UnitIntervalLocScale(kwargs):
+def LocScale(kwargs, left, right):
     loc = kwargs.get('loc', 0)
     scale = kwargs.get('scale', 1)
-    return Interval(loc, loc + scale)
+    return Interval(loc + scale*left, loc + scale*right)
+
+def UnitIntervalLocScale(kwargs):
+    return LocScale(kwargs, 0, 1)
 
 class ContinuousReal(RealDistribution):
     constructor = ContinuousLeaf
@@ -94,7 +97,7 @@ class alpha(ContinuousReal):
 class anglit(ContinuousReal):
     """An anglit continuous random variable."""
     dist = scipy.stats.anglit
-    def get_domain(self): return Interval(-sympy.pi/4, sympy.pi/4)
+    def get_domain(self): return LocScale(self.kwargs, -sympy.pi/4, sympy.pi/4)
 
 class arcsine(ContinuousReal):
     """An arcsine continuous random variable."""
@@ -149,7 +152,7 @@ class chi2(ContinuousReal):
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self): return LocScale(self.kwargs, -sympy.pi, sympy.pi)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
@@ -244,9 +247,9 @@ class genextreme(ContinuousReal):
         if c == 0:
             return Reals
         elif c > 0:
-            return Interval(-oo, 1/c)
+            return LocScale(self.kwargs, -oo, 1/c)
         elif c < 0:
-            return Interval(1/c, oo)
+            return LocScale(self.kwargs, 1/c, oo)
         assert False, 'Bad argument "c" for genextreme: %s' % (self.kwargs,)
 
 class gausshyper(ContinuousReal):
@@ -269,7 +272,7 @@ class genhalflogistic(ContinuousReal):
     dist = scipy.stats.genhalflogistic
     def get_domain(self):
         assert self.kwargs['c'] > 0
-        return Interval(0, 1./self.kwargs['c'])
+        return LocScale(self.kwargs, 0, 1./self.kwargs['c'])
 
 class geninvgauss(ContinuousReal):
     """A Generalized Inverse Gaussian continuous random variable."""
@@ -379,7 +382,7 @@ class levy(ContinuousReal):
 class levy_l(ContinuousReal):
     """A left-skewed Levy continuous random variable."""
     dist = scipy.stats.levy_l
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return LocScale(self.kwargs, -oo, 0)
 
 class levy_stable(ContinuousReal):
     """A Levy-stable continuous random variable."""
@@ -409,7 +412,7 @@ class lognorm(ContinuousReal):
 class loguniform(ContinuousReal):
     """A loguniform or reciprocal continuous random variable."""
     dist = scipy.stats.loguniform
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
+    def get_domain(self): return LocScale(self.kwargs, self.kwargs['a'], self.kwargs['b'])
 
 class lomax(ContinuousReal):
     """A Lomax (Pareto of the second kind) continuous random variable."""
@@ -465,7 +468,7 @@ class norminvgauss(ContinuousReal):
 class pareto(ContinuousReal):
     """A Pareto continuous random variable."""
     dist = scipy.stats.pareto
-    def get_domain(self): return Interval(1, oo)
+    def get_domain(self): return LocScale(self.kwargs, 1, oo)
 
 class pearson3(ContinuousReal):
     """A pearson type III continuous random variable."""
@@ -490,7 +493,7 @@ class powernorm(ContinuousReal):
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
     dist = scipy.stats.rdist
-    def get_domain(self): return Interval(-1, 1)
+    def get_domain(self): return LocScale(self.kwargs, -1, 1)
 
 class rayleigh(ContinuousReal):
     """A Rayleigh continuous random variable."""
@@ -510,7 +513,7 @@ class recipinvgauss(ContinuousReal):
 class semicircular(ContinuousReal):
     """A semicircular continuous random variable."""
     dist = scipy.stats.semicircular
-    def get_domain(self): return Interval(-1, 1)
+    def get_domain(self): return LocScale(self.kwargs, -1, 1)
 
 class skewnorm(ContinuousReal):
     """A skew-normal random variable."""
@@ -541,12 +544,12 @@ class triang(ContinuousReal):
 class truncexpon(ContinuousReal):
     """A truncated exponential continuous random variable."""
     dist = scipy.stats.truncexpon
-    def get_domain(self): return Interval(0, self.kwargs['b'])
+    def get_domain(self): return LocScale(self.kwargs, 0, self.kwargs['b'])
 
 class truncnorm(ContinuousReal):
     """A truncated normal continuous random variable."""
     dist = scipy.stats.truncnorm
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
+    def get_domain(self): return LocScale(self.kwargs, self.kwargs['a'], self.kwargs['b'])
 
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
@@ -564,12 +567,12 @@ class uniform(ContinuousReal):
 class vonmises(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self): return LocScale(self.kwargs, -sympy.pi, sympy.pi)
 
 class vonmises_line(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises_line
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self): return LocScale(self.kwargs, -sympy.pi, sympy.pi)
 
 class wald(ContinuousReal):
     """A Wald continuous random variable."""
@@ -584,12 +587,12 @@ class weibull_min(ContinuousReal):
 class weibull_max(ContinuousReal):
     """Weibull maximum continuous random variable."""
     dist = scipy.stats.weibull_max
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return LocScale(self.kwargs, -oo, 0)
 
 class wrapcauchy(ContinuousReal):
     """A wrapped Cauchy continuous random variable."""
     dist = scipy.stats.wrapcauchy
-    def get_domain(self): return Interval(0, 2*sympy.pi)
+    def get_domain(self): return LocScale(self.kwargs, 0, 2*sympy.pi)
 
 # ==============================================================================
 # DiscreteReal
-- 
2.43.0


From 20b72e64173e06c42a864f4887a42322a9e05c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 31/67] fix: supports of discrete distributions follow location

---
 src/distributions.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index e41ae01..46957a7 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -603,28 +603,32 @@ from .sets import IntegersPos0
 from .sets import Range
 from .spe import DiscreteLeaf
 
+def RangeLoc(kwargs, start, stop):
+    loc = kwargs.get('loc', 0)
+    return Range(loc + start, loc + stop)
+
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
     dist = scipy.stats.bernoulli
-    def get_domain(self): return Range(0, 1)
+    def get_domain(self): return RangeLoc(self.kwargs, 0, 1)
 
 class betabinom(DiscreteReal):
     """A beta-binomial discrete random variable."""
     dist = scipy.stats.betabinom
-    def get_domain(self): return Range(0, self.kwargs['n'])
+    def get_domain(self): return RangeLoc(self.kwargs, 0, self.kwargs['n'])
 
 class binom(DiscreteReal):
     """A binomial discrete random variable."""
     dist = scipy.stats.binom
-    def get_domain(self): return Range(0, self.kwargs['n'])
+    def get_domain(self): return RangeLoc(self.kwargs, 0, self.kwargs['n'])
 
 class boltzmann(DiscreteReal):
     """A Boltzmann (Truncated Discrete Exponential) random variable."""
     dist = scipy.stats.boltzmann
-    def get_domain(self): return Range(0, self.kwargs['N'])
+    def get_domain(self): return RangeLoc(self.kwargs, 0, self.kwargs['N'])
 
 class dlaplace(DiscreteReal):
     """A Laplacian discrete random variable."""
@@ -642,32 +646,32 @@ class hypergeom(DiscreteReal):
     def get_domain(self):
         low = max(0, self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
         high = min(self.kwargs['n'], self.kwargs['N'])
-        return Range(low, high)
+        return RangeLoc(self.kwargs, low, high)
 
 class logser(DiscreteReal):
     """A Logarithmic (Log-Series, Series) discrete random variable."""
     dist = scipy.stats.logser
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return RangeLoc(self.kwargs, 1, oo)
 
 class nbinom(DiscreteReal):
     """A negative binomial discrete random variable."""
     dist = scipy.stats.nbinom
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return RangeLoc(self.kwargs, 0, oo)
 
 class planck(DiscreteReal):
     """A Planck discrete exponential random variable."""
     dist = scipy.stats.planck
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return RangeLoc(self.kwargs, 0, oo)
 
 class poisson(DiscreteReal):
     """A Poisson discrete random variable."""
     dist = scipy.stats.poisson
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return RangeLoc(self.kwargs, 0, oo)
 
 class randint(DiscreteReal):
     """A uniform discrete random variable."""
     dist = scipy.stats.randint
-    def get_domain(self): return Interval.Ropen(self.kwargs['low'], self.kwargs['high'])
+    def get_domain(self): return RangeLoc(self.kwargs, self.kwargs['low'], self.kwargs['high'] - 1)
 
 class skellam(DiscreteReal):
     """A Skellam discrete random variable."""
@@ -677,12 +681,12 @@ class skellam(DiscreteReal):
 class zipf(DiscreteReal):
     """A Zipf discrete random variable."""
     dist = scipy.stats.zipf
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return RangeLoc(self.kwargs, 1, oo)
 
 class yulesimon(DiscreteReal):
     """A Yule-Simon discrete random variable."""
     dist = scipy.stats.yulesimon
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return RangeLoc(self.kwargs, 1, oo)
 
 class atomic(randint):
     """An atomic discrete random variable."""
-- 
2.43.0


From e89766fe0ce8db6de977d7d650452ce64f92afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 32/67] fix: equal sets have equal hashes

---
 src/sets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 9e8d280..4a4e852 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -92,7 +92,7 @@ class FiniteNominal(Set):
             and bool(self.b) == bool(x.b) \
             and self.values == x.values
     def __hash__(self):
-        x = (self.__class__, self.values, self.b)
+        x = (self.__class__, self.values, bool(self.b))
         return hash(x)
     def __repr__(self):
         str_values = ', '.join(repr(x) for x in self.values)
@@ -259,7 +259,9 @@ class Interval(Set):
             and bool(self.left_open) == bool(x.left_open) \
             and bool(self.right_open) == bool(x.right_open)
     def __hash__(self):
-        x = (self.__class__, self.a, self.b, self.left_open, self.right_open)
+        # Equal numbers of different types may have different hashes.
+        x = (self.__class__, float(self.a), float(self.b),
+            bool(self.left_open), bool(self.right_open))
         return hash(x)
     def __repr__(self):
         return 'Interval(%s, %s, left_open=%s, right_open=%s)' \
-- 
2.43.0


From 90b853ffbaf900a545ecd1520d07cebfdb6c7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 33/67] fix: complement of a finite set with infinite values

---
 src/sets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 4a4e852..b702ea4 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -3,6 +3,7 @@
 
 from functools import reduce
 from itertools import chain
+from math import isinf
 
 from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
@@ -112,7 +113,10 @@ class FiniteReal(Set):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
     def __invert__(self):
-        values = sorted(self.values)
+        # The complement contains finite numbers only.
+        values = sorted(v for v in self.values if not isinf(v))
+        if not values:
+            return Interval(-inf, inf)
         intervals = chain(
             # Left-infinity interval.
             [Interval.Ropen(-inf, values[0])],
-- 
2.43.0


From 663866dfb1880f303af918eaee8f43ec86314e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 34/67] fix: unite finite sets with a union of strings and
 numbers

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index b702ea4..7fdbd9d 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -402,7 +402,7 @@ def union_intervals_finite(intervals, finite):
             finite_current = interval_union.atoms
         else:
             assert False
-    blocks_merged = union_intervals(blocks)
+    blocks_merged = union_intervals(blocks) if blocks else []
     if finite_current is not EmptySet:
         blocks_merged.append(finite_current)
     return blocks_merged
-- 
2.43.0


From 8ec9ccdd63ebdd5a257c747e4a4c2ff5b5d8e013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 35/67] fix: complement of contradictory nominal events

---
 src/transforms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/transforms.py b/src/transforms.py
index b4c0778..66cd056 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -875,6 +875,10 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 intersection = self.values & event.values
                 if intersection is EmptySet:
+                    # The complement in strings differs from that in numbers.
+                    if isinstance(self, EventFiniteNominal) \
+                            and isinstance(event, EventFiniteNominal):
+                        return EventFiniteNominal(self.subexpr, EmptySet)
                     return EventFiniteReal(self.subexpr, EmptySet)
                 if isinstance(intersection, FiniteReal):
                     return EventFiniteReal(self.subexpr, intersection)
@@ -895,6 +899,9 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 union = self.values | event.values
                 if union is EmptySet:
+                    if isinstance(self, EventFiniteNominal) \
+                            and isinstance(event, EventFiniteNominal):
+                        return EventFiniteNominal(self.subexpr, EmptySet)
                     return EventFiniteReal(self.subexpr, EmptySet)
                 if isinstance(union, FiniteReal):
                     return EventFiniteReal(self.subexpr, union)
-- 
2.43.0


From 8f06533658567e2e3db56bdf33a08c7df48a2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 36/67] fix: range of a single integer given as a SymPy number

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 7fdbd9d..62064ea 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -428,7 +428,7 @@ def Range(start, stop):
     assert int_or_isinf_neg(start)
     assert int_or_isinf_pos(stop)
     right_open = start == stop
-    return Interval(start, stop + right_open, right_open=(start == stop))
+    return Interval(start, stop + int(right_open), right_open=right_open)
 
 # TODO: Expunge.
 def convert_sympy(x):
-- 
2.43.0


From 64675a185bcfc9b57d4e740bfed8ea89cff69e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 37/67] fix: sample distributions with integer parameters

---
 src/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/distributions.py b/src/distributions.py
index 46957a7..af0bb98 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -25,6 +25,8 @@ class NominalDistribution(Distribution):
 choice = NominalDistribution
 
 def floatify(x):
+    # Samplers of discrete distributions need integers, e.g., n in binom.
+    if isinstance(x, int): return x
     try              : return float(x)
     except TypeError : return x
 
-- 
2.43.0


From 09e31828f5595ae5a7a004053021d8a13fd7bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 38/67] fix: density of a nominal outcome with weight zero

---
 src/spe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 1ec3e14..8ba4fbc 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1009,9 +1009,9 @@ class NominalLeaf(LeafSPE):
         assert all(0 <= w for w in self.weights)
 
     def logpdf__(self, x):
-        if x not in self.dist:
+        w = self.dist.get(x, 0)
+        if w == 0:
             return -inf
-        w = self.dist[x]
         return log(w.numerator) - log(w.denominator)
 
     def transform(self, symbol, expr):
-- 
2.43.0


From 108713cf93bf7803b8cd9039d20f4e444bad008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 39/67] fix: memo tables keep the models they have entries for

---
 src/spe.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 8ba4fbc..74820e8 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -140,7 +140,7 @@ class SPE():
         return NotImplemented
 
     def get_memo_key(self, event_factor):
-        x = id(self)
+        x = MemoKey(self)
         y = tuple(event_factor.items()) \
                 if isinstance(event_factor, dict) \
                 else tuple(tuple(d.items()) for d in event_factor)
@@ -1063,6 +1063,15 @@ class NominalLeaf(LeafSPE):
 # ==============================================================================
 # Utilities.
 
+class MemoKey():
+    # Identity of an SPE, which it keeps alive so that its id is not reused.
+    def __init__(self, spe):
+        self.spe = spe
+    def __eq__(self, x):
+        return isinstance(x, MemoKey) and self.spe is x.spe
+    def __hash__(self):
+        return id(self.spe)
+
 class Memo():
     def __init__(self):
         self.logprob = {}
-- 
2.43.0


From 42ff0583e77d9ab04356eb08a4edcc54c13c2f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 40/67] fix: hashes of leaves do not depend on the order of
 their parameters

---
 src/spe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 74820e8..4ded45f 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -824,8 +824,8 @@ class RealLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
-        e = tuple(self.env.items())
+        d = (self.dist.dist.name, self.dist.args, frozenset(self.dist.kwds.items()))
+        e = frozenset(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
     def __eq__(self, x):
@@ -981,7 +981,7 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value, tuple(self.env.items()))
+        x = (self.__class__, self.symbol, self.value, frozenset(self.env.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
@@ -1053,7 +1053,7 @@ class NominalLeaf(LeafSPE):
         return NominalLeaf(self.symbol, {x: 1})
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, tuple(self.dist.items()))
+        x = (self.__class__, self.symbol, frozenset(self.dist.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
-- 
2.43.0


From 15b7b7eb9e71d7a17cc3d9a2a8b32a2fd1b007dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 41/67] fix: equal transforms have the same hash for every
 number type

---
 src/spe.py        | 3 ++-
 src/transforms.py | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 4ded45f..cfcc033 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -981,7 +981,8 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value, frozenset(self.env.items()))
+        # Equal numbers of different types may have different hashes.
+        x = (self.__class__, self.symbol, float(self.value), frozenset(self.env.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
diff --git a/src/transforms.py b/src/transforms.py
index 66cd056..37a5380 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -482,7 +482,8 @@ class Exponential(Injective):
             return 'exp(%s)' % (str(self.subexpr),)
         return '%s**(%s)' % (self.base, str(self.subexpr))
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        # Equal numbers of different types may have different hashes.
+        x = (self.__class__, self.subexpr, float(self.base))
         return hash(x)
 
 class Logarithm(Injective):
@@ -527,7 +528,8 @@ class Logarithm(Injective):
             return 'log2(%s)' % (str(self.subexpr),)
         return 'log(%s; %s)' % (str(self.subexpr), self.base)
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        # Equal numbers of different types may have different hashes.
+        x = (self.__class__, self.subexpr, float(self.base))
         return hash(x)
 
 # ==============================================================================
@@ -699,7 +701,8 @@ class Poly(Transform):
         terms = [term_to_str(i, c)  for i, c in enumerate(self.coeffs)]
         return ' + '.join([t for t in terms if t])
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.coeffs)
+        # Equal numbers of different types may have different hashes.
+        x = (self.__class__, self.subexpr, tuple(float(c) for c in self.coeffs))
         return hash(x)
 
 # ==============================================================================
-- 
2.43.0


From 60c53cf753677e85e65a9727849f0f9d300dc59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 42/67] fix: finite sets of numbers hold equal numbers once

---
 src/sets.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 62064ea..d44caf4 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -108,7 +108,7 @@ class FiniteNominal(Set):
 class FiniteReal(Set):
     def __init__(self, *values):
         assert values
-        self.values = frozenset(values)
+        self.values = unique_numbers(values)
     def __contains__(self, x):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
@@ -371,6 +371,17 @@ class Union(Set):
     def __iter__(self):
         return iter(self.args)
 
+def unique_numbers(values):
+    # Equal numbers of different types may have different hashes.
+    values = frozenset(values)
+    if len({type(v) for v in values}) == 1:
+        return values
+    unique = []
+    for v in values:
+        if v not in unique:
+            unique.append(v)
+    return frozenset(unique)
+
 def union_intervals(intervals):
     intervals_sorted = sorted(intervals, key=lambda i:i.a)
     blocks = [intervals_sorted[0]]
-- 
2.43.0


From 7a118edc2aa25d5672daf7184ea2b15c7c1c803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 43/67] fix: mixtures of distributions whose weights sum to one
 up to rounding

---
 src/distributions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distributions.py b/src/distributions.py
index af0bb98..88c65b1 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -4,6 +4,8 @@
 import scipy.stats
 import sympy
 
+from .math_util import allclose
+
 class Distribution():
     def __rmul__(self, x):
         from .sym_util import sympify_number
@@ -61,7 +63,8 @@ class DistributionMix():
             return NotImplemented
         weights = self.weights + x.weights
         cumsum = float(sum(weights))
-        assert 0 < cumsum <= 1
+        # Rounding may bring the sum of well-formed weights above one.
+        assert 0 < cumsum and (cumsum < 1 or allclose(cumsum, 1))
         distributions = self.distributions + x.distributions
         return DistributionMix(distributions, weights)
 
-- 
2.43.0


From 132de6a50c68768d16356eb5ecb6dd98449e8b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 44/67] fix: simplify mixtures of leaves and products

---
 src/spe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index cfcc033..9a364a8 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -365,7 +365,9 @@ def spe_simplify_sum(spe):
     assert False, 'Invalid children of SumSPE: %s' % (spe.children,)
 
 def spe_simplify_sum_leaf(spe):
-    assert all(isinstance(c, LeafSPE) for c in spe.children)
+    # Leaves with environments can be mixed with products over the same symbols.
+    if not all(isinstance(c, LeafSPE) for c in spe.children):
+        return spe
     partition = partition_list_blocks(spe.children)
     if len(partition) == len(spe.children):
         return spe
-- 
2.43.0


From 8ffef7c252657adb69cc3b781e2f67ef9e1836dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 45/67] fix: equality of distributions defined by a table

---
 src/spe.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 9a364a8..2b3c138 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -826,7 +826,8 @@ class RealLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, frozenset(self.dist.kwds.items()))
+        d = (self.dist.dist.name, self.dist.args, frozenset(self.dist.kwds.items()),
+            dist_table(self.dist))
         e = frozenset(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
@@ -836,6 +837,7 @@ class RealLeaf(LeafSPE):
             and self.dist.dist.name == x.dist.dist.name \
             and self.dist.args == x.dist.args \
             and self.dist.kwds == x.dist.kwds \
+            and dist_table(self.dist) == dist_table(x.dist) \
             and self.support == x.support \
             and self.conditioned == x.conditioned \
             and self.env == x.env
@@ -1066,6 +1068,12 @@ class NominalLeaf(LeafSPE):
 # ==============================================================================
 # Utilities.
 
+def dist_table(dist):
+    # Outcomes and weights of a distribution which is defined by a table.
+    if not hasattr(dist.dist, 'xk'):
+        return None
+    return (tuple(dist.dist.xk.tolist()), tuple(dist.dist.pk.tolist()))
+
 class MemoKey():
     # Identity of an SPE, which it keeps alive so that its id is not reused.
     def __init__(self, spe):
-- 
2.43.0


From 11e0ae776913c6f263bf7e9ed1bd436eab03533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 46/67] fix: dictionary form of distributions defined by a
 table

---
 src/compilers/spe_to_dict.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index a5e52d1..ff1b339 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -22,6 +22,7 @@ from ..spe import DiscreteLeaf
 from ..spe import NominalLeaf
 from ..spe import ProductSPE
 from ..spe import SumSPE
+from ..spe import dist_table
 
 # Needed for "eval"
 from ..sets import *
@@ -69,9 +70,18 @@ def env_to_dict(env):
 
 def scipy_dist_from_dict(dist):
     constructor = getattr(scipy.stats, dist['name'])
+    if dist['name'] == 'rv_discrete':
+        return constructor(*dist['args'], **dist['kwds']).freeze()
     return constructor(*dist['args'], **dist['kwds'])
 
 def scipy_dist_to_dict(dist):
+    table = dist_table(dist)
+    if table is not None:
+        return {
+            'name': 'rv_discrete',
+            'args': (),
+            'kwds': {'values': table}
+        }
     return {
         'name': dist.dist.name,
         'args': dist.args,
-- 
2.43.0


From c3e12f38d6fc322450f2c8a5ffb3c80d96ed2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 47/67] fix: render every leaf of a model as program text

---
 src/compilers/spe_to_sppl.py | 124 +++++++++++++++++++++++++++++++----
 1 file changed, 112 insertions(+), 12 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index d6714a0..62ba820 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -5,14 +5,91 @@
 
 from io import StringIO
 from math import exp
+from math import isinf
 
+import sympy
+
+from ..sets import FiniteNominal
+from ..sets import FiniteReal
+from ..sets import Interval
+from ..sets import Union
+from ..spe import AtomicLeaf
 from ..spe import RealLeaf
 from ..spe import NominalLeaf
 from ..spe import ProductSPE
 from ..spe import SumSPE
+from ..spe import dist_table
+from ..transforms import Abs
+from ..transforms import EventAnd
+from ..transforms import EventBasic
+from ..transforms import EventOr
+from ..transforms import Exponential
+from ..transforms import Identity
+from ..transforms import Logarithm
+from ..transforms import Piecewise
+from ..transforms import Poly
+from ..transforms import Radical
+from ..transforms import Reciprocal
 
 get_indentation = lambda i: ' ' * i
 float_to_str = lambda x,fw: '%1.*f' % (fw, float(x)) if fw else str(x)
+
+def number_to_sppl(x):
+    if isinf(x):
+        return "float('%s')" % (float(x),)
+    is_int = isinstance(x, (int, sympy.Integer))
+    return '(%s)' % (int(x) if is_int else float(x),)
+def set_to_sppl(x):
+    if isinstance(x, FiniteNominal):
+        return 'FiniteNominal(%s)' % ', '.join(
+            [repr(str(v)) for v in x.values] + ['b=%s' % (x.b,)])
+    if isinstance(x, FiniteReal):
+        return 'FiniteReal(%s)' % ', '.join(number_to_sppl(v) for v in x.values)
+    if isinstance(x, Interval):
+        return 'Interval(%s, %s, left_open=%s, right_open=%s)' % \
+            (number_to_sppl(x.a), number_to_sppl(x.b),
+                bool(x.left_open), bool(x.right_open))
+    if isinstance(x, Union):
+        return 'Union(%s)' % ', '.join(set_to_sppl(v) for v in x.args)
+    assert False, 'Unknown set %s' % (x,)
+def event_to_sppl(event):
+    if isinstance(event, EventBasic):
+        return '(%s << %s)' % \
+            (transform_to_sppl(event.subexpr), set_to_sppl(event.values))
+    if isinstance(event, EventOr):
+        return '(%s)' % ' | '.join(event_to_sppl(e) for e in event.subexprs)
+    if isinstance(event, EventAnd):
+        return '(%s)' % ' & '.join(event_to_sppl(e) for e in event.subexprs)
+    assert False, 'Unknown event %s' % (event,)
+def transform_to_sppl(expr):
+    if isinstance(expr, Identity):
+        return expr.token
+    if isinstance(expr, Piecewise):
+        return '(%s)' % ' + '.join(
+            '%s * %s' % (transform_to_sppl(e), event_to_sppl(event))
+            for e, event in zip(expr.subexprs, expr.events))
+    subexpr = transform_to_sppl(expr.subexpr)
+    if isinstance(expr, Radical):
+        return '(%s**(1, %d))' % (subexpr, expr.degree)
+    if isinstance(expr, Exponential):
+        if expr.base == sympy.E:
+            return 'Exp(%s)' % (subexpr,)
+        return '(%s**%s)' % (number_to_sppl(expr.base), subexpr)
+    if isinstance(expr, Logarithm):
+        if expr.base == sympy.E:
+            return 'Log(%s)' % (subexpr,)
+        return 'Logarithm(%s, %s)' % (subexpr, number_to_sppl(expr.base))
+    if isinstance(expr, Abs):
+        return 'abs(%s)' % (subexpr,)
+    if isinstance(expr, Reciprocal):
+        return '(1 / %s)' % (subexpr,)
+    if isinstance(expr, Poly):
+        return '(%s)' % ' + '.join(
+            number_to_sppl(c) if i == 0
+                else '%s*%s**%d' % (number_to_sppl(c), subexpr, i)
+            for i, c in enumerate(expr.coeffs) if i == 0 or c != 0)
+    assert False, 'Unknown transform %s' % (expr,)
+
 class _SPPL_Render_State:
     def __init__(self, stream=None, branches=None, indentation=None,
             fwidth=None):
@@ -23,7 +100,7 @@ class _SPPL_Render_State:
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
     dist_pairs = [
-        '\'%s\' : %s' % (k, float_to_str(v, fwidth))
+        '%r : %s' % (str(k), float_to_str(v, fwidth))
         for (k, v) in dist.items()
     ]
     # Write each outcome on new line.
@@ -41,6 +118,12 @@ def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     stream.write('%s%s ~= choice({%s%s%s})' %
         (idt, symbol, dist_op, dist_str, dist_cl))
     stream.write('\n')
+def render_sppl_env(spe, state):
+    idt = get_indentation(state.indentation)
+    for var, expr in spe.env.items():
+        if var != spe.symbol:
+            state.stream.write('%s%s ~= %s' % (idt, var, transform_to_sppl(expr)))
+            state.stream.write('\n')
 def render_sppl_helper(spe, state):
     if isinstance(spe, NominalLeaf):
         assert len(spe.env) == 1
@@ -52,23 +135,36 @@ def render_sppl_helper(spe, state):
             state.fwidth)
         return state
     if isinstance(spe, RealLeaf):
-        kwds = ', '.join([
-            '%s=%s' % (k, float_to_str(v, state.fwidth))
-            for k, v in spe.dist.kwds.items()
-        ])
-        dist = '%s(%s)' % (spe.dist.dist.name, kwds)
+        table = dist_table(spe.dist)
+        if table is not None:
+            # Distributions given by a table of outcomes have no name.
+            dist = 'discrete({%s})' % ', '.join([
+                '%s: %s' % (number_to_sppl(x), p)
+                for (x, p) in zip(*table)
+            ])
+        else:
+            kwds = ', '.join([
+                '%s=%s' % (k, float_to_str(v, state.fwidth))
+                for k, v in spe.dist.kwds.items()
+            ])
+            dist = '%s(%s)' % (spe.dist.dist.name, kwds)
         idt = get_indentation(state.indentation)
         state.stream.write('%s%s ~= %s' % (idt, spe.symbol, dist))
         state.stream.write('\n')
         if spe.conditioned:
-            event = spe.symbol << spe.support
-            # TODO: Consider using repr(event)
+            event = event_to_sppl(spe.symbol << spe.support)
             state.stream.write('%scondition(%s)' % (idt, event))
             state.stream.write('\n')
-        for i, (var, expr) in enumerate(spe.env.items()):
-            if 1 <= i:
-                state.stream.write('%s%s ~= %s' % (idt, var, expr))
-                state.stream.write('\n')
+        render_sppl_env(spe, state)
+        return state
+    if isinstance(spe, AtomicLeaf):
+        idt = get_indentation(state.indentation)
+        state.stream.write('%s%s ~= norm(loc=0, scale=1)' % (idt, spe.symbol))
+        state.stream.write('\n')
+        state.stream.write('%sconstrain({%s: %s})'
+            % (idt, spe.symbol, number_to_sppl(spe.value)))
+        state.stream.write('\n')
+        render_sppl_env(spe, state)
         return state
     if isinstance(spe, ProductSPE):
         for child in spe.children:
@@ -106,6 +202,10 @@ def render_sppl(spe, stream=None, fwidth=None):
     # Write the import.
     stream.write('from sppl.distributions import *')
     stream.write('\n')
+    stream.write('from sppl.sets import FiniteNominal, FiniteReal, Interval, Union')
+    stream.write('\n')
+    stream.write('from sppl.transforms import Exp, Log, Logarithm')
+    stream.write('\n')
     stream.write('\n')
     # Write the branch variables (if any).
     for branch_var, branch_dist in state.branches:
-- 
2.43.0


From 4ace4821c2d320b68b0e4e2d1d4f975592931a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 48/67] fix: distributions over a table with fractional
 outcomes are rejected

---
 src/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distributions.py b/src/distributions.py
index 88c65b1..1cec8f5 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -706,6 +706,7 @@ class rv_discrete(DiscreteReal):
     dist = lambda self, **kwargs: scipy.stats.rv_discrete(**kwargs).freeze()
     def get_domain(self):
         atoms = self.kwargs['values'][0]
+        assert all(x == int(x) for x in atoms), 'Outcomes must be integers'
         return Range(min(atoms), max(atoms))
 
 class uniformd(rv_discrete):
-- 
2.43.0


From 2403905a849cba3fd65e9d7443eedf28dabf664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 49/67] fix: inverse image of the value 0 under a compound
 event

EventOr and EventAnd used the union (intersection) of the inverses of their
parts for every value. The points where a disjunction is False are the
intersection of those where its parts are False, and dually for EventAnd.
---
 src/transforms.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 37a5380..768c9ec 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1119,10 +1119,16 @@ class EventOr(EventCompound):
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_union(*xs_list)
+        # False only where all events are False.
+        return make_intersection(*xs_list) if y == 0 else make_union(*xs_list)
     def invert_finite(self, ys):
-        xs_list = [event.invert(ys) for event in self.subexprs]
-        return make_union(*xs_list)
+        # Subset of range, i.e., of {0, 1}.
+        xs = EmptySet
+        for y in ys:
+            xs_list = [event.invert(FiniteReal(y)) for event in self.subexprs]
+            # False only where all events are False.
+            xs |= make_intersection(*xs_list) if y == 0 else make_union(*xs_list)
+        return xs
 
     # Event methods.
     def to_dnf_list(self):
@@ -1169,10 +1175,16 @@ class EventAnd(EventCompound):
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_intersection(*xs_list)
+        # False where some event is False.
+        return make_union(*xs_list) if y == 0 else make_intersection(*xs_list)
     def invert_finite(self, ys):
-        xs_list = [event.invert(ys) for event in self.subexprs]
-        return make_intersection(*xs_list)
+        # Subset of range, i.e., of {0, 1}.
+        xs = EmptySet
+        for y in ys:
+            xs_list = [event.invert(FiniteReal(y)) for event in self.subexprs]
+            # False where some event is False.
+            xs |= make_union(*xs_list) if y == 0 else make_intersection(*xs_list)
+        return xs
 
     # Event methods.
     def to_dnf_list(self):
-- 
2.43.0


From 167ff541bf24fbbd10024260ace4d78bc361b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 50/67] fix: logarithms that are rational numbers are compared
 as such

---
 src/transforms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 768c9ec..c0e5b75 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -469,7 +469,7 @@ class Exponential(Injective):
             return FiniteReal(oo if self.base > 1 else -oo)
         if y <= 0:
             return FiniteReal(-oo if self.base > 1 else oo)
-        return FiniteReal(sympy.log(y, self.base))
+        return FiniteReal(log_number(y, self.base))
     def __eq__(self, x):
         return isinstance(x, Exponential) \
             and self.subexpr == x.subexpr \
@@ -507,7 +507,7 @@ class Logarithm(Injective):
         assert x in self.domain()
         if x <= 0:
             return -oo
-        return sympy.log(x, self.base) if not isinf_pos(x) else oo
+        return log_number(x, self.base) if not isinf_pos(x) else oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
@@ -1248,6 +1248,12 @@ def transform_interval(interval, a, b, flip=None):
         if not flip else \
         Interval(a, b, interval.right_open, interval.left_open) \
 
+def log_number(x, base):
+    y = sympy.log(x, base)
+    # A quotient such as log(4)/log(1/2) cannot be compared with -2.
+    y_simple = sympy.simplify(y)
+    return y_simple if y_simple.is_Rational else y
+
 def make_sympy_polynomial(coeffs):
     terms = [c*symX**i for (i,c) in enumerate(coeffs)]
     return sympy.Add(*terms)
-- 
2.43.0


From c5ad01db4b220ccb40dec7431e6e5a5fa20589b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 51/67] fix: polynomial coefficients must be finite

---
 src/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transforms.py b/src/transforms.py
index c0e5b75..f55bbd4 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -636,6 +636,8 @@ class Reciprocal(Transform):
 class Poly(Transform):
     def __init__(self, subexpr, coeffs):
         assert len(coeffs) > 1
+        if not all(sympy.sympify(c).is_finite for c in coeffs):
+            raise ValueError('Coefficients must be finite: %s' % (coeffs,))
         self.subexpr = make_subexpr(subexpr, self)
         self.coeffs = tuple(coeffs)
         self.degree = len(coeffs) - 1
-- 
2.43.0


From fd7efa9dd82b4573c583d382ec70b14478498790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 52/67] fix: A switch over enumerated values can be interpreted
 more than once

---
 src/compilers/ast_to_spe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compilers/ast_to_spe.py b/src/compilers/ast_to_spe.py
index 858e419..ef12ef8 100644
--- a/src/compilers/ast_to_spe.py
+++ b/src/compilers/ast_to_spe.py
@@ -106,10 +106,12 @@ class Switch(Command):
     def __init__(self, symbol, values, f):
         self.symbol = symbol
         self.f = f
-        self.values = values
+        # Iterators are read once; the command may be interpreted again.
+        self.enumerated = isinstance(values, enumerate)
+        self.values = list(values)
     def interpret(self, spe=None):
-        if isinstance(self.values, enumerate):
-            values = list(self.values)
+        if self.enumerated:
+            values = self.values
             sets = [self.value_to_set(v[1]) for v in values]
             subcommands = [self.f(*v) for v in values]
         else:
-- 
2.43.0


From 3d1eea60349f22a7bfccc59919fc8e665014b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 53/67] fix: The text of the set of all strings cannot be read
 back

---
 src/sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index d44caf4..1e6a076 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -96,8 +96,8 @@ class FiniteNominal(Set):
         x = (self.__class__, self.values, bool(self.b))
         return hash(x)
     def __repr__(self):
-        str_values = ', '.join(repr(x) for x in self.values)
-        return 'FiniteNominal(%s, b=%s)' % (str_values, repr(self.b))
+        str_values = ''.join('%s, ' % (repr(x),) for x in self.values)
+        return 'FiniteNominal(%sb=%s)' % (str_values, repr(self.b))
     def __str__(self):
         return '%s%s' % (('~' if self.b else ''), str(set(self.values)),)
     def __len__(self):
-- 
2.43.0


From a828b279348e3541985cd3f9e0a7d404aad757f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 54/67] fix: SymPy infinities in events are read back as floats

---
 src/compilers/spe_to_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index ff1b339..3982e41 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -54,7 +54,7 @@ def eval_exact(source):
     tree = ExactDivision().visit(ast.parse(source, mode='eval'))
     code = compile(ast.fix_missing_locations(tree), '<spe>', 'eval')
     # SymPy shows roots of polynomials in terms of x.
-    names = {'sympify': sympy.sympify, 'x': sympy.Symbol('x')}
+    names = {'sympify': sympy.sympify, 'x': sympy.Symbol('x'), 'oo': sympy.oo}
     return eval(code, globals(), names)
 
 def env_from_dict(env):
-- 
2.43.0


From 1482e675202eb40d33b4403d4d4be8d39dcff1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 55/67] fix: Reject conditional expressions whose test is an
 event

---
 src/compilers/sppl_to_python.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index e552f0d..5aec551 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -69,6 +69,22 @@ class SPPL_Visitor(ast.NodeVisitor):
             elif isinstance(value, ast.AST):
                 self.visit(value)
 
+    def transform_compare(self, node):
+        """Rewrite comparisons as events."""
+        # The value of an event is unknown here, it cannot select a branch.
+        for n in ast.walk(node):
+            if isinstance(n, ast.IfExp):
+                self.assert_no_variables(n.test)
+            if isinstance(n, ast.comprehension):
+                for test in n.ifs:
+                    self.assert_no_variables(test)
+        return SPPL_Transformer_Compare().visit(node)
+
+    def assert_no_variables(self, node):
+        visitor_name = SPPL_Visitor_Name(DISTRIBUTIONS, self.variables)
+        visitor_name.visit(node)
+        assert not visitor_name.variables, unparse(node)
+
     def visit_Import(self, node):
         str_node = unparse(node).replace(os.linesep, '')
         self.imports.append(str_node)
@@ -143,7 +159,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         if isinstance(target, ast.Subscript):
             assert target.value.id in self.variables, unode
             assert self.variables[target.value.id][0] == 'array', unode
-        value_prime = SPPL_Transformer_Compare().visit(node.value)
+        value_prime = self.transform_compare(node.value)
         src_value = unparse(value_prime).replace(os.linesep, '')
         src_targets = unparse(node.targets).replace(os.linesep, '')
         idt = get_indentation(self.indentation)
@@ -232,7 +248,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.indentation += 4
         for i, (test, body) in enumerate(unrolled):
             # Write the test.
-            test_prime = SPPL_Transformer_Compare().visit(test)
+            test_prime = self.transform_compare(test)
             src_test = unparse(test_prime).strip()
             idt = get_indentation(self.indentation)
             self.command.write('%s%s,' % (idt, src_test))
@@ -263,7 +279,7 @@ class SPPL_Visitor(ast.NodeVisitor):
             assert len(node.args) == 1, unode
             idt = get_indentation(self.indentation)
             event = node.args[0]
-            event_prime = SPPL_Transformer_Compare().visit(event)
+            event_prime = self.transform_compare(event)
             src_event = unparse(event_prime).strip()
             self.command.write('%sCondition(%s),' % (idt, src_event))
             self.command.write('\n')
-- 
2.43.0


From 3a18a54be2afcc498c6e638cb4b32d93f507bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 56/67] fix: Reject statements and calls which are not part of
 the language

---
 src/compilers/sppl_to_python.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 5aec551..21aca1e 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -59,6 +59,8 @@ class SPPL_Visitor(ast.NodeVisitor):
 
     def generic_visit(self, node):
         """Called if no explicit visitor function exists for a node."""
+        assert isinstance(node, ast.Expr) or not isinstance(node, ast.stmt), \
+            'unknown statement %s' % (unparse(node),)
         for field, value in ast.iter_fields(node):
             if isinstance(value, list):
                 with maybe_sequence_block(self, value, self.first):
@@ -176,6 +178,7 @@ class SPPL_Visitor(ast.NodeVisitor):
 
     def visit_For(self, node):
         assert isinstance(node.iter, ast.Call)
+        assert not node.orelse, unparse(node)
         if node.iter.func.id == 'range':
             return self.visit_For_vanilla(node)
         if node.iter.func.id == 'switch':
@@ -290,6 +293,8 @@ class SPPL_Visitor(ast.NodeVisitor):
             src_assignment = unparse(assignment).strip()
             self.command.write('%sConstrain(%s),' % (idt, src_assignment))
             self.command.write('\n')
+        else:
+            assert False, 'unknown call %s' % (unode,)
 
 def unroll_if(node, current=None):
     current = [] if current is None else current
-- 
2.43.0


From a7384ef214637b46020b0b339b516da739302cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 57/67] fix: Accept constants defined by a call through an
 attribute

---
 src/compilers/sppl_to_python.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 21aca1e..fe29cff 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -114,13 +114,17 @@ class SPPL_Visitor(ast.NodeVisitor):
             if d not in self.distributions:
                 self.distributions[d] = None
 
+        # Name of the function, which a call by attribute does not have.
+        func_id = getattr(value.func, 'id', None) \
+            if isinstance(value, ast.Call) else None
+
         # Assigning an array.
-        if isinstance(value, ast.Call) and value.func.id == 'array':
+        if func_id == 'array':
             return self.visit_Assign_array(node)
         # Assigning a distribution.
         if visitor_name.distributions:
             # Assigning distribution (directly).
-            if isinstance(value, ast.Call) and value.func.id in DISTRIBUTIONS:
+            if func_id in DISTRIBUTIONS:
                 return self.visit_Assign_sample_or_transform(node, 'Sample')
             # Assigning distribution (mixture).
             if isinstance(value, ast.BinOp) and isinstance(value.op, ast.BitOr):
-- 
2.43.0


From a65b3ec56e6a23889e23f66d721b5583b68d051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 58/67] fix: Keep ~= within string literals of programs

---
 src/compilers/sppl_to_python.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index fe29cff..cf28c6d 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -393,7 +393,10 @@ class SPPL_Compiler():
     def preprocess(self):
         lines = self.source.split(os.linesep)
         source_prime = os.linesep.join(l for l in lines if l.strip())
-        source_prime = source_prime.replace('~=', '=')
+        # Rewrite ~= as =, except within string literals.
+        source_prime = re.sub(
+            r"""('(?:[^'\\\n]|\\.)*'|"(?:[^"\\\n]|\\.)*")|~=""",
+            lambda m: m.group(1) or '=', source_prime)
         source_prime = re.sub(
             r'^(\s*)switch\s*\((.+)\)\s*cases\s*\((.+)\s*in\s+(.+)\s*\)\s*:',
             r"\1for \3 in switch(\2, \4):",
-- 
2.43.0


From d0e6412addb856a428855ac8d92652ca217225e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 59/67] fix: Rewrite comparisons within operands of comparisons

---
 src/compilers/sppl_to_python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index cf28c6d..c0d08bf 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -342,6 +342,7 @@ class SPPL_Transformer_Compare(ast.NodeTransformer):
                 ast.Compare(left=copy.deepcopy(x), ops=[op], comparators=[y])
                 for x, op, y in zip(operands, node.ops, operands[1:])
             ]))
+        self.generic_visit(node)
         if isinstance(node.ops[0], ast.In):
             return ast.BinOp(
                 left=node.left,
-- 
2.43.0


From 9c4b22eac2c1ad4e5652570c66a01a420e6f944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 60/67] fix: Reject distributions whose parameters are random
 variables

---
 src/compilers/sppl_to_python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index c0d08bf..d99bb53 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -123,6 +123,8 @@ class SPPL_Visitor(ast.NodeVisitor):
             return self.visit_Assign_array(node)
         # Assigning a distribution.
         if visitor_name.distributions:
+            # Parameters must be constant.
+            assert not visitor_name.variables, str_node
             # Assigning distribution (directly).
             if func_id in DISTRIBUTIONS:
                 return self.visit_Assign_sample_or_transform(node, 'Sample')
-- 
2.43.0


From 5e89a538425650abd41bb7ab8fc66519af06493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 61/67] fix: Name branch variables of rendered programs apart
 from the variables of the model

---
 src/compilers/spe_to_sppl.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index 62ba820..221dbb0 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -92,11 +92,18 @@ def transform_to_sppl(expr):
 
 class _SPPL_Render_State:
     def __init__(self, stream=None, branches=None, indentation=None,
-            fwidth=None):
+            fwidth=None, symbols=None):
         self.stream = stream or StringIO()
         self.branches = branches or []
         self.indentation = indentation or 0
         self.fwidth = fwidth
+        self.symbols = symbols or []
+    def fresh_branch_var(self):
+        taken = self.symbols + [branch_var for branch_var, _ in self.branches]
+        i = len(self.branches)
+        while 'branch_var_%s' % (i,) in taken:
+            i += 1
+        return 'branch_var_%s' % (i,)
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
     dist_pairs = [
@@ -175,7 +182,7 @@ def render_sppl_helper(spe, state):
             return state
         if len(spe.children) == 1:
             return render_sppl_helper(spe.children[0], state)
-        branch_var = 'branch_var_%s' % (len(state.branches))
+        branch_var = state.fresh_branch_var()
         branch_idxs = [str(i) for i in range(len(spe.children))]
         branch_dist = {k: exp(w) for k, w in zip(branch_idxs, spe.weights)}
         state.branches.append((branch_var, branch_dist))
@@ -196,7 +203,8 @@ def render_sppl_helper(spe, state):
 def render_sppl(spe, stream=None, fwidth=None):
     if stream is None:
         stream = StringIO()
-    state = _SPPL_Render_State(fwidth=fwidth)
+    symbols = [symbol.token for symbol in spe.get_symbols()]
+    state = _SPPL_Render_State(fwidth=fwidth, symbols=symbols)
     state = render_sppl_helper(spe, state)
     assert state.indentation == 0
     # Write the import.
-- 
2.43.0


From 1f1710df424edd087c26aaeb396b64e6ea447676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 62/67] fix: Declare the arrays of rendered programs

---
 src/compilers/spe_to_sppl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index 221dbb0..13f8b2e 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -215,6 +215,15 @@ def render_sppl(spe, stream=None, fwidth=None):
     stream.write('from sppl.transforms import Exp, Log, Logarithm')
     stream.write('\n')
     stream.write('\n')
+    # Write the arrays (if any).
+    arrays = {}
+    for symbol in symbols:
+        if symbol.endswith(']'):
+            array, index = symbol[:-1].split('[')
+            arrays[array] = max(arrays.get(array, 0), int(index) + 1)
+    for array in sorted(arrays):
+        stream.write('%s = array(%d)' % (array, arrays[array]))
+        stream.write('\n')
     # Write the branch variables (if any).
     for branch_var, branch_dist in state.branches:
         render_sppl_choice(branch_var, branch_dist, stream, 0, fwidth)
-- 
2.43.0


From 9e3986eadafa10f24749bcc86c10abb135f8f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 63/67] fix: Constants, variables and loop indexes may be named
 like distributions

---
 src/compilers/sppl_to_python.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index d99bb53..a584db8 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -25,6 +25,7 @@ def __load_spe_distributions():
 
 DISTRIBUTIONS = __load_spe_distributions()
 get_indentation = lambda i: ' ' * i
+names_of = lambda node: [n.id for n in ast.walk(node) if isinstance(n, ast.Name)]
 
 @contextmanager
 def maybe_sequence_block(visitor, value, first=None):
@@ -52,8 +53,10 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.indentation = 0
         self.context = ['global']
         self.command = stream or io.StringIO()
+        self.indexes = []
         self.imports = []
         self.constants = OrderedDict()
+        self.constants_names = set()
         self.variables = OrderedDict()
         self.distributions = OrderedDict()
 
@@ -108,7 +111,10 @@ class SPPL_Visitor(ast.NodeVisitor):
 
         # Record visited distributions.
         value = node.value
-        visitor_name = SPPL_Visitor_Name(DISTRIBUTIONS, self.variables)
+        # Names of the program hide distributions of the same name.
+        distributions = DISTRIBUTIONS.difference(
+            self.variables, self.indexes, self.constants_names)
+        visitor_name = SPPL_Visitor_Name(distributions, self.variables)
         visitor_name.visit(value)
         for d in visitor_name.distributions:
             if d not in self.distributions:
@@ -126,7 +132,7 @@ class SPPL_Visitor(ast.NodeVisitor):
             # Parameters must be constant.
             assert not visitor_name.variables, str_node
             # Assigning distribution (directly).
-            if func_id in DISTRIBUTIONS:
+            if func_id in distributions:
                 return self.visit_Assign_sample_or_transform(node, 'Sample')
             # Assigning distribution (mixture).
             if isinstance(value, ast.BinOp) and isinstance(value.op, ast.BitOr):
@@ -181,6 +187,7 @@ class SPPL_Visitor(ast.NodeVisitor):
             assert False, 'constants only before sampling %s' % (unode,)
         str_node = unode.strip()
         self.constants[str_node] = None
+        self.constants_names.update(names_of(node.targets[0]))
 
     def visit_For(self, node):
         assert isinstance(node.iter, ast.Call)
@@ -199,6 +206,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         assert isinstance(node.iter.args[0], (ast.Name, ast.Subscript)), unode
         # Open Switch.
         self.context.append('switch')
+        self.indexes.extend(names_of(node.target))
         idt = get_indentation(self.indentation)
         symbol = unparse(node.iter.args[0]).strip()
         values = unparse(node.iter.args[1]).strip()
@@ -216,6 +224,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.command.write('%s),' % (idt,))
         self.command.write('\n')
         self.context.pop()
+        del self.indexes[-len(names_of(node.target)):]
 
     def visit_For_vanilla(self, node):
         unode = unparse(node)
@@ -230,6 +239,7 @@ class SPPL_Visitor(ast.NodeVisitor):
             n1 = unparse(node.iter.args[1]).strip()
         # Open For.
         self.context.append('for')
+        self.indexes.extend(names_of(node.target))
         idt = get_indentation(self.indentation)
         idx = unparse(node.target).strip()
         self.command.write('%sFor(%s, %s, lambda %s:' % (idt, n0, n1, idx))
@@ -243,6 +253,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.command.write('%s),' % (idt,))
         self.command.write('\n')
         self.context.pop()
+        del self.indexes[-len(names_of(node.target)):]
 
     def visit_If(self, node):
         unode = unparse(node)
-- 
2.43.0


From 5034cee0e4a26250ba8794156590ab7f92a53999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:32 +0000
Subject: [PATCH 64/67] fix: Cases of a switch may contain the word in

---
 src/compilers/sppl_to_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index a584db8..094f9c7 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -412,7 +412,7 @@ class SPPL_Compiler():
             r"""('(?:[^'\\\n]|\\.)*'|"(?:[^"\\\n]|\\.)*")|~=""",
             lambda m: m.group(1) or '=', source_prime)
         source_prime = re.sub(
-            r'^(\s*)switch\s*\((.+)\)\s*cases\s*\((.+)\s*in\s+(.+)\s*\)\s*:',
+            r'^(\s*)switch\s*\((.+)\)\s*cases\s*\((.+?)\s+in\b\s*(.+)\s*\)\s*:',
             r"\1for \3 in switch(\2, \4):",
             source_prime, flags=re.MULTILINE)
         return source_prime
-- 
2.43.0


From 96f55b7eef82072720d523d02816d66aa7569cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 65/67] fix: Render distribution parameters given by position

---
 src/compilers/spe_to_sppl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index 13f8b2e..5f88071 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -104,6 +104,10 @@ class _SPPL_Render_State:
         while 'branch_var_%s' % (i,) in taken:
             i += 1
         return 'branch_var_%s' % (i,)
+def dist_parameters(dist):
+    # Programs give all parameters by keyword.
+    shapes = dist.dist.shapes.split(', ') if dist.dist.shapes else []
+    return dict(zip(shapes + ['loc', 'scale'], dist.args), **dist.kwds)
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
     dist_pairs = [
@@ -152,7 +156,7 @@ def render_sppl_helper(spe, state):
         else:
             kwds = ', '.join([
                 '%s=%s' % (k, float_to_str(v, state.fwidth))
-                for k, v in spe.dist.kwds.items()
+                for k, v in dist_parameters(spe.dist).items()
             ])
             dist = '%s(%s)' % (spe.dist.dist.name, kwds)
         idt = get_indentation(state.indentation)
-- 
2.43.0


From 0131158f9b94bd941f2a7324d04c9a53ed410a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:45 +0000
Subject: [PATCH 66/67] fix: run every constant declaration of a program,
 repeated ones too

---
 src/compilers/sppl_to_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 094f9c7..e1d09c6 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -55,7 +55,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.command = stream or io.StringIO()
         self.indexes = []
         self.imports = []
-        self.constants = OrderedDict()
+        self.constants = []
         self.constants_names = set()
         self.variables = OrderedDict()
         self.distributions = OrderedDict()
@@ -186,7 +186,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         if self.distributions:
             assert False, 'constants only before sampling %s' % (unode,)
         str_node = unode.strip()
-        self.constants[str_node] = None
+        self.constants.append(str_node)
         self.constants_names.update(names_of(node.targets[0]))
 
     def visit_For(self, node):
-- 
2.43.0


From 264f4ea994731063436f92d9617c903e8c8b6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 67/67] fix: declarations of a program take effect in its order

---
 src/compilers/sppl_to_python.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index e1d09c6..4ac2402 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -90,12 +90,15 @@ class SPPL_Visitor(ast.NodeVisitor):
         visitor_name.visit(node)
         assert not visitor_name.variables, unparse(node)
 
+    def declare_import(self, str_node):
+        # Declarations take effect in the order of the program.
+        (self.constants if self.constants else self.imports).append(str_node)
     def visit_Import(self, node):
         str_node = unparse(node).replace(os.linesep, '')
-        self.imports.append(str_node)
+        self.declare_import(str_node)
     def visit_ImportFrom(self, node):
         str_node = unparse(node).replace(os.linesep, '')
-        self.imports.append(str_node)
+        self.declare_import(str_node)
 
     def visit_Assign(self, node):
         str_node = unparse(node)
@@ -156,6 +159,8 @@ class SPPL_Visitor(ast.NodeVisitor):
         # assert node.value.args[0].n > 0                # must be pos n
         n = unparse(node.value.args[0]).strip()
         self.variables[target.id] = ('array', n)
+        # The size is that at this point of the program.
+        self.constants.append('%s = IdArray(\'%s\', %s)' % (target.id, target.id, n))
 
     def visit_Assign_sample_or_transform(self, node, op):
         unode = unparse(node)
@@ -392,7 +397,7 @@ class SPPL_Visitor_Name(ast.NodeVisitor):
         if node.id in self.variables_lookup:
             self.variables.add(node.id)
 
-prog = namedtuple('prog', ('imports', 'constants', 'variables', 'arrays', 'command'))
+prog = namedtuple('prog', ('imports', 'constants', 'variables', 'command'))
 class SPPL_Compiler():
     def __init__(self, source, modelname='model'):
         self.source = source
@@ -401,7 +406,6 @@ class SPPL_Compiler():
             imports=io.StringIO(),
             constants=io.StringIO(),
             variables=io.StringIO(),
-            arrays=io.StringIO(),
             command=io.StringIO())
         self.compile()
     def preprocess(self):
@@ -444,19 +448,12 @@ class SPPL_Compiler():
                 self.prog.constants.write('\n')
         # Write the variables.
         variables = [v for v, t in visitor.variables.items() if t[0] == 'variable']
-        arrays = [(v, t[1]) for v, t in visitor.variables.items() if t[0] == 'array']
         if variables:
             self.prog.variables.write('# VARIABLE DECLARATIONS')
             self.prog.variables.write('\n')
             for v in variables:
                 self.prog.variables.write('%s = Id(\'%s\')' % (v, v,))
                 self.prog.variables.write('\n')
-        if arrays:
-            self.prog.arrays.write('# ARRAY DECLARATIONS')
-            self.prog.arrays.write('\n')
-            for v, n in arrays:
-                self.prog.arrays.write('%s = IdArray(\'%s\', %s)' % (v, v, n,))
-                self.prog.arrays.write('\n')
         # Write the command.
         self.prog.command.write('# MODEL DEFINITION')
         self.prog.command.write('\n')
-- 
2.43.0


-------------------------------- MODULE Num --------------------------------
(* Integer helpers and the deterministic generator that picks parameters of *)
(* generated histories.  TLC integers are 32 bit and an overflow is an      *)
(* error, so every definition keeps its intermediate values small.          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b
Mod(a, b) == a % b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

\* whole part of a square root
RECURSIVE RootFrom(_, _)
RootFrom(x, r) == IF r * r <= x /\ x < (r + 1) * (r + 1) THEN r ELSE LET n == (r + x \div r) \div 2 IN IF n = r THEN r - 1 ELSE RootFrom(x, n)
RootDown(x) == IF x <= 0 THEN 0 ELSE IF x < 4 THEN 1 ELSE RootFrom(x, MinI(46000, x \div 2))

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* sum of f(i) for i in lo..hi
RECURSIVE SumF(_, _, _)
SumF(f(_), lo, hi) == IF lo > hi THEN 0 ELSE f(lo) + SumF(f, lo + 1, hi)

RECURSIVE MaxUpTo(_, _)
MaxUpTo(s, i) == IF i = 1 THEN s[1] ELSE MaxI(s[i], MaxUpTo(s, i - 1))
RECURSIVE MinUpTo(_, _)
MinUpTo(s, i) == IF i = 1 THEN s[1] ELSE MinI(s[i], MinUpTo(s, i - 1))
SeqMax(s) == MaxUpTo(s, Len(s))
SeqMin(s) == MinUpTo(s, Len(s))

(* ---- hash generator: Rand(seed,k,t,j,n) in 0..n-1.  46337^2 < 2^31, and  *)
(* x -> x^3 is a bijection modulo the prime 46337.                          *)
HP == 46337
Cube(x) == ((((x * x) % HP) * x) % HP)
Hash(seed, k, t, j) ==
  LET h0 == Cube((seed * 7 + 3) % HP)
      h1 == Cube((h0 + k + 17) % HP)
      h2 == Cube((h1 + t * 7 + j * 1009 + (k \div HP) + 5) % HP)
      h3 == Cube((h2 + h1 * 3 + j * 31 + t + 29) % HP)
  IN h3
Rand(seed, k, t, j, n) == Hash(seed, k, t, j) % n
RandIn(seed, k, t, j, lo, hi) == lo + (Hash(seed, k, t, j) % (hi - lo + 1))
=============================================================================

-------------------------------- MODULE Num --------------------------------
(* Exact arithmetic used by every specification of this framework.            *)
(*                                                                             *)
(* TLC has 32 bit integers and no reals, so an observed real number reaches    *)
(* TLA+ in one of three shapes:                                                *)
(*   - a rational <<n, d>>, d > 0, reduced;  <<1,0>>, <<-1,0>> are infinities, *)
(*     <<0,0>> means "not a representable rational" and equals nothing;        *)
(*   - the (rational) square of an irrational length;                          *)
(*   - a fixed point integer, compared with an explicit slack.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)

(* rationals ------------------------------------------------------------- *)
Rat(n, d) == IF d = 0 THEN (IF n > 0 THEN <<1, 0>> ELSE IF n < 0 THEN <<-1, 0>> ELSE <<0, 0>>)
             ELSE LET g == Gcd(Abs(n), Abs(d))
                      s == IF d < 0 THEN -1 ELSE 1
                  IN  <<s * (n \div g), s * (d \div g)>>
    \* exact: g divides n and d, so \div is plain division

IsNum(q) == q[2] > 0
REq(p, q) == p = q /\ p # <<0, 0>>
RInt(k) == <<k, 1>>
RAdd(p, q) == LET g == Gcd(p[2], q[2])
              IN  Rat(p[1] * (q[2] \div g) + q[1] * (p[2] \div g), p[2] * (q[2] \div g))
RNeg(p) == <<-p[1], p[2]>>
RSub(p, q) == RAdd(p, RNeg(q))
RMul(p, q) == LET g1 == Gcd(Abs(p[1]), q[2])
                  g2 == Gcd(Abs(q[1]), p[2])
                  h1 == IF g1 = 0 THEN 1 ELSE g1
                  h2 == IF g2 = 0 THEN 1 ELSE g2
              IN  Rat((p[1] \div h1) * (q[1] \div h2), (p[2] \div h2) * (q[2] \div h1))
RDiv(p, q) == RMul(p, IF q[1] < 0 THEN <<-q[2], -q[1]>> ELSE <<q[2], q[1]>>)
RLeq(p, q) == LET g == Gcd(p[2], q[2])
              IN  p[1] * (q[2] \div g) <= q[1] * (p[2] \div g)
RLt(p, q) == RLeq(p, q) /\ p # q

(* sums ------------------------------------------------------------------- *)
RECURSIVE SumBetween(_, _, _)
SumBetween(s, i, j) == IF i > j THEN 0 ELSE IF i = j THEN s[i]
                       ELSE LET m == (i + j) \div 2 IN SumBetween(s, i, m) + SumBetween(s, m + 1, j)
SumSeq(s) == SumBetween(s, 1, Len(s))

RECURSIVE SumRatSeq(_)
SumRatSeq(s) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(Head(s), SumRatSeq(Tail(s)))

SumOver(f(_), n) == SumSeq([i \in 1..n |-> f(i)])
CountIf(P(_), n) == Cardinality({i \in 1..n : P(i)})

(* integer square root: largest r with r*r <= x, for 0 <= x < 2^31 ---------- *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(x, lo, hi) == \* invariant lo^2 <= x < (hi+1)^2
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN  IF m * m <= x THEN ISqrtIn(x, m, hi) ELSE ISqrtIn(x, lo, m - 1)
ISqrt(x) == ISqrtIn(x, 0, Min2(46340, IF x < 4 THEN 2 ELSE x \div 2 + 1))

(* sorting sequences of integers -------------------------------------- *)
SortInts(s) == SortSeq(s, LAMBDA x, y : x < y)

IsSortedInts(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

(* binomials, factorials ------------------------------------------------------ *)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE BinomUp(_, _)
BinomUp(n, k) == IF k = 0 THEN 1 ELSE (BinomUp(n, k - 1) * (n - k + 1)) \div k    \* k times the result must fit
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE BinomUp(n, Min2(k, n - k))

(* exp(-x) for a rational x >= 0, as a fixed point number with scale ES.
   e^{-x} = (e^{-x/2^m})^(2^m), Taylor to order 6 on [0, 1/2].
   Absolute error below about 12/ES for x <= 8. *)
ES == 20000
RECURSIVE ExpTaylor(_, _, _, _)
ExpTaylor(xs, k, term, acc) == \* xs = x*ES, |term| current, alternate signs
    IF k > 7 \/ term = 0 THEN acc
    ELSE LET t == (term * xs) \div (ES * k)
         IN  ExpTaylor(xs, k + 1, t, IF k % 2 = 1 THEN acc - t ELSE acc + t)
RECURSIVE ExpNegFixed(_)
ExpNegFixed(xs) == \* xs = x * ES
    IF xs > 12 * ES THEN 0
    ELSE IF xs <= ES \div 2 THEN ExpTaylor(xs, 1, ES, ES)
    ELSE LET h == ExpNegFixed(xs \div 2) IN (h * h + ES \div 2) \div ES
=============================================================================

------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* Fixed-point numbers.  A real value r is represented by the integer      *)
(* 1024*r.  Values outside that grid, or the result of an operation that   *)
(* leaves it, are INEX ("known to exist, not known exactly"): INEX is      *)
(* contagious, and an observation is never rejected against INEX.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

U == 1024

NAN     == 2000000001
INEX    == 2000000002
PINF    == 2000000003
NINF    == -2000000003
HIGHEST == 2000000000       \* numeric_limits<double>::max()
LOWEST  == -2000000000      \* numeric_limits<double>::lowest()

Fix(n) == n * U

Abs(x)   == IF x < 0 THEN -x ELSE x
IsFin(x) == x # NAN /\ x # PINF /\ x # NINF
Plain(x) == x < 1000000000 /\ x > -1000000000
Fit(x)   == IF Plain(x) THEN x ELSE INEX

FNeg(a) == CASE a = NAN -> NAN [] a = INEX -> INEX [] OTHER -> -a

FAdd(a, b) ==
    CASE a = NAN \/ b = NAN -> NAN
      [] a = INEX \/ b = INEX -> INEX
      [] Plain(a) /\ Plain(b) -> Fit(a + b)
      [] a = PINF /\ b = NINF -> NAN
      [] a = NINF /\ b = PINF -> NAN
      [] a = PINF \/ b = PINF -> PINF
      [] a = NINF \/ b = NINF -> NINF
      [] Plain(b) -> a                          \* HIGHEST/LOWEST absorb
      [] Plain(a) -> b
      [] a = -b -> 0
      [] a > 0 -> PINF
      [] OTHER -> NINF

FSub(a, b) == FAdd(a, FNeg(b))

\* a * c where c is a coefficient
FMul(a, c) ==
    CASE a = NAN \/ c = NAN -> NAN
      [] a = 0 \/ c = 0 -> 0
      [] ~Plain(a) \/ ~Plain(c) -> INEX
      [] OTHER ->
           LET q == a \div U
               r == a % U
           IN IF Abs(c) > 1000000 THEN
                 \* swap the roles: both operands are plain
                 LET q2 == c \div U
                     r2 == c % U
                 IN IF Abs(a) > 1000000 \/ (q2 # 0 /\ Abs(a) > 1000000000 \div Abs(q2))
                       \/ (r2 * a) % U # 0
                    THEN INEX ELSE Fit(q2 * a + (r2 * a) \div U)
              ELSE IF (q # 0 /\ Abs(c) > 1000000000 \div Abs(q)) \/ (r * c) % U # 0
                   THEN INEX
                   ELSE Fit(q * c + (r * c) \div U)

\* a / d for a plain positive divisor d
FDiv(a, d) ==
    CASE a = NAN -> NAN
      [] a = 0 -> 0
      [] ~Plain(a) \/ ~Plain(d) \/ d <= 0 \/ d > 1000000 -> INEX
      [] OTHER ->
           LET q == a \div d
               r == a % d
           IN IF Abs(q) > 900000 \/ (r * U) % d # 0 THEN INEX
              ELSE Fit(q * U + (r * U) \div d)

\* value * 10^k
RECURSIVE FScale(_, _)
FScale(a, k) ==
    IF k = 0 \/ ~Plain(a) \/ a = 0 THEN a
    ELSE IF k > 0 THEN FScale(IF Abs(a) > 100000000 THEN INEX ELSE a * 10, k - 1)
    ELSE IF a % 10 = 0 THEN FScale(a \div 10, k + 1) ELSE INEX

Inexact(a, b) == a = INEX \/ b = INEX

\* C++ comparisons: false when an operand is not a number
Gt(a, b) == a # NAN /\ b # NAN /\ a > b
Lt(a, b) == a # NAN /\ b # NAN /\ a < b
Ge(a, b) == a # NAN /\ b # NAN /\ a >= b
Le(a, b) == a # NAN /\ b # NAN /\ a <= b

FMax(a, b) == IF Inexact(a, b) THEN INEX ELSE IF Lt(a, b) THEN b ELSE a
FMin(a, b) == IF Inexact(a, b) THEN INEX ELSE IF Lt(b, a) THEN b ELSE a
Clamp(x, lo, hi) ==
    IF x = INEX \/ lo = INEX \/ hi = INEX THEN INEX
    ELSE IF Lt(x, lo) THEN lo ELSE IF Gt(x, hi) THEN hi ELSE x

\* does an observed value agree with a specified one?
Eq(spec, obs)  == spec = INEX \/ spec = obs
\* ... when the observation was printed with six significant digits
EqLog(spec, obs) ==
    \/ Eq(spec, obs)
    \/ Plain(spec) /\ Plain(obs) /\ Abs(spec - obs) <= 1 + Abs(spec) \div 100000

\* ... when it is a percentage logged as a fraction of one
EqPct(spec, obs) ==
    \/ Eq(spec, obs)
    \/ Plain(spec) /\ Plain(obs) /\ Abs(spec) < 1000000000 /\ Abs(obs) < 20000000
       /\ Abs(spec - 100 * obs) <= 60 + Abs(spec) \div 100000

\* truncation towards zero to an integer
Trunc(x) == IF x >= 0 THEN x \div U ELSE -((-x) \div U)

\* The set of integers a fan with range lo..hi may be given for duty d (percent).
\* The duty is divided by one hundred first, so a value that is an integer in
\* exact arithmetic may come out as its neighbour on the side of zero.
DutyRaw(d, lo, hi) ==
    IF ~Plain(d) \/ d < 0 THEN {}
    ELSE LET rng == hi - lo
             b == rng * (d % U)
             s == 100 * lo + rng * (d \div U) + b \div U
             exact == s % 100 = 0 /\ b % U = 0
             v == IF exact \/ s >= 0 THEN s \div 100 ELSE s \div 100 + 1
         IN IF ~exact \/ rng = 0 \/ d = 0 \/ v = 0 THEN {v}
            ELSE IF v > 0 THEN {v, v - 1} ELSE {v, v + 1}

RatioRaw(d) ==
    IF ~Plain(d) \/ d < 0 THEN {} ELSE {d \div (100 * U)}

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE FAdd(Head(s), SumSeq(Tail(s)))
===========================================================================

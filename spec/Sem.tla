-------------------------------- MODULE Sem --------------------------------
(* Denotational semantics of expressions: the value of a term under an     *)
(* assignment of positive integers to its variables.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

P == 46337          \* prime, (P-1)^2 < 2^31
LIM == 30000        \* bound on exactly known numerators and denominators

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1

RECURSIVE Gcd(_,_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

RECURSIVE PowMod(_,_)
PowMod(b, k) == IF k = 0 THEN 1
                ELSE IF k = 1 THEN b
                ELSE LET h == PowMod(b, k \div 2)
                         q == (h * h) % P
                     IN IF k % 2 = 0 THEN q ELSE (q * b) % P
InvMod(b) == PowMod(b, P - 2)

(* A value is <<st, r, sg, n, d, pc>>:                                      *)
(*   st  0 undefined, 1 unknown to the specification, 2 known by residue,   *)
(*       3 known exactly                                                    *)
(*   r   residue of the value modulo P                                      *)
(*   sg  sign, 2 when it is not known                                       *)
(*   n/d the exact value when st = 3                                        *)
(*   pc  1: the value and all parts of it that the power laws act on are    *)
(*       positive; -1: the same up to explicit signs, value negative;       *)
(*       0: neither, so non-literal-integer powers of it are out of domain  *)
UNDEF == <<0, 0, 2, 0, 1, 0>>
UNK   == <<1, 0, 2, 0, 1, 0>>
St(v) == v[1]
Res(v) == v[2]

Exact(n, d, pc) ==   \* d > 0, n/d reduced, small
    <<3, ((n % P) * (IF d = 1 THEN 1 ELSE InvMod(d % P))) % P, Sgn(n), n, d, pc>>
ResOnly(r, sg, pc) == <<2, r, sg, 0, 1, pc>>
WithPc(v, pc) == <<v[1], v[2], v[3], v[4], v[5], pc>>

Small(x) == x < LIM /\ x > -LIM

\* exact rational from possibly unreduced n/d with d > 0, given residue r
Norm(n, d, r, pc) ==
    IF d = 1
    THEN IF Small(n) THEN <<3, r, Sgn(n), n, 1, pc>> ELSE <<2, r, Sgn(n), 0, 1, pc>>
    ELSE LET g == Gcd(Abs(n), d)
             nn == n \div g
             dd == d \div g
         IN IF Small(nn) /\ Small(dd) THEN <<3, r, Sgn(n), nn, dd, pc>>
            ELSE <<2, r, Sgn(n), 0, 1, pc>>

Bad2(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN UNDEF ELSE UNK

VAdd(x, y) ==
    IF x[1] < 2 \/ y[1] < 2 THEN Bad2(x, y)
    ELSE LET r == (x[2] + y[2]) % P
             ok == x[6] # 0 /\ y[6] # 0 IN
         IF x[1] = 3 /\ y[1] = 3
         THEN LET v == Norm(x[4] * y[5] + y[4] * x[5], x[5] * y[5], r, 0)
              IN <<v[1], v[2], v[3], v[4], v[5], IF ok /\ v[3] = 1 THEN 1 ELSE 0>>
         ELSE LET sg == IF x[3] = 0 THEN y[3] ELSE IF y[3] = 0 THEN x[3]
                        ELSE IF x[3] = y[3] THEN x[3] ELSE 2
              IN <<2, r, sg, 0, 1, IF ok /\ sg = 1 THEN 1 ELSE 0>>

SgMul(a, b) == IF a = 2 \/ b = 2 THEN (IF a = 0 \/ b = 0 THEN 0 ELSE 2) ELSE a * b

VMul(x, y) ==
    IF x[1] < 2 \/ y[1] < 2 THEN Bad2(x, y)
    ELSE LET r == (x[2] * y[2]) % P
             pc == x[6] * y[6] IN
         IF x[1] = 3 /\ y[1] = 3
         THEN Norm(x[4] * y[4], x[5] * y[5], r, pc)
         ELSE <<2, r, SgMul(x[3], y[3]), 0, 1, pc>>

VInv(x) ==
    IF x[1] < 2 THEN x
    ELSE IF x[3] = 0 THEN UNDEF
    ELSE IF x[2] = 0 THEN UNK
    ELSE IF x[1] = 3
         THEN <<3, InvMod(x[2]), x[3], x[3] * x[5], Abs(x[4]), x[6]>>
         ELSE <<2, InvMod(x[2]), x[3], 0, 1, x[6]>>

RECURSIVE PowSmall(_,_)   \* b^k, saturating to LIM when it leaves the exact range (b >= 0)
PowSmall(b, k) == IF k = 0 THEN 1
                  ELSE IF b <= 1 THEN b
                  ELSE IF k > 15 THEN LIM
                  ELSE LET q == PowSmall(b, k - 1) IN
                       IF q >= LIM \/ b >= LIM THEN LIM
                       ELSE IF q * b >= LIM THEN LIM ELSE q * b

PowNat(x, k) ==    \* k >= 1, x defined
    LET r == PowMod(x[2], k)
        sg == IF x[3] \in {0, 1} THEN x[3]
              ELSE IF x[3] = 2 THEN (IF k % 2 = 0 /\ x[2] # 0 THEN 1 ELSE 2)
              ELSE IF k % 2 = 0 THEN 1 ELSE -1
        pc == IF x[6] = -1 /\ k % 2 = 0 THEN 1 ELSE x[6]
    IN IF x[1] = 3
       THEN LET nn == PowSmall(Abs(x[4]), k)
                dd == PowSmall(x[5], k)
            IN IF nn < LIM /\ dd < LIM THEN <<3, r, sg, sg * nn, dd, pc>>
               ELSE <<2, r, sg, 0, 1, pc>>
       ELSE <<2, r, sg, 0, 1, pc>>

\* exact integer q-th root of m >= 1, or 0 when there is none
MaxRoot == <<LIM, 174, 32, 14, 8, 6, 5, 4, 4, 3, 3, 3, 3, 3>>
RECURSIVE RootIn(_,_,_,_)
RootIn(m, q, lo, hi) ==          \* bisection over lo..hi
    IF lo > hi THEN 0
    ELSE LET k == (lo + hi) \div 2
             p == PowSmall(k, q)
         IN IF p = m THEN k ELSE IF p < m THEN RootIn(m, q, k + 1, hi) ELSE RootIn(m, q, lo, k - 1)
Root(m, q) == IF m = 1 THEN 1
              ELSE IF q = 1 THEN m
              ELSE IF m >= LIM \/ q > 14 THEN 0
              ELSE RootIn(m, q, 2, MaxRoot[q])

(* b ^ e; litInt: the exponent is an integer literal *)
VPow(b, e, litInt) ==
    IF b[1] < 2 \/ e[1] < 2 THEN Bad2(b, e)
    ELSE IF b[3] = 0 THEN (IF e[3] = 1 THEN Exact(0, 1, 0)
                           ELSE IF e[3] = 2 THEN UNK ELSE UNDEF)
    ELSE IF ~litInt /\ b[6] # 1 THEN UNK       \* outside the domain of the power laws
    ELSE IF e[1] = 3 /\ e[5] = 1
         THEN IF e[4] = 0 THEN (IF b[3] = 2 /\ b[2] = 0 THEN UNK ELSE Exact(1, 1, 1))
              ELSE IF e[4] > 0 THEN PowNat(b, e[4])
              ELSE VInv(PowNat(b, -e[4]))
    ELSE IF b[1] = 3 /\ b[4] = 1 /\ b[5] = 1 THEN b
    ELSE IF e[1] = 3 /\ b[1] = 3 /\ b[3] = 1
         THEN LET rn == Root(b[4], e[5])
                  rd == Root(b[5], e[5])
              IN IF rn = 0 \/ rd = 0 THEN UNK
                 ELSE LET x == Exact(rn, rd, 1)
                      IN IF e[4] > 0 THEN PowNat(x, e[4]) ELSE VInv(PowNat(x, -e[4]))
    ELSE UNK

\* the largest q <= k for which n/d has an exact q-th root (n/d # 1, n, d > 0)
RECURSIVE RatRootFrom(_,_,_)
RatRootFrom(n, d, k) == IF Root(n, k) # 0 /\ Root(d, k) # 0 THEN k ELSE RatRootFrom(n, d, k - 1)
RatRoot(n, d) == RatRootFrom(n, d, 14)

(* Logarithms of exact values are rational exactly when both are powers of  *)
(* one rational; other logarithms are an uninterpreted function.            *)
VLog(x, b) ==
    IF x[1] < 2 \/ b[1] < 2 THEN Bad2(x, b)
    ELSE IF x[3] \in {0, -1} \/ b[3] \in {0, -1} THEN UNDEF
    ELSE IF x[1] # 3 \/ b[1] # 3 THEN UNK
    ELSE IF b[4] = 1 /\ b[5] = 1 THEN UNDEF
    ELSE IF x[6] # 1 \/ b[6] # 1 THEN UNK
    ELSE IF x[4] = 1 /\ x[5] = 1 THEN Exact(0, 1, 0)
    ELSE LET qx == RatRoot(x[4], x[5])
             qb == RatRoot(b[4], b[5])
             xn == Root(x[4], qx)  xd == Root(x[5], qx)
             bn == Root(b[4], qb)  bd == Root(b[5], qb)
             g == Gcd(qx, qb)
         IN IF xn = bn /\ xd = bd THEN Exact(qx \div g, qb \div g, 1)
            ELSE IF xn = bd /\ xd = bn THEN Exact(-(qx \div g), qb \div g, 0)
            ELSE LET sg == IF (x[4] > x[5]) = (b[4] > b[5]) THEN 1 ELSE -1
                 IN <<2, (((x[2] * 31) % P) * ((b[2] * 17 + 5) % P) + 7 * x[2] + 3) % P, sg, 0, 1,
                      IF sg = 1 THEN 1 ELSE 0>>

VTrig(op, x) ==
    IF x[1] < 2 THEN x
    ELSE IF op = "sin" THEN <<2, (7 * ((x[2] * x[2]) % P) + 3 * x[2] + 11) % P, 2, 0, 1, 0>>
    ELSE <<2, (5 * ((x[2] * x[2]) % P) + 13 * x[2] + 29) % P, 2, 0, 1, 0>>

RECURSIVE LimbRes(_,_,_)
LimbRes(ls, i, acc) == IF i > Len(ls) THEN acc
                       ELSE LimbRes(ls, i + 1, (acc * 10000 + ls[i]) % P)

VInt(n) == IF Small(n) THEN <<3, n % P, Sgn(n), n, 1, Sgn(n)>> ELSE <<2, n % P, Sgn(n), 0, 1, Sgn(n)>>
VBig(s, ls) == LET r == LimbRes(ls, 1, 0) IN <<2, IF s = 1 THEN r ELSE (P - r) % P, s, 0, 1, s>>
VReal(n, e) ==
    IF Abs(n) >= 1048576 \/ e > 10 \/ e < -10 THEN UNK
    ELSE IF e >= 0 THEN VInt(n * PowSmall(2, e))
    ELSE LET d == PowSmall(2, -e) IN
         Norm(n, d, ((n % P) * InvMod(d)) % P, Sgn(n))

\* exponents beyond the exact range: by Fermat's little theorem
RECURSIVE LimbMod(_,_,_,_)
LimbMod(ls, i, acc, m) == IF i > Len(ls) THEN acc
                          ELSE LimbMod(ls, i + 1, (acc * 10000 + ls[i]) % m, m)
HugeInt(t) == t[1] = "J" \/ (t[1] = "I" /\ ~Small(t[2]))
VPowHuge(b, t) ==
    LET pos == t[2] > 0                   \* sign of a J, value of an I
        em == IF t[1] = "I" THEN Abs(t[2]) % (P - 1) ELSE LimbMod(t[3], 1, 0, P - 1)
        odd == (IF t[1] = "I" THEN Abs(t[2]) ELSE t[3][Len(t[3])]) % 2 = 1
    IN IF b[1] < 2 THEN b
       ELSE IF b[3] = 0 THEN (IF pos THEN b ELSE UNDEF)
       ELSE IF b[3] = 2 \/ b[2] = 0 THEN UNK
       ELSE <<2, PowMod(b[2], IF pos THEN em ELSE (P - 1 - em) % (P - 1)),
              IF b[3] = -1 /\ odd THEN -1 ELSE 1, 0, 1,
              IF b[6] = -1 /\ ~odd THEN 1 ELSE b[6]>>
\* a power whose exponent is the term t with value e
VPowT(b, t, e) == IF HugeInt(t) THEN VPowHuge(b, t) ELSE VPow(b, e, t[1] = "I")

RECURSIVE Eval(_,_)
RECURSIVE EvalSum(_,_,_,_)
RECURSIVE EvalProd(_,_,_,_)
\* over ts[i..n]; in halves when there are many, which keeps TLC's recursion shallow
EvalSum(ts, i, n, env) == IF i > n THEN Exact(0, 1, 1)
                          ELSE IF i = n THEN Eval(ts[i], env)
                          ELSE LET m == (i + n) \div 2 IN VAdd(EvalSum(ts, i, m, env), EvalSum(ts, m + 1, n, env))
EvalProd(ts, i, n, env) == IF i > n THEN Exact(1, 1, 1)
                           ELSE IF i = n THEN Eval(ts[i], env)
                           ELSE LET m == (i + n) \div 2 IN VMul(EvalProd(ts, i, m, env), EvalProd(ts, m + 1, n, env))
Eval(t, env) ==
    CASE t[1] = "V" -> (IF t[2] \in DOMAIN env THEN VInt(env[t[2]]) ELSE VInt(env["theta"] - 1))
      [] t[1] = "I" -> VInt(t[2])
      [] t[1] = "R" -> VReal(t[2], t[3])
      [] t[1] = "+" -> EvalSum(t[2], 1, Len(t[2]), env)
      [] t[1] = "*" -> EvalProd(t[2], 1, Len(t[2]), env)
      [] t[1] = "^" -> VPowT(Eval(t[2], env), t[3], Eval(t[3], env))
      [] t[1] = "L" -> VLog(Eval(t[2], env), Eval(t[3], env))
      [] t[1] = "J" -> VBig(t[2], t[3])
      [] t[1] = "sin" -> VTrig("sin", Eval(t[2], env))
      [] t[1] = "cos" -> VTrig("cos", Eval(t[2], env))
      [] OTHER -> UNK

(* Three assignments: many rational powers, generic values, powers of 3.    *)
OddLabels == <<"", "pow", "a b", "(a + b)", "1", "log", "aa", "aB", "(a * b)", "pow(x, 2)">>
OddEnv(vs) == [l \in {OddLabels[i] : i \in 1..Len(OddLabels)} |-> vs[CHOOSE i \in 1..Len(OddLabels) : OddLabels[i] = l]]
E1 == [a |-> 4096, b |-> 4, c |-> 2, d |-> 16, x |-> 64, y |-> 8, z |-> 2, x1 |-> 256, x2 |-> 32,
       xy |-> 128, ab |-> 512, A |-> 1024, B |-> 2048, theta |-> 8192, n |-> 3, k |-> 16384]
      @@ OddEnv(<<4, 32, 128, 512, 2048, 8192, 8, 64, 256, 1024>>)
E2 == [a |-> 10007, b |-> 7919, c |-> 17, d |-> 20011, x |-> 29, y |-> 15013, z |-> 11, x1 |-> 13007,
       x2 |-> 8009, xy |-> 9001, ab |-> 11003, A |-> 12007, B |-> 14009, theta |-> 16007, n |-> 5, k |-> 18013]
      @@ OddEnv(<<10009, 7927, 19, 20021, 31, 15017, 23, 13009, 8011, 9007>>)
E3 == [a |-> 9, b |-> 3, c |-> 27, d |-> 6561, x |-> 3, y |-> 81, z |-> 729, x1 |-> 243, x2 |-> 2187,
       xy |-> 19683, ab |-> 15, A |-> 21, B |-> 33, theta |-> 39, n |-> 2, k |-> 4]
      @@ OddEnv(<<81, 3, 9, 2187, 243, 27, 6561, 729, 19683, 51>>)
Envs == <<E1, E2, E3>>
EvalAll(t) == <<Eval(t, E1), Eval(t, E2), Eval(t, E3)>>

\* may a term with value got stand where value exp was promised?
Agree(exp, got) == exp[1] < 2 \/ got[1] = 1 \/ (got[1] >= 2 /\ got[2] = exp[2])
AgreeAll(es, gs) == \A i \in 1..Len(es) : Agree(es[i], gs[i])
Known(vs) == Cardinality({i \in 1..Len(vs) : vs[i][1] >= 2})
=============================================================================

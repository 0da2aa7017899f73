------------------------------- MODULE Tower -------------------------------
(* A second semantics, exact for powers with any exponent and for           *)
(* logarithms.  A tower is a chain of primes p1 = 2*p2+1, p2 = 2*p3+1, ...: *)
(* the squares modulo p[i] form a group of prime order p[i+1], so that      *)
(*    b ^ e modulo p[i]     is determined by b modulo p[i] and e modulo     *)
(*                          p[i+1], for a square b, and                     *)
(*    log(x, b) modulo p[i+1]   by the squares x and b modulo p[i].         *)
(* Squares play the part of the positive numbers: they are closed under     *)
(* product and inverse, and the power and logarithm laws hold on them.      *)
(* The value of a term is its residue at every level, where it is known.    *)
EXTENDS Integers, Sequences, TLC

Towers == << <<21599, 10799, 5399, 2699>>, <<24527, 12263, 6131>> >>
\* the primes below 60 that are squares at each level (but the last)
SquarePrimes == << << <<2,3,5,11,17,19,29,31,37,41,47,53>>, <<2,3,5,7,11,13,17,31,41,53,59>>, <<2,3,5,13,19,23,29,37,47,53,59>> >>,
                   << <<2,3,7,11,13,17,29,31,37,41,47,59>>, <<2,3,7,13,19,29,37,41,43,47,59>> >> >>

RECURSIVE PowM(_, _, _)
PowM(b, k, p) == IF k = 0 THEN 1
                 ELSE IF k = 1 THEN b
                 ELSE LET h == PowM(b, k \div 2, p)
                          q == (h * h) % p
                      IN IF k % 2 = 0 THEN q ELSE (q * b) % p
InvM(b, p) == PowM(b, p - 2, p)
SquareM(r, p) == r # 0 /\ PowM(r, (p - 1) \div 2, p) = 1

(* Discrete logarithms of squares to the base 4, by baby and giant steps.   *)
Steps == 120                                    \* Steps^2 > p for every level whose squares are used
Babies == [w \in 1..2 |-> [i \in 1..(Len(Towers[w]) - 1) |->
             LET p == Towers[w][i]
                 pw == [j \in 0..(Steps - 1) |-> PowM(4, j, p)]
             IN [r \in {pw[j] : j \in 0..(Steps - 1)} |-> CHOOSE j \in 0..(Steps - 1) : pw[j] = r]]]
Giants == [w \in 1..2 |-> [i \in 1..(Len(Towers[w]) - 1) |-> InvM(PowM(4, Steps, Towers[w][i]), Towers[w][i])]]
RECURSIVE GiantStep(_, _, _, _, _)
GiantStep(x, k, tab, giant, p) == IF x \in DOMAIN tab THEN k * Steps + tab[x]
                                  ELSE GiantStep((x * giant) % p, k + 1, tab, giant, p)
DLog(x, w, i) == GiantStep(x, 0, Babies[w][i], Giants[w][i], Towers[w][i])

\* the tuple of F(level); a tuple, because TLC evaluates functions anew at every application
Each(n, F(_)) == IF n = 4 THEN <<F(1), F(2), F(3), F(4)>> ELSE <<F(1), F(2), F(3)>>

(* A value is a sequence of <<r, pc>>, one for each level:                  *)
(*   r   residue, -1 when it is not known                                   *)
(*   pc  1: a square, and so are the parts the power laws act on            *)
(*       -1: the same up to explicit signs, and negative; 0: neither        *)
TUnk == <<-1, 0>>
SignOf(n) == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1
RECURSIVE Strip(_, _, _)              \* m without the primes qs[k..]
Strip(m, qs, k) == IF m = 1 \/ k > Len(qs) THEN m
                   ELSE IF m % qs[k] = 0 THEN Strip(m \div qs[k], qs, k) ELSE Strip(m, qs, k + 1)
\* a product of primes that are squares?
Fine(m, w, i) == LET s == Strip(m, SquarePrimes[w][i], 1)
                 IN s = 1 \/ (s < 3481 /\ (\A q \in {2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53} : s % q # 0 \/ s = q)
                              /\ SquareM(s % Towers[w][i], Towers[w][i]))
TInt(n, w) == Each(Len(Towers[w]), LAMBDA i :
                 <<n % Towers[w][i],
                   IF n = 0 \/ i = Len(Towers[w]) THEN 0
                   ELSE IF Fine(IF n < 0 THEN -n ELSE n, w, i) THEN SignOf(n) ELSE 0>>)

\* integers beyond the machine's, as decimal limbs
RECURSIVE LimbsM(_, _, _, _)
LimbsM(ls, k, acc, p) == IF k > Len(ls) THEN acc ELSE LimbsM(ls, k + 1, (acc * 10000 + ls[k]) % p, p)
RECURSIVE DivLimbs(_, _, _, _)        \* quotient by a small q
DivLimbs(ls, q, k, rem) == IF k > Len(ls) THEN <<>>
                           ELSE LET x == rem * 10000 + ls[k]
                                IN <<x \div q>> \o DivLimbs(ls, q, k + 1, x % q)
RECURSIVE DropZeros(_)
DropZeros(ls) == IF ls # <<>> /\ ls[1] = 0 THEN DropZeros(Tail(ls)) ELSE ls
RECURSIVE StripLimbs(_, _)            \* without the primes 2, 3 and 5, 7 as far as they are squares
StripLimbs(ls, qs) == IF Len(ls) = 1 \/ qs = <<>> THEN ls
                      ELSE IF LimbsM(ls, 1, 0, qs[1]) = 0 THEN StripLimbs(DropZeros(DivLimbs(ls, qs[1], 1, 0)), qs)
                      ELSE StripLimbs(ls, Tail(qs))
TBig(s, ls, w) ==
    LET small == IF Len(ls) > 12 THEN ls ELSE StripLimbs(ls, IF w = 1 THEN <<2, 3, 5>> ELSE <<2, 3, 7>>)
    IN Each(Len(Towers[w]), LAMBDA i :
          LET p == Towers[w][i]
              r == LimbsM(ls, 1, 0, p)
          IN <<IF s = 1 THEN r ELSE (p - r) % p,
               IF i < Len(Towers[w]) /\ Len(small) = 1 /\ Fine(small[1], w, i) THEN s ELSE 0>>)

TAdd(x, y, w) == Each(Len(x), LAMBDA i :
    IF x[i][1] < 0 \/ y[i][1] < 0 THEN TUnk
    ELSE LET p == Towers[w][i]
             r == (x[i][1] + y[i][1]) % p
         IN <<r, IF x[i][2] # 0 /\ y[i][2] # 0 /\ x[i][2] + y[i][2] >= 0 /\ i < Len(x) /\ SquareM(r, p) THEN 1 ELSE 0>>)
TMul(x, y, w) == Each(Len(x), LAMBDA i :
    IF x[i][1] < 0 \/ y[i][1] < 0 THEN TUnk
    ELSE <<(x[i][1] * y[i][1]) % Towers[w][i], x[i][2] * y[i][2]>>)
TInv(x, w) == Each(Len(x), LAMBDA i : IF x[i][1] <= 0 THEN TUnk ELSE <<InvM(x[i][1], Towers[w][i]), x[i][2]>>)
\* exponent is the literal with absolute value m modulo p[i]-1 in em[i]
TPowLit(x, neg, odd, em, w) == Each(Len(x), LAMBDA i :
    IF x[i][1] < 0 THEN TUnk
    ELSE IF x[i][1] = 0 THEN (IF neg THEN TUnk ELSE <<0, 0>>)
    ELSE LET p == Towers[w][i]
         IN <<PowM(x[i][1], IF neg THEN (p - 1 - em[i]) % (p - 1) ELSE em[i], p),
              IF x[i][2] = -1 /\ ~odd THEN 1 ELSE x[i][2]>>)
TPow(x, t, e, w) ==                   \* t: the exponent's term, e: its value
    IF t = <<"I", 0>> THEN Each(Len(x), LAMBDA i : IF x[i][1] <= 0 THEN TUnk ELSE <<1, 1>>)
    ELSE IF t[1] = "I" THEN LET m == IF t[2] < 0 THEN -t[2] ELSE t[2]
                       IN TPowLit(x, t[2] < 0, m % 2 = 1, Each(Len(x), LAMBDA i : m % (Towers[w][i] - 1)), w)
    ELSE IF t[1] = "J" THEN TPowLit(x, t[2] < 0, t[3][Len(t[3])] % 2 = 1,
                                    Each(Len(x), LAMBDA i : LimbsM(t[3], 1, 0, Towers[w][i] - 1)), w)
    ELSE Each(Len(x), LAMBDA i :
            IF i = Len(x) THEN TUnk
            ELSE IF x[i][1] < 0 \/ x[i][2] # 1 \/ e[i + 1][1] < 0 THEN TUnk
            ELSE <<PowM(x[i][1], e[i + 1][1], Towers[w][i]), 1>>)
TLog(x, b, w) == Each(Len(x), LAMBDA i :
    IF i = 1 THEN TUnk
    ELSE IF x[i - 1][1] < 0 \/ b[i - 1][1] < 0 \/ x[i - 1][2] # 1 \/ b[i - 1][2] # 1 \/ b[i - 1][1] = 1 THEN TUnk
    ELSE LET p == Towers[w][i]
             r == (DLog(x[i - 1][1], w, i - 1) * InvM(DLog(b[i - 1][1], w, i - 1), p)) % p
         IN <<r, IF i < Len(x) /\ SquareM(r, p) THEN 1 ELSE 0>>)
TTrig(op, x, w) == Each(Len(x), LAMBDA i :
    IF x[i][1] < 0 THEN TUnk
    ELSE LET r == x[i][1] % 10000  s == (r * r) % Towers[w][i]
         IN <<(IF op = "sin" THEN 7 * s + 3 * x[i][1] + 11 ELSE 5 * s + 13 * x[i][1] + 29) % Towers[w][i], 0>>)

(* Every label has its own squares as values.                               *)
Labels == <<"a", "b", "c", "d", "x", "y", "z", "x1", "x2", "xy", "ab", "A", "B", "theta", "n", "k",
            "", "pow", "a b", "(a + b)", "1", "log", "aa", "aB", "(a * b)", "pow(x, 2)">>
VarAt(j, w) == Each(Len(Towers[w]), LAMBDA i : <<PowM(4, (j * j * 97 + j * 1009 + i * 331 + w * 577) % Towers[w][i], Towers[w][i]), 1>>)
TEnv == [w \in 1..2 |-> [l \in {Labels[j] : j \in 1..Len(Labels)} |-> VarAt(CHOOSE j \in 1..Len(Labels) : Labels[j] = l, w)]]
Other == [w \in 1..2 |-> VarAt(40, w)]

TReal(n, e, w) ==                     \* moderate floats only, as in Sem
    IF n >= 1048576 \/ n <= -1048576 \/ e > 10 \/ e < -10 THEN Each(Len(Towers[w]), LAMBDA i : TUnk)
    ELSE IF e >= 0 THEN TInt(n * PowM(2, e, 2000000), w)
    ELSE TMul(TInt(n, w), TInv(TInt(PowM(2, -e, 2000000), w), w), w)
TNone(w) == Each(Len(Towers[w]), LAMBDA i : TUnk)

RECURSIVE TEval(_, _)
RECURSIVE TSum(_, _, _, _)
RECURSIVE TProd(_, _, _, _)
\* over ts[i..n]; in halves when there are many, which keeps TLC's recursion shallow
TSum(ts, i, n, w) == IF i = n THEN TEval(ts[i], w)
                     ELSE LET m == IF n - i < 6 THEN n - 1 ELSE (i + n) \div 2
                          IN TAdd(TSum(ts, i, m, w), TSum(ts, m + 1, n, w), w)
TProd(ts, i, n, w) == IF i = n THEN TEval(ts[i], w)
                      ELSE LET m == (i + n) \div 2
                           IN TMul(TProd(ts, i, m, w), TProd(ts, m + 1, n, w), w)
TEval(t, w) ==
    CASE t[1] = "V" -> (IF t[2] \in DOMAIN TEnv[w] THEN TEnv[w][t[2]] ELSE Other[w])
      [] t[1] = "I" -> TInt(t[2], w)
      [] t[1] = "R" -> TReal(t[2], t[3], w)
      [] t[1] = "+" -> IF t[2] = <<>> THEN TInt(0, w) ELSE TSum(t[2], 1, Len(t[2]), w)
      [] t[1] = "*" -> IF t[2] = <<>> THEN TInt(1, w) ELSE TProd(t[2], 1, Len(t[2]), w)
      [] t[1] = "^" -> TPow(TEval(t[2], w), t[3], TEval(t[3], w), w)
      [] t[1] = "L" -> TLog(TEval(t[2], w), TEval(t[3], w), w)
      [] t[1] = "J" -> TBig(t[2], t[3], w)
      [] t[1] \in {"sin", "cos"} -> TTrig(t[1], TEval(t[2], w), w)
      [] OTHER -> TNone(w)
TEvalAll(t) == <<TEval(t, 1), TEval(t, 2)>>

TAgree(e, g) == \A i \in 1..Len(e) : e[i][1] < 0 \/ g[i][1] < 0 \/ e[i][1] = g[i][1]
TAgreeAll(es, gs) == \A w \in 1..2 : TAgree(es[w], gs[w])
TKnown(vs) == \E w \in 1..2 : \E i \in 1..Len(vs[w]) : vs[w][i][1] >= 0
=============================================================================

------------------------------- MODULE Kernel -------------------------------
(* The operations of ncas as functions on terms, transcribed case by case   *)
(* from the code: construction (arithmetics/, exponential/), expansion,     *)
(* simplification and its rules (manipulation/), order and comparison.      *)
(* Unknown stands for a result that is not predicted (inexact floats,       *)
(* quotients of big integers); operations on it are not predicted either.   *)
EXTENDS Props

Unknown == <<"?">>
Unk(t) == t = Unknown
AnyUnk(ts) == \E i \in 1..Len(ts) : Unk(ts[i])
I0 == IntLit(0)
I1 == IntLit(1)
IM1 == IntLit(-1)

(* --------------------------------------------------------------- integers *)
MaxI == 1073741824          \* wire integers below are <<"I", n>>
BToW(b) ==
    LET l == b[2]
        n == IF Len(l) = 0 THEN 0 ELSE IF Len(l) = 1 THEN l[1] ELSE IF Len(l) = 2 THEN l[1] + BB * l[2]
             ELSE l[1] + BB * l[2] + 100000000 * l[3]
    IN IF Len(l) < 3 \/ (Len(l) = 3 /\ l[3] <= 10 /\ n < MaxI) THEN <<"I", b[1] * n>>
       ELSE <<"J", b[1], Rev(l)>>
ISgn(x) == IF x[1] = "I" THEN Sgn(x[2]) ELSE x[2]
INeg(x) == IF x[1] = "I" THEN <<"I", -x[2]>> ELSE <<"J", -x[2], x[3]>>
IAdd(x, y) == IF x[1] = "I" /\ y[1] = "I" /\ Abs(x[2]) < MaxI \div 2 /\ Abs(y[2]) < MaxI \div 2
              THEN <<"I", x[2] + y[2]>> ELSE BToW(BAdd(BOf(x), BOf(y)))
IMul(x, y) == IF x[1] = "I" /\ y[1] = "I" /\ Abs(x[2]) < 32768 /\ Abs(y[2]) < 32768
              THEN <<"I", x[2] * y[2]>> ELSE BToW(BMul(BOf(x), BOf(y)))
ICmp(x, y) == IF x[1] = "I" /\ y[1] = "I" THEN Sgn(x[2] - y[2]) ELSE BCmp(BOf(x), BOf(y))
\* only the divisions and powers of small integers are predicted
IGcd(x, y) == IF x[1] = "I" /\ y[1] = "I" THEN <<"I", Gcd(Abs(x[2]), Abs(y[2]))>> ELSE Unknown
TruncDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
IDiv(x, y) == IF x[1] = "I" /\ y[1] = "I" THEN <<"I", TruncDiv(x[2], y[2])>> ELSE Unknown
IPow(x, k) == IF k[1] = "I" /\ k[2] <= 200 THEN BToW(BPow(BOf(x), k[2])) ELSE Unknown

(* ----------------------------------------------------------------- floats *)
\* m * 2^e with m odd; sums, products and powers that are exact and small are predicted
RECURSIVE Odd(_, _)
Odd(m, e) == IF m = 0 THEN <<"R", 0, 0>> ELSE IF m % 2 = 1 THEN <<"R", m, e>> ELSE Odd(m \div 2, e + 1)
RSgn(x) == IF x[1] = "R" THEN Sgn(x[2]) ELSE IF x[1] = "S" THEN x[2] ELSE 2
RNeg(x) == IF x[1] = "R" /\ x[2] # 0 THEN <<"R", -x[2], x[3]>> ELSE IF x[1] = "S" THEN <<"S", -x[2], x[3], x[4]>> ELSE Unknown
RIn(x) == x[1] = "R" /\ Abs(x[2]) < 16384 /\ x[3] < 14 /\ x[3] > -14
TwoTo(k) == 2 ^ k
RAdd(x, y) ==
    IF Unk(x) \/ Unk(y) THEN Unknown
    ELSE IF x[1] = "R" /\ x[2] = 0 THEN y
    ELSE IF ~RIn(x) \/ ~RIn(y) \/ Abs(x[3] - y[3]) > 14 THEN Unknown
    ELSE IF x[3] >= y[3] THEN Odd(x[2] * TwoTo(x[3] - y[3]) + y[2], y[3])
    ELSE Odd(x[2] + y[2] * TwoTo(y[3] - x[3]), x[3])
RMul(x, y) == IF Unk(x) \/ Unk(y) THEN Unknown
              ELSE IF x = <<"R", 1, 0>> THEN y ELSE IF y = <<"R", 1, 0>> THEN x
              ELSE IF ~RIn(x) \/ ~RIn(y) THEN Unknown
              ELSE Odd(x[2] * y[2], x[3] + y[3])
RECURSIVE RPowN(_, _)
RPowN(x, k) == IF k = 0 THEN <<"R", 1, 0>> ELSE RMul(x, RPowN(x, k - 1))
\* literal to a literal power as floats
RPow(x, k) ==
    LET n == IF k[1] = "I" THEN k[2] ELSE IF RIn(k) /\ k[3] >= 0 THEN k[2] * TwoTo(k[3]) ELSE 1000
        y == IF x[1] = "I" /\ Abs(x[2]) < 16384 THEN Odd(x[2], 0) ELSE x
    IN IF k[1] \notin {"I", "R"} \/ Abs(n) > 12 \/ y[1] # "R" THEN Unknown
       ELSE IF n >= 0 THEN RPowN(y, n)
       ELSE IF Abs(y[2]) = 1 THEN RPowN(<<"R", y[2], -y[3]>>, -n) ELSE Unknown

(* ------------------------------------------------------------ total order *)
Id(t) == CASE IsReal(t) -> 1010 [] IsInt(t) -> 1020 [] t[1] = "V" -> 1030 [] t[1] = "^" -> 2010
           [] t[1] = "L" -> 3010 [] t[1] = "sin" -> 4010 [] t[1] = "cos" -> 4020 [] t[1] = "*" -> 6010
           [] OTHER -> 6020
Labels == <<"A", "B", "a", "ab", "b", "c", "d", "k", "n", "theta", "x", "x1", "x2", "xy", "y", "z">>
Rank(l) == IF \E i \in 1..Len(Labels) : Labels[i] = l THEN CHOOSE i \in 1..Len(Labels) : Labels[i] = l ELSE 0
RCmp(x, y) == IF x[1] = "X" \/ y[1] = "X"
              THEN LET v(t) == IF t[1] = "X" THEN (IF t[2] = "inf" THEN 2 ELSE -2) ELSE RSgn(t) IN Sgn(v(x) - v(y))
              ELSE DCmp(DOfW(x), DOfW(y))
RECURSIVE Cmp(_, _)
RECURSIVE CmpItems(_, _, _)
CmpItems(s, u, i) == IF i > Len(s) THEN 0
                     ELSE LET c == Cmp(s[i], u[i]) IN IF c # 0 THEN c ELSE CmpItems(s, u, i + 1)
Cmp(s, u) ==
    IF Id(s) # Id(u) THEN Sgn(Id(s) - Id(u))
    ELSE CASE IsReal(s) -> RCmp(s, u)
           [] IsInt(s) -> ICmp(s, u)
           [] s[1] = "V" -> Sgn(Rank(s[2]) - Rank(u[2]))
           [] s[1] \in {"^", "L"} -> LET c == Cmp(s[2], u[2]) IN IF c # 0 THEN c ELSE Cmp(s[3], u[3])
           [] s[1] \in {"sin", "cos"} -> Cmp(s[2], u[2])
           [] OTHER -> IF Len(s[2]) # Len(u[2]) THEN Sgn(Len(s[2]) - Len(u[2])) ELSE CmpItems(s[2], u[2], 1)
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>>
                ELSE IF Cmp(x, s[1]) <= 0 THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], Sorted(Tail(s)))

(* ----------------------------------------------------------- construction *)
Pick(s, Is(_)) == SelectSeq(s, Is)
Drop(s, Is(_)) == SelectSeq(s, LAMBDA t : ~Is(t))
FirstOf(s, Is(_)) == SelectSeq(s, Is)      \* <<>> when there is none
RECURSIVE FlatAll(_, _)
FlatAll(ts, op) == IF ts = <<>> THEN <<>>
                   ELSE (IF ts[1][1] = op THEN FlatAll(ts[1][2], op) ELSE <<ts[1]>>) \o FlatAll(Tail(ts), op)
RECURSIVE FoldInt(_, _, _, _)
FoldInt(f(_, _), s, i, acc) == IF i > Len(s) THEN acc ELSE FoldInt(f, s, i + 1, f(acc, s[i]))
RZero(t) == t[1] = "R" /\ t[2] = 0
RRealOne(t) == t = <<"R", 1, 0>>
Assoc(op, operands, none) ==
    LET items == TLCEval(operands) IN
    IF items = <<>> THEN none ELSE IF Len(items) = 1 THEN items[1] ELSE <<op, Sorted(items)>>

KMul(operands) ==
  LET ts == TLCEval(operands) IN
    IF AnyUnk(ts) THEN Unknown
    ELSE LET fs == TLCEval(FlatAll(ts, "*"))
             reals == Pick(fs, IsReal)
             mags == TLCEval([i \in 1..Len(reals) |-> IF RSgn(reals[i]) = -1 THEN RNeg(reals[i]) ELSE reals[i]])
             negs == CountIf(reals, LAMBDA t : RSgn(t) = -1)
             int0 == FoldInt(IMul, Pick(fs, IsInt), 1, I1)
             int == IF negs % 2 = 1 THEN INeg(int0) ELSE int0
             real == FoldInt(RMul, mags, 1, <<"R", 1, 0>>)
             others == Drop(fs, IsLit)
         IN IF \E i \in 1..Len(fs) : IsZero(fs[i]) THEN I0
            ELSE IF Unk(real) THEN Unknown
            ELSE Assoc("*", others \o (IF int = I1 THEN <<>> ELSE <<int>>)
                                   \o (IF RRealOne(real) THEN <<>> ELSE <<real>>), I1)

KAdd(operands) ==
  LET ts == TLCEval(operands) IN
    IF AnyUnk(ts) THEN Unknown
    ELSE LET as == TLCEval(FlatAll(ts, "+"))
             real == FoldInt(RAdd, Pick(as, IsReal), 1, <<"R", 0, 0>>)
             int0 == FoldInt(IAdd, Pick(as, IsInt), 1, I0)
             neg == IF Unk(real) \/ RSgn(real) # -1 THEN <<>> ELSE <<KMul(<<IM1, RNeg(real)>>)>>
             int == IF neg # <<>> /\ IsInt(neg[1]) THEN IAdd(int0, neg[1]) ELSE int0
             float == IF neg # <<>> THEN (IF IsInt(neg[1]) THEN <<>> ELSE neg)
                      ELSE IF RZero(real) THEN <<>> ELSE <<real>>
         IN IF Unk(real) THEN Unknown
            ELSE Assoc("+", Drop(as, IsLit) \o float \o (IF int = I0 THEN <<>> ELSE <<int>>), I0)

KNeg(t) == KMul(<<IM1, t>>)
KSub(x, y) ==
    IF Unk(x) \/ Unk(y) THEN Unknown
    ELSE LET as == (IF IsZero(x) THEN <<>> ELSE <<x>>) \o (IF IsZero(y) THEN <<>> ELSE <<KNeg(y)>>)
         IN IF as = <<>> THEN I0 ELSE IF Len(as) = 1 THEN as[1] ELSE KAdd(as)

RECURSIVE KPow(_, _)
KPow(b, e) ==
    LET facs == IF b[1] = "*" THEN b[2] ELSE <<>>
        nums == Pick(facs, IsLit)
        efs == IF e[1] = "*" THEN e[2] ELSE <<>>
        ereal == FirstOf(efs, IsReal)
        eint == FirstOf(efs, IsInt)
        enonneg == FirstOf(efs, LAMBDA t : IsInt(t) /\ ISgn(t) # -1)
    IN IF Unk(b) \/ Unk(e) THEN Unknown
       ELSE IF IsZero(b) \/ IsOne(b) THEN b
       ELSE IF IsOne(e) THEN b
       ELSE IF IsZero(e) THEN I1
       ELSE IF b[1] = "^" THEN KPow(b[2], KMul(<<b[3], e>>))
       ELSE IF nums # <<>>
            THEN KMul([i \in 1..Len(nums) |-> KPow(nums[i], e)] \o <<KPow(KMul(Drop(facs, IsLit)), e)>>)
       ELSE IF e[1] = "L" /\ b = e[3] THEN e[2]
       ELSE IF IsInt(b)
            THEN IF IsInt(e)
                 THEN IF ISgn(e) = -1
                      THEN IF b = IM1 THEN IPow(b, INeg(e))
                           ELSE LET p == IPow(b, INeg(e)) IN IF Unk(p) THEN p ELSE <<"^", p, IM1>>
                      ELSE IPow(b, e)
                 ELSE IF IsReal(e) THEN RPow(b, e)
                 ELSE IF ereal # <<>> THEN KPow(KPow(b, ereal[1]), KMul(Drop(efs, IsReal)))
                 ELSE IF enonneg # <<>> THEN KPow(KPow(b, enonneg[1]), KMul(Drop(efs, IsInt)))
                 ELSE <<"^", b, e>>
       ELSE IF IsReal(b)
            THEN IF IsLit(e) THEN RPow(b, e)
                 ELSE IF ereal # <<>> THEN KPow(KPow(b, ereal[1]), KMul(Drop(efs, IsReal)))
                 ELSE IF eint # <<>> THEN KPow(KPow(b, eint[1]), KMul(Drop(efs, IsInt)))
                 ELSE <<"^", b, e>>
       ELSE <<"^", b, e>>
KInv(t) == KPow(t, IM1)

RECURSIVE KDiv(_, _)
KDiv(x, y) ==
    IF Unk(x) \/ Unk(y) THEN Unknown
    ELSE IF IsInt(y)
    THEN IF y = I1 THEN x
         ELSE IF y = IM1 THEN KMul(<<x, IM1>>)
         ELSE IF IsInt(x)
              THEN LET g == IGcd(x, y)
                   IN IF Unk(g) THEN Unknown
                      ELSE IF y = g THEN IDiv(x, g)
                      ELSE IF x = g THEN KInv(IDiv(y, x))
                      ELSE KMul(<<IDiv(x, g), KInv(IDiv(y, g))>>)
         ELSE IF x[1] = "*"
              THEN LET n == FirstOf(x[2], IsInt)
                   IN IF n # <<>> THEN KMul(Append(Drop(x[2], IsInt), KDiv(n[1], y)))
                      ELSE KMul(Append(x[2], KInv(y)))
         ELSE KMul(<<x, KInv(y)>>)
    ELSE IF IsReal(y)
    THEN IF RRealOne(y) THEN x
         ELSE IF y = <<"R", -1, 0>> THEN KMul(<<x, y>>)
         ELSE IF IsReal(x)
              THEN IF y[1] = "R" /\ Abs(y[2]) = 1 /\ x[1] = "R" THEN RMul(x, <<"R", y[2], -y[3]>>) ELSE Unknown
         ELSE IF x[1] = "*"
              THEN LET n == FirstOf(x[2], IsReal)
                   IN IF n # <<>> THEN KMul(Append(Drop(x[2], IsReal), KDiv(n[1], y)))
                      ELSE KMul(Append(x[2], KInv(y)))
         ELSE KMul(<<x, KInv(y)>>)
    ELSE KMul(<<x, KInv(y)>>)

\* integer logarithms that the library's float arithmetic finds, as it is exact there
RECURSIVE LogOf(_, _, _)
LogOf(n, b, k) == IF n = 1 THEN k ELSE IF n % b # 0 THEN -1 ELSE LogOf(n \div b, b, k + 1)
KLog(x, b) ==
    IF Unk(x) \/ Unk(b) THEN Unknown
    ELSE IF x[1] = "^" /\ b = x[2] THEN x[3]
    ELSE IF IsInt(x) /\ IsInt(b)
         THEN IF x[1] = "J" \/ b[1] = "J" \/ x[2] < 1 \/ b[2] < 2 THEN Unknown
              ELSE LET k == LogOf(x[2], b[2], 0)
                   IN IF k < 0 THEN <<"L", x, b>>
                      ELSE IF k <= 1 \/ (b[2] <= 4 /\ k <= 4) THEN IntLit(k) ELSE Unknown
    ELSE IF IsReal(x) /\ IsReal(b) THEN Unknown
    ELSE <<"L", x, b>>

(* -------------------------------------------------------------- expansion *)
Spread(s, u) ==       \* all products of an element of s with one of u
    [k \in 1..(Len(s) * Len(u)) |-> KMul(<<s[1 + ((k - 1) \div Len(u))], u[1 + ((k - 1) % Len(u))]>>)]
Distribute2(l, r) == IF Unk(l) \/ Unk(r) THEN Unknown
                     ELSE IF l[1] = "+" \/ r[1] = "+" THEN KAdd(Spread(Addends(l), Addends(r))) ELSE KMul(<<l, r>>)
RECURSIVE DistFold(_, _, _)
DistFold(sums, i, acc) == IF i > Len(sums) THEN acc ELSE DistFold(sums, i + 1, Distribute2(acc, sums[i]))
IsSum(t) == t[1] = "+"
KDistribute(t) == IF t[1] = "*" THEN DistFold(Pick(t[2], IsSum), 1, KMul(Drop(t[2], IsSum))) ELSE t

RECURSIVE KPowSum(_)
KPowSum(t) ==
    IF t[1] # "^" THEN t
    ELSE IF t[2][1] # "+" THEN t
    ELSE IF IsInt(t[3])
         THEN IF t[3][1] = "J" THEN Unknown
              ELSE LET k == Abs(t[3][2])
                       p == IF k > 12 THEN Unknown ELSE KDistribute(KMul([i \in 1..k |-> t[2]]))
                   IN IF t[3][2] > 0 THEN p ELSE KInv(p)
    ELSE IF t[3][1] = "*" /\ Pick(t[3][2], IsInt) # <<>>
         THEN KPow(KPowSum(KPow(t[2], Pick(t[3][2], IsInt)[1])), KMul(Drop(t[3][2], IsInt)))
    ELSE t
KPowProd(t) == IF t[1] = "^" /\ t[2][1] = "*"
               THEN KMul([i \in 1..Len(t[2][2]) |-> KPow(t[2][2][i], t[3])]) ELSE t

RECURSIVE KExpand(_)
KExpand(t) ==
    CASE Unk(t) -> Unknown
      [] t[1] = "*" -> KDistribute(KMul([i \in 1..Len(t[2]) |-> KExpand(t[2][i])]))
      [] t[1] = "+" -> KAdd([i \in 1..Len(t[2]) |-> KExpand(t[2][i])])
      [] t[1] = "^" -> LET x == KPow(KExpand(t[2]), KExpand(t[3]))
                       IN IF x[1] = "^" /\ x[2][1] = "*" /\ IsInt(x[3]) THEN KExpand(KPowProd(x))
                          ELSE IF x[1] = "*" THEN KExpand(x)
                          ELSE KPowSum(x)
      [] t[1] = "L" -> KLog(KExpand(t[2]), KExpand(t[3]))
      [] OTHER -> t

(* --------------------------------------------------------- simplification *)
\* an association from terms to terms, as a sequence of pairs
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Get(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]
Put(m, k, v) == TLCEval([i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]])

CountAddend(m, t, n) == IF Has(m, t) THEN Put(m, t, IAdd(Get(m, t), n))
                        ELSE IF Has(m, KNeg(t)) THEN Put(m, KNeg(t), IAdd(Get(m, KNeg(t)), INeg(n)))
                        ELSE Append(m, <<t, n>>)
RECURSIVE CountAddends(_, _, _)
CountAddends(as, i, m) ==
    IF i > Len(as) THEN m
    ELSE LET t == as[i]
             n == IF t[1] = "*" THEN Pick(t[2], IsInt) ELSE <<>>
         IN CountAddends(as, i + 1, IF n # <<>> THEN CountAddend(m, KMul(Drop(t[2], IsInt)), n[1]) ELSE CountAddend(m, t, I1))
KAddends(t) ==
    IF t[1] # "+" THEN t
    ELSE LET m == SelectSeq(CountAddends(t[2], 1, <<>>), LAMBDA p : p[2] # I0)
         IN KAdd([i \in 1..Len(m) |-> KMul(<<m[i][2], m[i][1]>>)])

KFraction(q) == KDiv(q[1], q[2])                   \* a rational <<numerator, denominator>>
Reduce(n, d) == IF n = I0 THEN <<I0, I1>>
                ELSE LET g == IGcd(n, d) IN IF Unk(g) THEN <<Unknown, Unknown>> ELSE <<IDiv(n, g), IDiv(d, g)>>
QOf(t) == IF IsInt(t) THEN Reduce(t, I1)
          ELSE IF t[1] = "^" THEN (IF t[3] = IM1 THEN Reduce(I1, t[2]) ELSE <<Unknown, Unknown>>)
          ELSE LET ds == Pick(t[2], IsPowInt)
               IN Reduce(FoldInt(IMul, Pick(t[2], IsInt), 1, I1),
                         FoldInt(IMul, [i \in 1..Len(ds) |-> ds[i][2]], 1, I1))
QUnk(p) == Unk(p[1]) \/ Unk(p[2])
QAdd(p, q) == IF QUnk(p) \/ QUnk(q) THEN <<Unknown, Unknown>>
              ELSE Reduce(IAdd(IMul(p[1], q[2]), IMul(q[1], p[2])), IMul(p[2], q[2]))
QMul(p, q) == IF QUnk(p) \/ QUnk(q) THEN <<Unknown, Unknown>> ELSE Reduce(IMul(p[1], q[1]), IMul(p[2], q[2]))
KRatAdd(t) ==
    IF t[1] # "+" THEN t
    ELSE LET rs == Pick(t[2], IsRationalItem)
         IN KAdd(<<KFraction(FoldInt(QAdd, [i \in 1..Len(rs) |-> QOf(rs[i])], 1, <<I0, I1>>)),
                   KAdd(Drop(t[2], IsRationalItem))>>)
KRatMul(t) ==
    IF t[1] # "*" THEN t
    ELSE LET rs == Pick(t[2], IsRationalItem)
         IN KMul(<<KFraction(FoldInt(QMul, [i \in 1..Len(rs) |-> QOf(rs[i])], 1, <<I1, I1>>)),
                   KMul(Drop(t[2], IsRationalItem))>>)

Lost == <<<<Unknown, Unknown>>>>        \* an association that is not predicted
IsLost(m) == Len(m) = 1 /\ Unk(m[1][1])
RECURSIVE KSimplify(_)
RECURSIVE KFactors(_)
RECURSIVE CountFactors(_, _, _)
CountFactors(fs, i, m) ==        \* m: pairs of base and exponent
    IF IsLost(m) \/ i > Len(fs) THEN m
    ELSE LET t == fs[i]
             base == IF t[1] = "^" THEN t[2] ELSE t
             exp == IF t[1] = "^" THEN t[3] ELSE I1
             inv == KDiv(I1, base)
             put(k, v) == CountFactors(fs, i + 1, IF Unk(v) THEN Lost ELSE Put(m, k, v))
         IN IF IsInt(t) THEN CountFactors(fs, i + 1, m)
            ELSE IF Has(m, base) THEN put(base, KSimplify(KAdd(<<Get(m, base), exp>>)))
            ELSE IF Has(m, inv) THEN put(inv, KSimplify(KSub(Get(m, inv), exp)))
            ELSE CountFactors(fs, i + 1, Append(m, <<base, exp>>))
KFactors(t) ==
    IF t[1] # "*" THEN t
    ELSE LET m == CountFactors(t[2], 1, <<>>)
         IN IF IsLost(m) THEN Unknown
            ELSE LET s == SelectSeq(m, LAMBDA p : ~IsZero(p[2]))
                     ps == TLCEval([i \in 1..Len(s) |-> KPow(s[i][1], s[i][2])])
                     \* a power may have become something else, like another factor
                     turned == \E i \in 1..Len(ps) : ~IsLit(ps[i]) /\ (ps[i][1] = "*" \/ ~Has(m, FactorBase(ps[i])))
                     p == KMul(ps \o Pick(t[2], IsInt))
                 IN IF Unk(p) THEN Unknown ELSE IF turned THEN KFactors(p) ELSE p
RECURSIVE KSimplifyOnce(_)
KSimplify(t) == LET s == KSimplifyOnce(t)
                    e == KExpand(s)
                IN IF Unk(s) \/ Unk(e) THEN Unknown ELSE IF SameTree(s, e) THEN s ELSE KSimplify(e)
KSimplifyOnce(t) ==
    LET x == KExpand(t)
    IN CASE Unk(x) -> Unknown
         [] x[1] = "*" -> LET y == KRatMul(KMul([i \in 1..Len(x[2]) |-> KSimplify(x[2][i])]))
                          IN IF Unk(y) THEN Unknown ELSE KFactors(y)
         [] x[1] = "+" -> LET y == KRatAdd(KAdd([i \in 1..Len(x[2]) |-> KSimplify(x[2][i])]))
                          IN IF Unk(y) THEN Unknown ELSE KAddends(y)
         [] x[1] = "^" -> KPow(KSimplify(x[2]), KSimplify(x[3]))
         [] x[1] = "L" -> KLog(KSimplify(x[2]), KSimplify(x[3]))
         [] OTHER -> x

(* ------------------------------------------------------------ other rules *)
NegIntFactor(t) == t[1] = "*" /\ \E i \in 1..Len(t[2]) : IsInt(t[2][i]) /\ ISgn(t[2][i]) = -1
InDenominator(t) == t[1] = "^" /\ ((IsInt(t[3]) /\ ISgn(t[3]) = -1) \/ NegIntFactor(t[3]))
NotInDenominator(t) == IF t[1] # "^" THEN TRUE
                       ELSE IF IsInt(t[3]) THEN ISgn(t[3]) = 1
                       ELSE IF t[3][1] = "*" THEN ~NegIntFactor(t[3])
                       ELSE TRUE
KDenominator(t) ==
    IF t[1] # "*" THEN t
    ELSE LET ds == Pick(t[2], InDenominator)
         IN KMul(Append(Pick(t[2], NotInDenominator),
                        KInv(KMul([i \in 1..Len(ds) |-> KPow(ds[i][2], KNeg(ds[i][3]))]))))
KInvPowLog(t) ==
    IF t[1] = "^" /\ t[3][1] = "L" /\ t[2] = t[3][3] THEN t[3][2]
    ELSE IF t[1] = "L" /\ t[2][1] = "^" /\ t[2][2] = t[3] THEN t[2][3]
    ELSE t

KOp(o, as) ==
    IF AnyUnk(as) THEN Unknown
    ELSE CASE o \in {"add", "sum", "acsum"} -> KAdd(as)
           [] o \in {"mul", "prod", "acprod"} -> KMul(as)
           [] o = "sub" -> KSub(as[1], as[2])
           [] o = "div" -> KDiv(as[1], as[2])
           [] o = "pow" -> KPow(as[1], as[2])
           [] o = "log" -> KLog(as[1], as[2])
           [] o = "neg" -> KNeg(as[1])
           [] o = "expand" -> KExpand(as[1])
           [] o = "simplify" -> KSimplify(as[1])
           [] o = "rule.addends" -> KAddends(as[1])
           [] o = "rule.factors" -> KFactors(as[1])
           [] o = "rule.ratadd" -> KRatAdd(as[1])
           [] o = "rule.ratmul" -> KRatMul(as[1])
           [] o = "rule.denominator" -> KDenominator(as[1])
           [] o = "rule.invpowlog" -> KInvPowLog(as[1])
           [] o = "rule.distribute" -> KDistribute(as[1])
           [] o = "rule.powsum" -> KPowSum(as[1])
           [] o = "rule.powprod" -> KPowProd(as[1])
           [] OTHER -> Unknown

(* ------------------------------------------------------------- comparison *)
RECURSIVE LitTree(_)
LitTree(t) == IsNumW(t) \/ (t[1] \in {"+", "*"} /\ \A i \in 1..Len(t[2]) : LitTree(t[2][i]))
RECURSIVE LitVal(_)
RECURSIVE LitSum(_, _)
RECURSIVE LitProd(_, _)
LitSum(ts, i) == IF i > Len(ts) THEN DZero ELSE DAdd(LitVal(ts[i]), LitSum(ts, i + 1))
LitProd(ts, i) == IF i > Len(ts) THEN DOne ELSE DMul(LitVal(ts[i]), LitProd(ts, i + 1))
LitVal(t) == IF t[1] = "+" THEN LitSum(t[2], 1) ELSE IF t[1] = "*" THEN LitProd(t[2], 1) ELSE DOfW(t)
\* sign of the simplified difference: 2 not comparable, 3 not predicted
KCompare(x, y) == LET d == KSimplify(KSub(x, y))
                  IN IF Unk(d) \/ d[1] = "X" THEN 3 ELSE IF LitTree(d) THEN LitVal(d)[1][1] ELSE 2
KSeven(c) == <<BoolI(c # 2), BoolI(c = 0), BoolI(c \in {-1, 1}), BoolI(c = 1), BoolI(c = -1), BoolI(c \in {0, 1}), BoolI(c \in {-1, 0})>>
=============================================================================

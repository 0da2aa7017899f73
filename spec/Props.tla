------------------------------- MODULE Props -------------------------------
(* The property predicates: over terms and values, independent of how the   *)
(* code computes them.  Terms are tagged tuples:                            *)
(*   <<"I",n>> <<"J",sign,limbs>>   integers      <<"V",label>>             *)
(*   <<"R",m,e>> <<"S",sign,limbs,e>>  floats m*2^e   <<"X",name>>  nan/inf *)
(*   <<"+",ts>> <<"*",ts>>  sums, products   <<"^",b,e>> <<"L",x,b>>        *)
(*   <<"sin",x>> <<"cos",x>>                                                *)
EXTENDS Sem, BigInt, FiniteSets, TLC

Op(t) == t[1]
IsInt(t) == t[1] \in {"I", "J"}
IsReal(t) == t[1] \in {"R", "S", "X"}
IsLit(t) == IsInt(t) \/ IsReal(t)
IsZero(t) == (t[1] = "I" \/ t[1] = "R") /\ t[2] = 0
IsOne(t) == t = <<"I", 1>> \/ t = <<"R", 1, 0>>
IntLit(n) == <<"I", n>>
IsN(t, n) == t = <<"I", n>>
Kids(t) == CASE t[1] \in {"+", "*"} -> t[2]
             [] t[1] \in {"^", "L"} -> <<t[2], t[3]>>
             [] t[1] \in {"sin", "cos"} -> <<t[2]>>
             [] OTHER -> <<>>
Range(s) == {s[i] : i \in 1..Len(s)}
CountIf(s, Is(_)) == Cardinality({i \in 1..Len(s) : Is(s[i])})
BoolI(x) == IF x THEN 1 ELSE 0

RECURSIVE HasReal(_)        \* is some subterm a float?
HasReal(t) == IsReal(t) \/ \E i \in 1..Len(Kids(t)) : HasReal(Kids(t)[i])
\* a float beyond the range the exact arithmetic of the checks covers
Wild(t) == (t[1] = "R" /\ (t[3] > 200 \/ t[3] < -200)) \/ (t[1] = "S" /\ (t[4] > 200 \/ t[4] < -200)) \/ t[1] = "X"
RECURSIVE HasWild(_)
HasWild(t) == Wild(t) \/ \E i \in 1..Len(Kids(t)) : HasWild(Kids(t)[i])

(* ------------------------------------------------------- equality of trees *)
RECURSIVE SameTree(_, _)
RECURSIVE Matching(_, _)
Matching(s, u) ==            \* equal as multisets (SameTree is an equivalence)
    IF s = <<>> THEN u = <<>>
    ELSE \E j \in 1..Len(u) :
            /\ SameTree(s[1], u[j])
            /\ (\A k \in 1..(j - 1) : ~SameTree(s[1], u[k]))
            /\ Matching(Tail(s), SubSeq(u, 1, j - 1) \o SubSeq(u, j + 1, Len(u)))
SameTree(s, u) ==
    IF s[1] # u[1] THEN FALSE
    ELSE CASE s[1] \in {"+", "*"} -> Len(s[2]) = Len(u[2]) /\ Matching(s[2], u[2])
           [] s[1] \in {"^", "L"} -> SameTree(s[2], u[2]) /\ SameTree(s[3], u[3])
           [] s[1] \in {"sin", "cos"} -> SameTree(s[2], u[2])
           [] s[1] = "R" -> s = u \/ (s[2] = 0 /\ u[2] = 0)
           [] OTHER -> s = u

(* ------------------------------------------------------------ normal form *)
\* the reasons why the node itself is not in normal form
NFNode(t) ==
    CASE t[1] = "+" ->
         (IF Len(t[2]) < 2 THEN {"sum of less than two"} ELSE {})
         \cup (IF \E i \in 1..Len(t[2]) : t[2][i][1] = "+" THEN {"sum in sum"} ELSE {})
         \cup (IF \E i \in 1..Len(t[2]) : IsZero(t[2][i]) THEN {"zero in sum"} ELSE {})
         \cup (IF CountIf(t[2], IsInt) > 1 THEN {"several integers in sum"} ELSE {})
         \cup (IF CountIf(t[2], IsReal) > 1 THEN {"several floats in sum"} ELSE {})
      [] t[1] = "*" ->
         (IF Len(t[2]) < 2 THEN {"product of less than two"} ELSE {})
         \cup (IF \E i \in 1..Len(t[2]) : t[2][i][1] = "*" THEN {"product in product"} ELSE {})
         \cup (IF \E i \in 1..Len(t[2]) : IsZero(t[2][i]) THEN {"zero in product"} ELSE {})
         \cup (IF \E i \in 1..Len(t[2]) : IsOne(t[2][i]) THEN {"one in product"} ELSE {})
         \cup (IF CountIf(t[2], IsInt) > 1 THEN {"several integers in product"} ELSE {})
         \cup (IF CountIf(t[2], IsReal) > 1 THEN {"several floats in product"} ELSE {})
      [] t[1] = "^" ->
         (IF IsZero(t[3]) \/ IsOne(t[3]) THEN {"exponent 0 or 1"} ELSE {})
         \cup (IF IsZero(t[2]) \/ IsOne(t[2]) THEN {"base 0 or 1"} ELSE {})
         \cup (IF t[2][1] = "^" THEN {"power of power"} ELSE {})
         \cup (IF t[2][1] = "*" /\ \E i \in 1..Len(t[2][2]) : IsLit(t[2][2][i])
               THEN {"numeric factor in base"} ELSE {})
         \cup (IF IsLit(t[2]) /\ IsLit(t[3]) /\ ~(IsInt(t[2]) /\ t[3] = IntLit(-1))
               THEN {"unfolded literal power"} ELSE {})
      [] OTHER -> {}
RECURSIVE NFBad(_)
NFBad(t) == NFNode(t) \cup UNION {NFBad(Kids(t)[i]) : i \in 1..Len(Kids(t))}

(* ---------------------------------------------------------- full expansion *)
PosIntLit(t, m) == (t[1] = "I" /\ t[2] >= m) \/ (t[1] = "J" /\ t[2] = 1)
RECURSIVE ExpBad(_)
ExpBad(t) ==
    CASE t[1] = "+" -> UNION {ExpBad(t[2][i]) : i \in 1..Len(t[2])}
      [] t[1] = "*" -> (IF \E i \in 1..Len(t[2]) : t[2][i][1] = "+" THEN {"sum under product"} ELSE {})
                       \cup UNION {ExpBad(t[2][i]) : i \in 1..Len(t[2])}
      [] t[1] = "^" -> (IF PosIntLit(t[3], 2) /\ t[2][1] = "+" /\ t[3][1] = "I" THEN {"power of sum"} ELSE {})
                       \cup ExpBad(t[2]) \cup ExpBad(t[3])
      [] t[1] = "L" -> ExpBad(t[2]) \cup ExpBad(t[3])
      [] OTHER -> {}

(* --------------------------------------------------- canonical polynomials *)
IsMonoFactor(t) == t[1] = "V" \/ (t[1] = "^" /\ t[2][1] = "V" /\ t[3][1] = "I" /\ t[3][2] >= 2)
MonoVar(t) == IF t[1] = "V" THEN t[2] ELSE t[2][2]
MonoExp(t) == IF t[1] = "V" THEN 1 ELSE t[3][2]
Factors(t) == IF t[1] = "*" THEN t[2] ELSE <<t>>
Addends(t) == IF t[1] = "+" THEN t[2] ELSE <<t>>
\* is t integer * distinct variable powers, in the form the library builds?
IsMonomial(t) ==
    LET fs == Factors(t)
        vs == SelectSeq(fs, IsMonoFactor)
        is == SelectSeq(fs, IsInt)
    IN /\ Len(vs) + Len(is) = Len(fs)
       /\ Len(is) <= 1
       /\ Len(fs) > 1 => \A i \in 1..Len(is) : ~IsOne(is[i])
       /\ \A i \in 1..Len(is) : ~IsZero(is[i])
       /\ \A i, j \in 1..Len(vs) : i # j => MonoVar(vs[i]) # MonoVar(vs[j])
MonoKey(t) == LET vs == SelectSeq(Factors(t), IsMonoFactor)
              IN {<<MonoVar(vs[i]), MonoExp(vs[i])>> : i \in 1..Len(vs)}
MonoCoef(t) == LET is == SelectSeq(Factors(t), IsInt) IN IF is = <<>> THEN IntLit(1) ELSE is[1]
IsCanonical(t) ==
    \/ t = IntLit(0)
    \/ LET as == Addends(t)
       IN /\ \A i \in 1..Len(as) : IsMonomial(as[i])
          /\ \A i, j \in 1..Len(as) : i # j => MonoKey(as[i]) # MonoKey(as[j])
PolyOf(t) == IF t = IntLit(0) THEN {}
             ELSE {<<MonoKey(Addends(t)[i]), MonoCoef(Addends(t)[i])>> : i \in 1..Len(Addends(t))}

RECURSIVE IsPoly(_)       \* is t visibly a polynomial with integer coefficients?
IsPoly(t) == CASE t[1] \in {"I", "J", "V"} -> TRUE
               [] t[1] \in {"+", "*"} -> \A i \in 1..Len(t[2]) : IsPoly(t[2][i])
               [] t[1] = "^" -> t[3][1] = "I" /\ t[3][2] >= 0 /\ IsPoly(t[2])
               [] OTHER -> FALSE

(* ------------------------------------------------------ rational constants *)
IsInvInt(t) == t[1] = "^" /\ IsInt(t[2]) /\ t[3] = IntLit(-1)
\* <<num, den>> as integer literals of a fraction in the library's form
IsFraction(t) == \/ IsInt(t)
                 \/ IsInvInt(t)
                 \/ t[1] = "*" /\ Len(t[2]) = 2 /\ CountIf(t[2], IsInt) = 1 /\ CountIf(t[2], IsInvInt) = 1
Num(t) == CASE IsInt(t) -> t
            [] IsInvInt(t) -> IntLit(1)
            [] OTHER -> SelectSeq(t[2], IsInt)[1]
Den(t) == CASE IsInt(t) -> IntLit(1)
            [] IsInvInt(t) -> t[2]
            [] OTHER -> SelectSeq(t[2], IsInvInt)[1][2]
\* products of integers and inverted integers
IsRatProduct(t) == \/ IsInt(t) \/ IsInvInt(t)
                   \/ t[1] = "*" /\ \A i \in 1..Len(t[2]) : IsInt(t[2][i]) \/ IsInvInt(t[2][i])
RECURSIVE BProdNum(_, _)
BProdNum(fs, i) == IF i > Len(fs) THEN BOne
                   ELSE BMul(IF IsInt(fs[i]) THEN BOf(fs[i]) ELSE BOne, BProdNum(fs, i + 1))
RECURSIVE BProdDen(_, _)
BProdDen(fs, i) == IF i > Len(fs) THEN BOne
                   ELSE BMul(IF IsInt(fs[i]) THEN BOne ELSE BOf(fs[i][2]), BProdDen(fs, i + 1))

(* -------------------------------------------------- like terms and factors *)
AddendKey(t) ==             \* what an addend is an integer multiple of
    IF IsInt(t) THEN IntLit(1)
    ELSE IF t[1] = "*" THEN LET rest == SelectSeq(t[2], LAMBDA f : ~IsInt(f))
                            IN IF Len(rest) = 1 THEN rest[1] ELSE IF rest = <<>> THEN IntLit(1) ELSE <<"*", rest>>
    ELSE t
FactorBase(t) == IF t[1] = "^" THEN t[2] ELSE t
CollectBad(t) ==
    CASE t[1] = "+" -> IF \E i, j \in 1..Len(t[2]) : i < j /\ SameTree(AddendKey(t[2][i]), AddendKey(t[2][j]))
                       THEN {"like addends"} ELSE {}
      [] t[1] = "*" -> IF \E i, j \in 1..Len(t[2]) : i < j /\ ~IsInt(t[2][i]) /\ ~IsInt(t[2][j])
                                                    /\ SameTree(FactorBase(t[2][i]), FactorBase(t[2][j]))
                       THEN {"like factors"} ELSE {}
      [] OTHER -> {}

(* -------------------------------------------------------------- total order *)
Rows(m) == 1..Len(m)
OrderBad(e, ts) ==
    (IF \E i \in Rows(e.cmp) : e.cmp[i][i] # 0 THEN {"not reflexive"} ELSE {})
    \cup (IF \E i, j \in Rows(e.cmp) : e.cmp[i][j] # -e.cmp[j][i] THEN {"not antisymmetric"} ELSE {})
    \cup (IF \E i, j, k \in Rows(e.cmp) : e.cmp[i][j] <= 0 /\ e.cmp[j][k] <= 0
                                       /\ (e.cmp[i][k] > 0 \/ (e.cmp[i][k] = 0 /\ (e.cmp[i][j] # 0 \/ e.cmp[j][k] # 0)))
          THEN {"not transitive"} ELSE {})
    \cup (IF \E i, j \in Rows(e.cmp) : e.pc[i][j] # e.cmp[i][j] THEN {"partial order differs"} ELSE {})
    \cup (IF \E i, j \in Rows(e.cmp) : e.lt[i][j] # BoolI(e.cmp[i][j] = -1) THEN {"operator differs from order"} ELSE {})
    \cup (IF \E i, j \in Rows(e.cmp) : (e.cmp[i][j] = 0) # (e.eq[i][j] = 1) THEN {"order and equality differ"} ELSE {})
    \cup (IF \E i, j \in Rows(e.cmp) : e.ne[i][j] # 1 - e.eq[i][j] THEN {"ne is not the negation of eq"} ELSE {})
    \cup (IF \E i, j \in Rows(e.cmp) : (e.eq[i][j] = 1) # SameTree(ts[i], ts[j]) THEN {"equality is not sameness of trees"} ELSE {})
    \cup (IF \E i, j \in Rows(e.cmp) : e.eq[i][j] = 1 /\ e.hs[i][j] # 1 THEN {"equal but hashed differently"} ELSE {})

(* ----------------------------------------------------- comparison predicates *)
\* p = <<comparable, equal, not_equal, greater, lesser, greater_equal, lesser_equal>>
PredShape(p) ==
    (IF p[2] + p[4] + p[5] > 1 THEN {"two of equal, greater, lesser"} ELSE {})
    \cup (IF p[3] = 1 /\ p[2] = 1 THEN {"equal and not equal"} ELSE {})
    \cup (IF p[6] # BoolI(p[4] = 1 \/ p[2] = 1) THEN {"greater_equal"} ELSE {})
    \cup (IF p[7] # BoolI(p[5] = 1 \/ p[2] = 1) THEN {"lesser_equal"} ELSE {})
\* d = value of x - y
PredSound(p, d) ==
    IF d[1] < 2 THEN {}
    ELSE (IF p[2] = 1 /\ d[2] # 0 THEN {"equal, but values differ"} ELSE {})
         \cup (IF p[3] = 1 /\ d[3] = 0 THEN {"not_equal, but values are equal"} ELSE {})
         \cup (IF p[4] = 1 /\ d[3] \in {0, -1} THEN {"greater, but value is not"} ELSE {})
         \cup (IF p[5] = 1 /\ d[3] \in {0, 1} THEN {"lesser, but value is not"} ELSE {})
         \cup (IF p[6] = 1 /\ d[3] = -1 THEN {"greater_equal, but value is not"} ELSE {})
         \cup (IF p[7] = 1 /\ d[3] = 1 THEN {"lesser_equal, but value is not"} ELSE {})

(* --------------------------------------------------------- operand queries *)
IsPowInt(t) == t[1] = "^" /\ IsInt(t[2]) /\ IsInt(t[3])
IsRationalItem(t) == \/ IsInt(t) \/ IsPowInt(t)
                     \/ t[1] = "*" /\ \A i \in 1..Len(t[2]) : IsInt(t[2][i]) \/ IsPowInt(t[2][i])
SymbolicItem(t) == ~IsLit(t) /\ ~IsPowInt(t)
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
First(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
QueryBad(e) ==
    LET it == e.items
        Sel(Is(_)) == SelectSeq(it, Is)
        want(got, exp, name) == IF got = exp THEN {} ELSE {name}
    IN (IF Matching(e.src, it) THEN {} ELSE {"items are not the operands"})
       \cup (IF \E i \in 1..Len(e.cs) : e.cs[i] > 0 THEN {"items are not sorted"} ELSE {})
       \cup want(e.reals, Sel(IsReal), "reals")
       \cup want(e.nums, Sel(IsInt), "rational numerators")
       \cup want(e.dens, MapSeq(Sel(IsPowInt), LAMBDA t : t[2]), "rational denominators")
       \cup want(e.rats, Sel(IsRationalItem), "rationals")
       \cup want(e.nonrats, Sel(LAMBDA t : ~IsRationalItem(t)), "non rationals")
       \cup want(e.syms, Sel(SymbolicItem), "symbolics")
       \cup want(e.gi, Sel(IsInt), "get integers")
       \cup want(e.gv, Sel(LAMBDA t : t[1] = "V"), "get variables")
       \cup want(e.gp, Sel(LAMBDA t : t[1] = "^"), "get powers")
       \cup want(e.gm, Sel(LAMBDA t : t[1] = "*"), "get products")
       \cup want(e.all, it, "get all")
       \cup want(e.none, <<>>, "get none")
       \cup want(e.oi, First(Sel(IsInt)), "get_one integer")
       \cup want(e.ov, First(Sel(LAMBDA t : t[1] = "V")), "get_one variable")
       \cup want(e.op, First(Sel(LAMBDA t : t[1] = "^")), "get_one power")
       \cup want(e.map, MapSeq(it, LAMBDA t : <<"sin", t>>), "map")

(* ------------------------------------------------------------ printed form *)
RECURSIVE Show(_, _)
RECURSIVE ShowJoin(_, _, _, _)
ShowJoin(ts, i, sep, tab) == IF i > Len(ts) THEN ""
                             ELSE sep \o Show(ts[i], tab) \o ShowJoin(ts, i + 1, sep, tab)
ShowReal(t, tab) == IF \E i \in 1..Len(tab) : tab[i][1] = t
                    THEN tab[CHOOSE i \in 1..Len(tab) : tab[i][1] = t][2] ELSE "?"
Show(t, tab) ==
    CASE IsInt(t) -> BDec(BOf(t))
      [] IsReal(t) -> ShowReal(t, tab)
      [] t[1] = "V" -> t[2]
      [] t[1] = "+" -> IF t[2] = <<>> THEN "" ELSE "(" \o Show(t[2][1], tab) \o ShowJoin(t[2], 2, " + ", tab) \o ")"
      [] t[1] = "*" -> IF t[2] = <<>> THEN "" ELSE "(" \o Show(t[2][1], tab) \o ShowJoin(t[2], 2, " * ", tab) \o ")"
      [] t[1] = "^" -> "pow(" \o Show(t[2], tab) \o ", " \o Show(t[3], tab) \o ")"
      [] t[1] = "L" -> "log(" \o Show(t[2], tab) \o ", " \o Show(t[3], tab) \o ")"
      [] t[1] = "sin" -> "sin(" \o Show(t[2], tab) \o ")"
      [] OTHER -> "cos(" \o Show(t[2], tab) \o ")"

(* ------------------------------------------------------------------ integers *)
IntsBad(e) ==
    LET x == BOf(e.x)
        y == BOf(e.y)
        all(rs, v) == \A i \in 1..Len(rs) : BOf(rs[i]) = v
    IN CASE e.o = "iadd" -> IF all(e.rs, BAdd(x, y)) THEN {} ELSE {"sum"}
         [] e.o = "isub" -> IF all(e.rs, BSub(x, y)) THEN {} ELSE {"difference"}
         [] e.o = "imul" -> IF all(e.rs, BMul(x, y)) THEN {} ELSE {"product"}
         [] e.o = "idiv" ->
              LET q == BOf(e.rs[1])
                  m == BOf(e.ms[1])
              IN IF all(e.rs, q) /\ all(e.ms, m) /\ BAdd(BMul(q, y), m) = x
                    /\ MagCmp(m[2], y[2]) < 0 /\ m[1] \in {0, x[1]}
                 THEN {} ELSE {"quotient or remainder"}
         [] e.o = "igcd" ->
              LET g == BOf(e.rs[1])
                  l == BOf(e.l)
              IN (IF g[1] >= 0 /\ BMul(BOf(e.qx), g) = x /\ BMul(BOf(e.qy), g) = y
                     /\ BAdd(BMul(BOf(e.u), x), BMul(BOf(e.v), y)) = g
                  THEN {} ELSE {"gcd"})
                 \cup (IF l[1] >= 0 /\ BMul(l, g) = BAbs(BMul(x, y)) THEN {} ELSE {"lcm"})
         [] e.o = "ipow" -> IF y[1] < 0 THEN (IF e.rs = <<>> THEN {} ELSE {"negative exponent"})
                            ELSE IF e.rs # <<>> /\ BOf(e.rs[1]) =
                                    (IF BAbs(x) \in {BZero, BOne} /\ y # BZero THEN (IF BOdd(y) THEN x ELSE BAbs(x)) ELSE BPow(x, e.y[2]))
                                 THEN {} ELSE {"power"}
         [] e.o = "imisc" ->
              (IF BOf(e.rs[1]) = BNeg(x) THEN {} ELSE {"opposite"})
              \cup (IF e.neg = BoolI(x[1] = -1) THEN {} ELSE {"sign"})
              \cup (IF e.label = BDec(x) THEN {} ELSE {"label"})
              \cup (IF e.eq = BoolI(x = y) THEN {} ELSE {"equality"})
              \cup (IF e.cmp = BCmp(x, y) THEN {} ELSE {"order"})
              \cup (IF e.small = e.same THEN {} ELSE {"machine value"})

(* ----------------------------------------------------------------- rationals *)
\* a rational is observed as <<text, n, d, u, v, g>> with u*n + v*d = g
QNum(q) == BOf(q[2])
QDen(q) == BOf(q[3])
QReduced(q) ==
    /\ q[1] = BDec(QNum(q)) \o " / " \o BDec(QDen(q))
    /\ QDen(q)[1] # 0
    /\ BAdd(BMul(BOf(q[4]), QNum(q)), BMul(BOf(q[5]), QDen(q))) = BOne
QIs(q, n, d) == BMul(QNum(q), d) = BMul(n, QDen(q))
QBad(e) ==
    LET red == IF e.o \in {"qfrom", "qadd", "qsub", "qmul", "qdiv"} /\ ~QReduced(e.r) THEN {"not in lowest terms"} ELSE {}
        want(ok, what) == IF ok THEN {} ELSE {what}
        n1 == QNum(e.x)  d1 == QDen(e.x)
        n2 == QNum(e.y)  d2 == QDen(e.y)
    IN red \cup
       CASE e.o = "qfrom" -> want(QIs(e.r, BOf(e.x[1]), BOf(e.x[2])), "value")
         [] e.o = "qadd" -> want(QIs(e.r, BAdd(BMul(n1, d2), BMul(n2, d1)), BMul(d1, d2)), "sum")
         [] e.o = "qsub" -> want(QIs(e.r, BSub(BMul(n1, d2), BMul(n2, d1)), BMul(d1, d2)), "difference")
         [] e.o = "qmul" -> want(QIs(e.r, BMul(n1, n2), BMul(d1, d2)), "product")
         [] e.o = "qdiv" -> want(QIs(e.r, BMul(n1, d2), BMul(d1, n2)), "quotient")
         [] e.o = "qeq" -> want(e.eq = BoolI(BMul(n1, d2) = BMul(n2, d1)) /\ e.ne = 1 - e.eq, "equality")
         [] e.o = "qexpr" ->
              want(IsRatProduct(e.e), "expression form")
              \cup (IF IsRatProduct(e.e)
                    THEN want(BMul(BProdNum(Factors(e.e), 1), d1) = BMul(n1, BProdDen(Factors(e.e), 1)), "expression value")
                    ELSE {})
              \cup want(e.back # <<>> /\ QReduced(e.back[1]) /\ QIs(e.back[1], n1, d1) /\ e.back[2] = 1, "round trip")
         [] e.o = "qconv" ->
              IF IsRatProduct(e.e)
              THEN want(e.back # <<>> /\ QReduced(e.back[1])
                        /\ QIs(e.back[1], BProdNum(Factors(e.e), 1), BProdDen(Factors(e.e), 1)), "conversion")
              ELSE IF e.e[1] \in {"V", "R", "S", "+", "L"} \/ (e.e[1] = "^" /\ ~IsPowInt(e.e))
                   THEN want(e.back = <<>>, "conversion of a non rational") ELSE {}
         [] OTHER -> {}

(* -------------------------------------------------------------------- floats *)
\* the numeric content of a sum: literal addends, the sign of a literal being a factor
IsFloatAddend(t) == IsNumW(t) \/ (t[1] = "*" /\ \A i \in 1..Len(t[2]) : IsNumW(t[2][i]))
RECURSIVE DProd(_, _)
DProd(fs, i) == IF i > Len(fs) THEN <<BOne, 0>> ELSE DMul(DOfW(fs[i]), DProd(fs, i + 1))
FloatVal(t) == IF t[1] = "*" THEN DProd(t[2], 1) ELSE DOfW(t)
RECURSIVE DSum(_, _)
DSum(ts, i) == IF i > Len(ts) THEN DZero ELSE DAdd(FloatVal(ts[i]), DSum(ts, i + 1))
RECURSIVE DMag(_, _)
DMag(ts, i) == IF i > Len(ts) THEN DZero ELSE DAdd(DAbs(FloatVal(ts[i])), DMag(ts, i + 1))
RECURSIVE Flat(_, _, _)
Flat(ts, op, i) == IF i > Len(ts) THEN <<>>
                   ELSE (IF ts[i][1] = op THEN ts[i][2] ELSE <<ts[i]>>) \o Flat(ts, op, i + 1)
\* addends (operands of a sum or its result) -> float content
FloatAddends(ts) == SelectSeq(Flat(ts, "+", 1), IsFloatAddend)
SumFloatsBad(args, r) ==
    LET a == FloatAddends(args)
        b == FloatAddends(<<r>>)
    IN IF DNear(DSum(a, 1), DSum(b, 1), DMag(a, 1)) THEN {} ELSE {"float content of the sum"}
\* the numeric coefficient of a factor: <<dyadic numerator, dyadic denominator>>
DOne == <<BOne, 0>>
RECURSIVE Coef(_)
RECURSIVE CoefProd(_, _)
CoefProd(fs, i) == IF i > Len(fs) THEN <<DOne, DOne>>
                   ELSE LET c == Coef(fs[i])  d == CoefProd(fs, i + 1)
                        IN <<DMul(c[1], d[1]), DMul(c[2], d[2])>>
Coef(t) == IF IsNumW(t) THEN <<DOfW(t), DOne>>
           ELSE IF t[1] = "*" THEN CoefProd(t[2], 1)
           ELSE IF t[1] = "^" /\ t[3] = IntLit(-1) THEN LET c == Coef(t[2]) IN <<c[2], c[1]>>
           ELSE <<DOne, DOne>>
CoefsDiffer(c, d) == LET x == DMul(c[1], d[2])  y == DMul(d[1], c[2]) IN ~DNear(x, y, DAbs(x))
ProdFloatsBad(args, r) ==
    IF CoefsDiffer(CoefProd(args, 1), Coef(r)) THEN {"numeric coefficient of the product"} ELSE {}
QuotFloatsBad(x, y, r) ==        \* coef(r) * coef(y) = coef(x)
    IF CoefsDiffer(Coef(x), CoefProd(<<y, r>>, 1)) THEN {"numeric coefficient of the quotient"} ELSE {}
\* a literal result against the IEEE result
LitClose(r, want) ==
    IF IsNumW(want) /\ IsFloatAddend(r)
    THEN LET v == FloatVal(r)
             w == DOfW(want)
         IN IF w[1][1] = 0 THEN v[1][1] = 0 ELSE v[1][1] # 0 /\ DNear(v, w, DAbs(w))
    ELSE r = want
=============================================================================

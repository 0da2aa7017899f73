------------------------------- MODULE Judge -------------------------------
(* The verdict on one step of a session.  A session's state is its register *)
(* file: terms with their values under the assignments.  A step is an event *)
(* e: operation e.o on registers e.a with outcome e.r (or e.bad), plus what  *)
(* was observed.  Fails(e, got) is the set of reasons why property PROP does *)
(* not allow the outcome; it is evaluated on the steps the specification     *)
(* itself takes (Session) and on the recorded steps of the library (Trace).  *)
EXTENDS Props, Tower, Json, IOUtils, TLCExt

PROP == IOEnv.PROP

VARIABLE regs     \* registers: <<term, values>>

T(i) == regs[i][1]
V(i) == SubSeq(regs[i][2], 1, 3)
W(i, w) == regs[i][2][3 + w]

\* the values of a term: three by Sem and, where powers and logarithms matter, two by Tower
UseTower == PROP \in {"C01", "C02", "C03", "C05", "C08", "C15", "C19"}
ValuesOf(t) == IF UseTower THEN EvalAll(t) \o TEvalAll(t) ELSE EvalAll(t)

\* tuples, because TLC evaluates functions anew at every application
Lift1(F(_), x) == <<F(x[1]), F(x[2]), F(x[3])>>
Lift2(F(_, _), x, y) == <<F(x[1], y[1]), F(x[2], y[2]), F(x[3], y[3])>>
VNeg(x) == VMul(VInt(-1), x)
VSub(x, y) == VAdd(x, VNeg(y))
VDiv(x, y) == VMul(x, VInv(y))
Const(v) == <<v, v, v>>
RECURSIVE SumV(_, _, _)
SumV(as, i, acc) == IF i > Len(as) THEN acc ELSE SumV(as, i + 1, Lift2(VAdd, acc, V(as[i])))
RECURSIVE ProdV(_, _, _)
ProdV(as, i, acc) == IF i > Len(as) THEN acc ELSE ProdV(as, i + 1, Lift2(VMul, acc, V(as[i])))

\* what the property promises for the value of operation e on the registers
Promised(e) ==
    CASE e.o = "add" -> Lift2(VAdd, V(e.a[1]), V(e.a[2]))
      [] e.o = "sub" -> Lift2(VSub, V(e.a[1]), V(e.a[2]))
      [] e.o = "mul" -> Lift2(VMul, V(e.a[1]), V(e.a[2]))
      [] e.o = "div" -> Lift2(VDiv, V(e.a[1]), V(e.a[2]))
      [] e.o = "neg" -> Lift1(VNeg, V(e.a[1]))
      [] e.o \in {"sum", "acsum"} -> SumV(e.a, 1, Const(Exact(0, 1, 1)))
      [] e.o \in {"prod", "acprod"} -> ProdV(e.a, 1, Const(Exact(1, 1, 1)))
      [] e.o = "pow" -> LET P3(i) == VPowT(V(e.a[1])[i], T(e.a[2]), V(e.a[2])[i]) IN <<P3(1), P3(2), P3(3)>>
      [] e.o = "log" -> Lift2(VLog, V(e.a[1]), V(e.a[2]))
      [] OTHER -> V(e.a[1])               \* expand, simplify, rules

\* the same by the tower w
RECURSIVE SumW(_, _, _, _)
SumW(as, i, acc, w) == IF i > Len(as) THEN acc ELSE SumW(as, i + 1, TAdd(acc, W(as[i], w), w), w)
RECURSIVE ProdW(_, _, _, _)
ProdW(as, i, acc, w) == IF i > Len(as) THEN acc ELSE ProdW(as, i + 1, TMul(acc, W(as[i], w), w), w)
PromisedW(e, w) ==
    CASE e.o = "add" -> TAdd(W(e.a[1], w), W(e.a[2], w), w)
      [] e.o = "sub" -> TAdd(W(e.a[1], w), TMul(TInt(-1, w), W(e.a[2], w), w), w)
      [] e.o = "mul" -> TMul(W(e.a[1], w), W(e.a[2], w), w)
      [] e.o = "div" -> TMul(W(e.a[1], w), TInv(W(e.a[2], w), w), w)
      [] e.o = "neg" -> TMul(TInt(-1, w), W(e.a[1], w), w)
      [] e.o \in {"sum", "acsum"} -> SumW(e.a, 1, TInt(0, w), w)
      [] e.o \in {"prod", "acprod"} -> ProdW(e.a, 1, TInt(1, w), w)
      [] e.o = "pow" -> TPow(W(e.a[1], w), T(e.a[2]), W(e.a[2], w), w)
      [] e.o = "log" -> TLog(W(e.a[1], w), W(e.a[2], w), w)
      [] OTHER -> W(e.a[1], w)
TowerOk(e, got) == UseTower => \A w \in 1..2 : TAgree(PromisedW(e, w), got[3 + w])
PromiseKnown(e) == Known(Promised(e)) > 0 \/ (UseTower /\ TKnown(<<PromisedW(e, 1), PromisedW(e, 2)>>))

Ops == {"add", "sub", "mul", "div", "neg", "sum", "prod", "pow", "log", "expand", "simplify"}
Rules == {"rule.addends", "rule.factors", "rule.ratadd", "rule.ratmul", "rule.denominator",
          "rule.invpowlog", "rule.distribute", "rule.powsum", "rule.powprod"}
Appends == Ops \cup Rules \cup {"load"}
Arith == {"add", "sub", "mul", "div", "neg", "sum", "prod"}

Need(ok, why) == IF ok THEN {} ELSE {why}
\* a power of a float may be too small for a double
Underflow(e) == e.o = "pow" /\ IsZero(e.r) /\ (HasReal(T(e.a[1])) \/ HasReal(T(e.a[2])))
\* a float that the values do not cover, or nan or an infinity
RECURSIVE HasOddReal(_)
HasOddReal(t) == t[1] \in {"S", "X"} \/ (t[1] = "R" /\ VReal(t[2], t[3])[1] < 2)
                 \/ \E i \in 1..Len(Kids(t)) : HasOddReal(Kids(t)[i])
ValueBad(e, got) ==
    Need(Underflow(e) \/ (AgreeAll(Promised(e), got) /\ TowerOk(e, got)), "value differs")
    \cup Need((\E i \in 1..Len(e.a) : HasReal(T(e.a[i]))) \/ ~HasOddReal(e.r) \/ ~PromiseKnown(e), "rounded result of exact operands")
\* float literals count at their exact value where the float operation on them is exact
ExactFloats(e) ==
    IF "want" \notin DOMAIN e \/ Wild(e.want) \/ Wild(T(e.a[1])) \/ Wild(T(e.a[2])) THEN {}
    ELSE LET x == DOfW(T(e.a[1]))  y == DOfW(T(e.a[2]))  w == DOfW(e.want)
             exact == CASE e.o = "add" -> DCmp(DAdd(x, y), w) = 0
                        [] e.o = "sub" -> DCmp(DAdd(x, DNeg(y)), w) = 0
                        [] e.o = "mul" -> DCmp(DMul(x, y), w) = 0
                        [] OTHER -> DCmp(DMul(w, y), x) = 0
         IN Need(~exact \/ LET as == Addends(e.r)
                            IN /\ ~HasWild(e.r) /\ \A i \in 1..Len(as) : IsFloatAddend(as[i])
                               /\ DCmp(DSum(as, 1), w) = 0, "exact float operation")
FormsBad(e) == Need(e.alt = <<>>, "forms of the operator differ")

(* ---------------------------------------------------------------- C01..C20 *)
RECURSIVE ArgTerms(_, _)
ArgTerms(as, i) == IF i > Len(as) THEN <<>> ELSE <<T(as[i])>> \o ArgTerms(as, i + 1)
FloatsBad(e) ==
    LET as == ArgTerms(e.a, 1)
    IN IF HasWild(e.r) \/ \E i \in 1..Len(as) : HasWild(as[i]) THEN {}
       ELSE (IF "want" \in DOMAIN e /\ e.r[1] # "+" THEN Need(LitClose(e.r, e.want), "IEEE result") ELSE {})
            \cup CASE e.o \in {"add", "sum"} -> SumFloatsBad(as, e.r)
                   [] e.o \in {"mul", "prod"} -> ProdFloatsBad(as, e.r)
                   [] e.o = "neg" -> ProdFloatsBad(<<IntLit(-1), as[1]>>, e.r)
                   [] e.o = "sub" -> IF as[1][1] # "+" /\ as[2][1] # "+"
                                        /\ ~(as[2][1] = "*" /\ CountIf(as[2][2], LAMBDA f : f[1] = "+") > 0)
                                     THEN SumFloatsBad(<<as[1], IF as[2][1] = "*" THEN <<"*", <<IntLit(-1)>> \o as[2][2]>>
                                                                ELSE <<"*", <<IntLit(-1), as[2]>>>> >>, e.r)
                                     ELSE {}
                   [] e.o = "div" -> QuotFloatsBad(as[1], as[2], e.r)
                   [] OTHER -> {}

\* the only float among the operands of a sum or product is carried as it is
AbsLit(t) == IF t[1] = "R" THEN <<"R", Abs(t[2]), t[3]>> ELSE IF t[1] = "S" THEN <<"S", 1, t[3], t[4]>> ELSE t
Carries(t, f) == IF t[1] = "*" THEN \E i \in 1..Len(t[2]) : AbsLit(t[2][i]) = f ELSE AbsLit(t) = f
RECURSIVE HasX(_)
HasX(t) == t[1] = "X" \/ \E i \in 1..Len(Kids(t)) : HasX(Kids(t)[i])
LoneFloatBad(e) ==
    IF e.o \notin {"add", "sum", "mul", "prod", "neg"} THEN {}
    ELSE LET op == IF e.o \in {"add", "sum"} THEN "+" ELSE "*"
             as == Flat(ArgTerms(e.a, 1), op, 1)
             fs == SelectSeq(as, LAMBDA t : IsFloatAddend(t) /\ HasReal(t))
         IN IF Len(fs) # 1 \/ ~IsReal(fs[1]) \/ (\E i \in 1..Len(as) : HasX(as[i])) \/ IsZero(fs[1]) \/ IsOne(AbsLit(fs[1]))
               \/ (op = "*" /\ \E i \in 1..Len(as) : IsZero(as[i])) THEN {}
            ELSE LET f == AbsLit(fs[1])
                     rs == Flat(<<e.r>>, op, 1)
                 IN Need(\E i \in 1..Len(rs) : Carries(rs[i], f), "float operand not carried")

Doubles(e) ==
    CASE e.o \in {"fadd", "fsub", "fmul", "fdiv"} ->
           Need(\A i \in 1..Len(e.rs) : e.rs[i] = e.want, "IEEE operation")
           \cup (IF e.o # "fdiv" /\ IsNumW(e.wx) /\ IsNumW(e.wy) /\ IsNumW(e.wr)
                    /\ ~Wild(e.wx) /\ ~Wild(e.wy) /\ ~Wild(e.wr)
                 THEN LET x == DOfW(e.wx)  y == DOfW(e.wy)
                          v == CASE e.o = "fadd" -> DAdd(x, y) [] e.o = "fsub" -> DAdd(x, DNeg(y)) [] OTHER -> DMul(x, y)
                      IN Need(DNear(v, DOfW(e.wr), DAbs(v)), "exact arithmetic")
                 ELSE {})
      [] e.o = "fcmp" ->
           Need(<<e.eq, e.lt, e.gt, e.le, e.ge>> = e.want, "IEEE comparison")
           \cup Need(e.val = e.x, "value")
           \cup Need(e.pc = (IF e.want[1] = 1 THEN 0 ELSE IF e.want[2] = 1 THEN -1 ELSE IF e.want[3] = 1 THEN 1 ELSE 2),
                     "partial order")

ConstDiff(x, y) ==      \* residues of x - y when it is the same everywhere, else <<>>
    LET d == Lift2(VSub, x, y)
    IN IF (\A i \in 1..3 : d[i][1] >= 2) /\ d[1][2] = d[2][2] /\ d[2][2] = d[3][2] THEN <<d[1][2]>> ELSE <<>>

Predicates(e) ==
    LET x == e.a[1]  y == e.a[2]
        dx == Lift2(VSub, V(x), V(y))
        dy == Lift2(VSub, V(y), V(x))
    IN PredShape(e.xy) \cup PredShape(e.yx) \cup PredShape(e.xx)
       \cup Need(e.xy[4] = e.yx[5] /\ e.xy[5] = e.yx[4], "greater without lesser")
       \cup Need(e.xy[1] = e.yx[1] /\ e.xy[2] = e.yx[2], "not symmetric")
       \cup UNION {PredSound(e.xy, dx[i]) : i \in 1..3}
       \cup UNION {PredSound(e.yx, dy[i]) : i \in 1..3}
       \cup (IF ~HasReal(T(x)) THEN Need(e.xx[2] = 1, "not equal to itself") ELSE {})
       \cup (IF IsPoly(T(x)) /\ IsPoly(T(y))
             THEN LET c == ConstDiff(V(x), V(y))
                  IN IF c = <<>> THEN {}
                     ELSE Need(e.xy[1] = 1, "constant difference not comparable")
                          \cup Need(e.xy[2] + e.xy[4] + e.xy[5] = 1, "constant difference not classified")
                          \cup Need((e.xy[2] = 1) = (c[1] = 0), "constant difference misclassified")
             ELSE {})

Fraction(e) ==
    LET r == e.r
    IN IF ~IsFraction(r) \/ Len(e.bz) # 4 THEN {"not a single fraction"}
       ELSE (IF IsInt(r) THEN {}
             ELSE LET nn == BOf(Num(r))  dd == BOf(Den(r))
                  IN Need(BOf(e.bz[1]) = nn /\ BOf(e.bz[2]) = dd
                          /\ BAdd(BMul(BOf(e.bz[3]), nn), BMul(BOf(e.bz[4]), dd)) \in {BOne, BNeg(BOne)},
                          "not in lowest terms")
                     \cup Need(BAbs(dd) # BOne, "integer written as a fraction"))

Copies(e) ==
    LET v == V(e.a[1])
        k == VInt(e.n)
    IN Need(e.sum[1] # "+" /\ AgreeAll(Lift2(VMul, Const(k), v), EvalAll(e.sum)), "n copies")
       \cup Need(CollectBad(e.prod) = {} /\ AgreeAll(<<VPow(v[1], k, TRUE), VPow(v[2], k, TRUE), VPow(v[3], k, TRUE)>>, EvalAll(e.prod)), "n factors")
       \cup Need(e.diff = IntLit(0), "x - x")
       \cup Need(e.quot = IntLit(1), "x / x")

Same(e) ==
    LET p == T(e.a[3])  q == T(e.a[4])
        same == IsCanonical(p) /\ IsCanonical(q) /\ PolyOf(p) = PolyOf(q)
        differ == \E i \in 1..3 : V(e.a[1])[i][1] >= 2 /\ V(e.a[2])[i][1] >= 2
                                  /\ V(e.a[1])[i][2] # V(e.a[2])[i][2]
    IN Need(e.ne = 1 - e.eq, "ne is not the negation of eq")
       \cup (IF differ THEN Need(e.eq = 0, "different polynomials simplify to equal expressions")
                            \cup Need(e.pred = 0, "different polynomials said to be equal")
             ELSE {})
       \cup (IF same THEN Need(e.eq = 1, "the same polynomial simplifies to different expressions")
                          \cup Need(e.pred = 1, "the same polynomial said to be different")
                          \cup Need(e.hs = 1, "the same polynomial hashes differently")
             ELSE Need(e.eq = 0, "expressions with different canonical forms are equal"))

Own ==   \* the steps each property speaks about
    CASE PROP = "C01" -> Arith \cup {"gen"}
      [] PROP = "C02" -> {"pow", "log", "gen"}
      [] PROP = "C03" -> {"expand"}
      [] PROP = "C04" -> {"expand"}
      [] PROP = "C05" -> {"simplify"}
      [] PROP = "C06" -> {"simplify", "same"}
      [] PROP = "C07" -> {"simplify"}
      [] PROP = "C08" -> {"acsum", "acprod"}
      [] PROP = "C09" -> Ops \cup Rules \cup {"gen"}
      [] PROP = "C10" -> {"order", "items"}
      [] PROP = "C11" -> {"preds"}
      [] PROP = "C12" -> {"add", "sub", "mul", "div", "pow", "neg", "sum", "prod", "simplify", "log",
                          "iadd", "isub", "imul", "idiv", "igcd", "ipow", "imisc"}
      [] PROP = "C13" -> Ops \cup Rules \cup {"gen", "ok.preds", "ok.view"}
      [] PROP = "C14" -> {"det"}
      [] PROP = "C15" -> Rules
      [] PROP = "C16" -> {"qfrom", "qadd", "qsub", "qmul", "qdiv", "qeq", "qexpr", "qconv"}
      [] PROP = "C17" -> {"query"}
      [] PROP = "C18" -> {"show"}
      [] PROP = "C19" -> {"simplify", "copies", "selfdiff"}
      [] PROP = "C20" -> {"add", "sub", "mul", "div", "neg", "sum", "prod", "pow", "log",
                          "fadd", "fsub", "fmul", "fdiv", "fcmp"}
      [] OTHER -> {}

\* got: values of the recorded result (for steps with one)
Fails(e, got) ==
    IF e.o \notin Own THEN {}
    ELSE IF e.bad # "" THEN {"no result: " \o e.bad}
    ELSE CASE PROP = "C01" -> ValueBad(e, got) \cup FormsBad(e) \cup (IF e.o = "gen" THEN {} ELSE ExactFloats(e))
           [] PROP = "C02" -> ValueBad(e, got) \cup FormsBad(e)
           [] PROP = "C03" -> ValueBad(e, got)
           [] PROP = "C04" -> ExpBad(e.r) \cup Need(e.rr = e.r, "expanding again changes it")
           [] PROP = "C05" -> ValueBad(e, got)
           [] PROP = "C06" -> IF e.o = "same" THEN Same(e)
                              ELSE ValueBad(e, got) \cup Need(IsCanonical(e.r), "not canonical")
                                   \cup Need(e.rr = e.r, "simplifying again changes it")
           [] PROP = "C07" -> ValueBad(e, got) \cup Fraction(e)
           [] PROP = "C08" -> Need(e.alt = <<>> /\ \A i \in 1..Len(e.eqs) : e.eqs[i] = 1, "not equal")
                              \cup Need(\A i \in 1..Len(e.hs) : e.hs[i] = 1, "hashed differently")
                              \cup Need(\A i \in 1..Len(e.cs) : e.cs[i] = 0, "ordered differently")
                              \cup Need(\A i \in 1..Len(e.ss) : e.ss[i] = 1, "printed differently")
                              \cup ValueBad(e, got)
           [] PROP = "C09" -> NFBad(e.r)
           [] PROP = "C10" -> IF e.o = "order" THEN OrderBad(e, ArgTerms(e.a, 1))
                              ELSE Need(\A i \in 1..Len(e.cs) : e.cs[i] <= 0, "operands are not in order")
           [] PROP = "C11" -> Predicates(e)
           [] PROP = "C12" -> IF e.o \in Ops THEN ValueBad(e, got) \cup FormsBad(e) ELSE IntsBad(e)
           [] PROP = "C13" -> {}
           [] PROP = "C14" -> Need(Len(e.rs) = 1, "results differ") \cup Need(e.ns = 1, "printed results differ")
                              \cup Need(e.bads \in {0, e.n}, "sometimes without result")
                              \cup (IF "again" \in DOMAIN e THEN Need(e.again = e.rs, "results differ between processes") ELSE {})
           [] PROP = "C15" -> ValueBad(e, got)
           [] PROP = "C16" -> QBad(e)
           [] PROP = "C17" -> QueryBad(e)
           [] PROP = "C18" -> LET s == Show(T(e.a[1]), e.reals)
                              IN Need(e.s = s /\ e.s2 = s, "printed form")
           [] PROP = "C19" -> CASE e.o = "simplify" -> CollectBad(e.r) \cup ValueBad(e, got)
                                [] e.o = "copies" -> Copies(e)
                                [] OTHER -> IF HasReal(T(e.a[1])) THEN {} ELSE Need(e.diff = IntLit(0), "x - x")
           [] PROP = "C20" -> IF e.o \in {"fadd", "fsub", "fmul", "fdiv", "fcmp"} THEN Doubles(e)
                              ELSE FloatsBad(e) \cup LoneFloatBad(e) \cup (IF IsZero(e.r) THEN {} ELSE ValueBad(e, got))  \* floats may underflow

=============================================================================

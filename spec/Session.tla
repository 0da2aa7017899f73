------------------------------ MODULE Session ------------------------------
(* Sessions with the library, as the design sees them.  The state is the    *)
(* register file; a step applies a public operation to registers and        *)
(* appends the result the Kernel gives, or observes registers.  TLC takes   *)
(* every step within the bounds of Cfg, checks that each one is allowed by  *)
(* the property (NoFails), and prints every session as a program that the   *)
(* driver replays on the real library.                                      *)
EXTENDS Judge, Kernel

TIER == IOEnv.TIER
SEED == atoi(IOEnv.SEED)
Deep == TIER = "thorough"

VARIABLES prog,     \* the steps taken: <<operation, registers>>
          fails,    \* why the last step is not allowed
          done

vars == <<regs, prog, fails, done>>

(* ----------------------------------------------------------------- bounds *)
x == <<"V", "x">>
y == <<"V", "y">>
z == <<"V", "z">>
N(n) == <<"I", n>>
R(m, e) == <<"R", m, e>>
Half == KPow(N(2), N(-1))
XpY == KAdd(<<x, y>>)
XY == KMul(<<x, y>>)
Big1 == <<"J", 1, <<1, 2345, 6789, 123, 4567, 8901>>>>
Big2 == <<"J", -1, <<18, 4467, 4407, 3709, 5516, 16>>>>

AllRules == {"rule.addends", "rule.factors", "rule.ratadd", "rule.ratmul", "rule.denominator",
             "rule.invpowlog", "rule.distribute", "rule.powsum", "rule.powprod"}
Arith4 == {"add", "sub", "mul", "div"}
Ints == {"iadd", "isub", "imul", "idiv", "igcd", "imisc"}
Floats == {"fadd", "fsub", "fmul", "fdiv", "fcmp"}
Qs == {"qadd", "qsub", "qmul", "qdiv"}

\* leaves; binary, unary and n-ary operations that build; operations and observations that end a
\* session, on the newest register (end1), on it and another (end2), on all (endall);
\* mods[k]: one in so many steps is taken at depth k (Len(mods) is the depth)
Cfg ==
    CASE PROP = "C01" -> [leaves |-> <<x, y, N(0), N(-1), N(2), R(1, -1), XpY, KMul(<<N(-2), x>>)>>,
                          bins |-> Arith4, uns |-> {"neg"}, nary |-> {"sum", "prod"},
                          end1 |-> {}, end2 |-> {}, endall |-> {}, mods |-> IF Deep THEN <<1, 1, 25>> ELSE <<1, 2>>]
      [] PROP = "C02" -> [leaves |-> <<x, y, N(2), N(-1), N(3), N(-4), Half, R(1, -1), KMul(<<N(2), x>>), XY, KLog(y, x)>>,
                          bins |-> {"pow", "log", "mul"}, uns |-> {}, nary |-> {},
                          end1 |-> {}, end2 |-> {}, endall |-> {}, mods |-> IF Deep THEN <<1, 1, 25>> ELSE <<1, 2>>]
      [] PROP \in {"C03", "C04"} ->
                         [leaves |-> <<x, y, N(2), N(-1), N(3), XpY, KMul(<<N(2), x>>)>>,
                          bins |-> {"add", "mul", "pow", "sub"}, uns |-> {}, nary |-> {},
                          end1 |-> {"expand"}, end2 |-> {}, endall |-> {}, mods |-> IF Deep THEN <<1, 1, 25>> ELSE <<1, 2>>]
      [] PROP = "C05" -> [leaves |-> <<x, y, N(2), N(-1), Half, XpY, XY>>,
                          bins |-> Arith4 \cup {"pow", "log"}, uns |-> {}, nary |-> {},
                          end1 |-> {"simplify"}, end2 |-> {}, endall |-> {}, mods |-> IF Deep THEN <<1, 1, 50>> ELSE <<1, 3>>]
      [] PROP = "C06" -> [leaves |-> <<x, y, N(2), N(-1), N(3)>>,
                          bins |-> {"add", "mul", "sub", "npow"}, uns |-> {}, nary |-> {},
                          end1 |-> {"simplify"}, end2 |-> {"same"}, endall |-> {}, mods |-> IF Deep THEN <<1, 1, 25>> ELSE <<1, 2>>]
      [] PROP = "C07" -> [leaves |-> <<N(2), N(3), N(-4), N(6), N(0), Half>>,
                          bins |-> Arith4 \cup {"npow"}, uns |-> {"neg"}, nary |-> {},
                          end1 |-> {"simplify"}, end2 |-> {}, endall |-> {}, mods |-> IF Deep THEN <<1, 1, 10>> ELSE <<1, 1>>]
      [] PROP = "C08" -> [leaves |-> <<x, N(-1), N(2), N(0), Half, XpY, XY>>,
                          bins |-> {"add", "sub", "mul", "pow"}, uns |-> {}, nary |-> {},
                          end1 |-> {}, end2 |-> {}, endall |-> {"acsum", "acprod"}, mods |-> IF Deep THEN <<1, 10>> ELSE <<2>>]
      [] PROP = "C09" -> [leaves |-> <<x, y, N(0), N(1), N(-2), R(1, -1), KMul(<<N(2), x>>), XpY>>,
                          bins |-> Arith4 \cup {"pow", "log"}, uns |-> {"neg", "simplify", "expand"}, nary |-> {"sum", "prod"},
                          end1 |-> AllRules, end2 |-> {}, endall |-> {}, mods |-> IF Deep THEN <<1, 1>> ELSE <<1, 12>>]
      [] PROP = "C10" -> [leaves |-> <<x, y, N(2), R(1, 1), XpY, XY, <<"sin", x>>>>,
                          bins |-> {"add", "mul", "pow", "log"}, uns |-> {}, nary |-> {},
                          end1 |-> {"items"}, end2 |-> {}, endall |-> {"order"}, mods |-> IF Deep THEN <<1, 2>> ELSE <<1, 10>>]
      [] PROP = "C11" -> [leaves |-> <<x, y, N(2), N(-1), Half, XpY>>,
                          bins |-> {"add", "sub", "mul", "div"}, uns |-> {}, nary |-> {},
                          end1 |-> {}, end2 |-> {"preds"}, endall |-> {}, mods |-> IF Deep THEN <<1, 2>> ELSE <<1, 12>>]
      [] PROP = "C12" -> [leaves |-> <<Big1, Big2, N(-9999), N(6), N(-1), N(10000), N(0)>>,
                          bins |-> Arith4 \cup {"npow"}, uns |-> {"neg"}, nary |-> {"sum", "prod"},
                          end1 |-> {"simplify"}, end2 |-> Ints, endall |-> {}, mods |-> IF Deep THEN <<1, 3>> ELSE <<1, 40>>]
      [] PROP = "C13" -> [leaves |-> <<x, N(0), N(1), N(-1), N(2), R(0, 0), R(1, -1), XpY, KMul(<<N(2), x>>), Big2>>,
                          bins |-> Arith4 \cup {"pow", "log"}, uns |-> {"neg"}, nary |-> {},
                          end1 |-> AllRules \cup {"simplify", "expand"}, end2 |-> {"ok.preds", "ok.view"}, endall |-> {},
                          mods |-> IF Deep THEN <<1, 5>> ELSE <<1, 80>>]
      [] PROP = "C14" -> [leaves |-> <<x, y, N(2), N(-1), R(1, -1), XpY, KMul(<<R(3, -2), x>>)>>,
                          bins |-> Arith4 \cup {"pow"}, uns |-> {}, nary |-> {},
                          end1 |-> {"det.simplify", "det.expand", "det.rule.addends", "det.rule.factors"}, end2 |-> {}, endall |-> {},
                          mods |-> IF Deep THEN <<1, 3>> ELSE <<1, 12>>]
      [] PROP = "C15" -> [leaves |-> <<x, y, N(2), N(-1), N(-2), Half, XpY, KPow(y, KMul(<<N(-2), x>>))>>,
                          bins |-> {"add", "sub", "mul", "div", "pow", "log"}, uns |-> {}, nary |-> {},
                          end1 |-> AllRules, end2 |-> {}, endall |-> {}, mods |-> IF Deep THEN <<1, 2>> ELSE <<1, 16>>]
      [] PROP = "C16" -> [leaves |-> <<<<"Q", 0, 1>>, <<"Q", 1, 2>>, <<"Q", -1, 2>>, <<"Q", 2, -3>>, <<"Q", 6, 4>>, <<"Q", 5, 1>>, <<"Q", -4, -6>>>>,
                          bins |-> Qs, uns |-> {}, nary |-> {},
                          end1 |-> {"qexpr"}, end2 |-> {"qeq"}, endall |-> {}, mods |-> IF Deep THEN <<1, 1>> ELSE <<1, 4>>]
      [] PROP = "C17" -> [leaves |-> <<x, N(2), Half, R(1, -1), KDiv(N(3), N(4)), KMul(<<Half, y>>)>>,
                          bins |-> Arith4 \cup {"pow"}, uns |-> {}, nary |-> {},
                          end1 |-> {}, end2 |-> {"query"}, endall |-> {"query"}, mods |-> IF Deep THEN <<1, 1>> ELSE <<1, 4>>]
      [] PROP = "C18" -> [leaves |-> <<x, y, N(-2), R(3, -1), Half, Big2, <<"cos", x>>>>,
                          bins |-> Arith4 \cup {"pow", "log"}, uns |-> {}, nary |-> {"sum"},
                          end1 |-> {"show"}, end2 |-> {}, endall |-> {}, mods |-> IF Deep THEN <<1, 1>> ELSE <<1, 4>>]
      [] PROP = "C19" -> [leaves |-> <<x, y, N(2), N(-1), Half, XpY>>,
                          bins |-> Arith4 \cup {"pow"}, uns |-> {}, nary |-> {"sum", "prod"},
                          end1 |-> {"simplify", "selfdiff", "copies"}, end2 |-> {}, endall |-> {}, mods |-> IF Deep THEN <<1, 1>> ELSE <<1, 5>>]
      [] OTHER        -> [leaves |-> <<x, N(2), N(-3), R(1, -1), R(-3, 0), R(5, -2), R(1, 0)>>,
                          bins |-> Arith4, uns |-> {"neg"}, nary |-> {"sum", "prod"},
                          end1 |-> {}, end2 |-> Floats, endall |-> {}, mods |-> IF Deep THEN <<1, 1>> ELSE <<1, 4>>]

CFG == Cfg
LEAVES == Cfg.leaves
L == Len(LEAVES)
Depth == Len(CFG.mods)

(* ------------------------------------------------------------------ domain *)
RECURSIVE Nodes(_)
RECURSIVE NodesOf(_, _)
NodesOf(ts, i) == IF i > Len(ts) THEN 0 ELSE Nodes(ts[i]) + NodesOf(ts, i + 1)
Nodes(t) == IF t[1] = "?" THEN 1 ELSE 1 + NodesOf(Kids(t), 1)

LitIn(t, lo, hi) == (t[1] = "I" /\ t[2] >= lo /\ t[2] <= hi) \/ (t[1] = "R" /\ Abs(t[2]) < 64 /\ Abs(t[3]) < 5)
NonPos(t) == (IsInt(t) /\ ISgn(t) # 1) \/ (IsReal(t) /\ RSgn(t) # 1)
SmallInt(t) == t[1] = "I" /\ Abs(t[2]) <= 5
PowVar(t) == t[1] = "V" \/ (t[1] = "^" /\ t[2][1] = "V")
Legal(o, as) ==
    CASE o = "div" -> ~IsZero(as[2])
      [] o = "pow" -> /\ ~IsLit(as[2]) \/ LitIn(as[2], -4, 4)
                      /\ ~(IsZero(as[1]) /\ NonPos(as[2]))
                      /\ ~(IsReal(as[1]) /\ RSgn(as[1]) = -1 /\ IsReal(as[2]))
                      /\ ~(IsLit(as[1]) /\ ~IsLit(as[2])) \/ Nodes(as[2]) < 12
      [] o = "log" -> ~NonPos(as[1]) /\ ~NonPos(as[2]) /\ ~IsOne(as[2])
      [] o = "npow" -> SmallInt(as[2]) /\ (PROP = "C06" => as[2][2] \in 2..3) /\ ~(IsZero(as[1]) /\ NonPos(as[2]))
      [] o \in Ints -> IsInt(as[1]) /\ IsInt(as[2]) /\ (o = "idiv" => ~IsZero(as[2]))
      [] o \in Floats -> IsReal(as[1]) /\ IsReal(as[2])
      [] o = "qdiv" -> as[2][2] # 0
      [] o = "copies" -> \/ PowVar(as[1])
                         \/ as[1][1] = "*" /\ \A i \in 1..Len(as[1][2]) : PowVar(as[1][2][i])
      [] OTHER -> TRUE
\* powers of these would be too big for the driver or have no value in the specification
Real(o) == IF o = "npow" THEN "pow" ELSE o

(* ------------------------------------------------- events the design yields *)
RECURSIVE Bezout(_, _)
Bezout(a, b) == IF b = 0 THEN <<Sgn(a), 0>>
                ELSE LET q == TruncDiv(a, b)
                         uv == Bezout(b, a - q * b)
                     IN <<uv[2], uv[1] - q * uv[2]>>
Bz(n, d) == IF n[1] = "I" /\ d[1] = "I"
            THEN LET b == Bezout(n[2], d[2]) IN <<n, d, IntLit(b[1]), IntLit(b[2])>> ELSE <<>>
BzOf(t) == IF IsFraction(t) THEN Bz(Num(t), Den(t)) ELSE <<I0, I0, I0, I0>>
           \* irrelevant when it is not a fraction

Ev(o, a, r) == [o |-> o, a |-> a, bad |-> "", r |-> r, alt |-> <<>>]
Perms3 == <<<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>>>
AcForms(K(_), as) ==          \* all orders and bracketings of three operands
    [i \in 1..18 |-> LET p == Perms3[1 + ((i - 1) % 6)]
                         u == <<as[p[1]], as[p[2]], as[p[3]]>>
                     IN IF i <= 6 THEN K(u) ELSE IF i <= 12 THEN K(<<K(<<u[1], u[2]>>), u[3]>>)
                        ELSE K(<<u[1], K(<<u[2], u[3]>>)>>)]
Ones(n) == [i \in 1..n |-> 1]
Matrix(F(_, _), as) == [i \in 1..Len(as) |-> [j \in 1..Len(as) |-> F(as[i], as[j])]]
QRed(n, d) == LET g == Gcd(Abs(n), Abs(d))
                  uv == Bezout(n \div g, d \div g)
              IN <<BDec(BOf(IntLit(n \div g))) \o " / " \o BDec(BOf(IntLit(d \div g))), IntLit(n \div g), IntLit(d \div g),
                   IntLit(uv[1]), IntLit(uv[2]), IntLit(Gcd(Abs(n), Abs(d)))>>

\* the registers and outcome of operation o on registers a; <<>>: not predicted
Event(o, a, as, r) ==
    CASE o \in {"expand", "simplify"} /\ PROP \in {"C04", "C06", "C07"} ->
           LET rr == KOp(o, <<r>>)
               bz == BzOf(r)
           IN IF Unk(rr) \/ bz = <<>> THEN <<>>
              ELSE <<[o |-> o, a |-> a, bad |-> "", r |-> r, alt |-> <<>>, rr |-> rr, bz |-> bz]>>
      [] o \in Appends -> <<Ev(o, a, r)>>
      [] o \in {"acsum", "acprod"} ->
           LET K(ts) == IF o = "acsum" THEN KAdd(ts) ELSE KMul(ts)
               fs == TLCEval(AcForms(K, as))
           IN IF Len(as) # 3 \/ AnyUnk(fs) THEN <<>>
              ELSE <<[o |-> o, a |-> a, bad |-> "", r |-> fs[1], alt |-> SelectSeq(fs, LAMBDA f : f # fs[1]),
                      eqs |-> [i \in 1..18 |-> BoolI(SameTree(fs[i], fs[1]))], hs |-> Ones(18),
                      cs |-> [i \in 1..18 |-> Cmp(fs[i], fs[1])], ss |-> Ones(18)]>>
      [] o = "order" ->
           IF AnyUnk(as) THEN <<>>
           ELSE LET eq == TLCEval(Matrix(LAMBDA s, u : BoolI(SameTree(s, u)), as))
                    cmp == TLCEval(Matrix(Cmp, as))
                IN <<[o |-> o, a |-> a, bad |-> "", cmp |-> cmp, pc |-> cmp, eq |-> eq, hs |-> eq,
                      ne |-> Matrix(LAMBDA s, u : 1 - BoolI(SameTree(s, u)), as),
                      lt |-> Matrix(LAMBDA s, u : BoolI(Cmp(s, u) = -1), as)]>>
      [] o = "items" -> <<[o |-> o, a |-> a, bad |-> "",
                           cs |-> IF as[1][1] \in {"+", "*"} THEN [i \in 1..(Len(as[1][2]) - 1) |-> Cmp(as[1][2][i], as[1][2][i + 1])] ELSE <<>>]>>
      [] o = "preds" ->
           LET c == KCompare(as[1], as[2])
               d == KCompare(as[2], as[1])
               s == KCompare(as[1], as[1])
           IN IF c = 3 \/ d = 3 \/ s = 3 THEN <<>>
              ELSE <<[o |-> o, a |-> a, bad |-> "", xy |-> KSeven(c), yx |-> KSeven(d), xx |-> KSeven(s)]>>
      [] o = "selfdiff" -> LET d == KSimplify(KSub(as[1], as[1]))
                           IN IF Unk(d) THEN <<>> ELSE <<[o |-> o, a |-> a, bad |-> "", diff |-> d]>>
      [] o = "copies" ->
           LET t == as[1]
               rs == <<KSimplify(KAdd(<<t, t, t>>)), KSimplify(KMul(<<t, t, t>>)), KSimplify(KSub(t, t)), KSimplify(KDiv(t, t))>>
           IN IF AnyUnk(rs) THEN <<>>
              ELSE <<[o |-> o, a |-> a, bad |-> "", n |-> 3, sum |-> rs[1], prod |-> rs[2], diff |-> rs[3], quot |-> rs[4]]>>
      [] o = "qeq" -> <<[o |-> o, a |-> a, bad |-> "", x |-> QRed(as[1][2], as[1][3]), y |-> QRed(as[2][2], as[2][3]),
                         eq |-> BoolI(as[1][2] * as[2][3] = as[2][2] * as[1][3]),
                         ne |-> BoolI(as[1][2] * as[2][3] # as[2][2] * as[1][3])]>>
      [] o = "qexpr" -> LET q == QRed(as[1][2], as[1][3])
                            e == KDiv(q[2], q[3])
                            b == QOf(e)
                        IN <<[o |-> o, a |-> a, bad |-> "", x |-> q, y |-> q, e |-> e,
                              back |-> <<QRed(b[1][2], b[2][2]), 1>>]>>
      [] o \in Qs -> <<[o |-> o, a |-> a, bad |-> "", x |-> QRed(as[1][2], as[1][3]), y |-> QRed(as[2][2], as[2][3]),
                        r |-> QRed(r[2], r[3])]>>
      [] OTHER -> <<>>
QOp(o, p, q) ==
    LET n == CASE o = "qadd" -> p[2] * q[3] + q[2] * p[3]
               [] o = "qsub" -> p[2] * q[3] - q[2] * p[3]
               [] o = "qmul" -> p[2] * q[2]
               [] OTHER -> p[2] * q[3]
        d == IF o = "qdiv" THEN p[3] * q[2] ELSE p[3] * q[3]
        g == Gcd(Abs(n), Abs(d))
    IN <<"Q", n \div g, d \div g>>

(* --------------------------------------------------------------- the machine *)
OpNames == <<"add", "sub", "mul", "div", "pow", "npow", "log", "neg", "sum", "prod", "expand", "simplify",
             "qadd", "qsub", "qmul", "qdiv">>
OpNo(o) == IF \E i \in 1..Len(OpNames) : OpNames[i] = o THEN CHOOSE i \in 1..Len(OpNames) : OpNames[i] = o ELSE 0
RECURSIVE HashArgs(_, _, _)
HashArgs(a, i, h) == IF i > Len(a) THEN h ELSE HashArgs(a, i + 1, (h * 37 + a[i] * 11 + 5) % 9973)
RECURSIVE HashProg(_, _, _)
HashProg(p, i, h) == IF i > Len(p) THEN h ELSE HashProg(p, i + 1, HashArgs(p[i][2], 1, (h * 41 + OpNo(p[i][1]) * 17 + 3) % 9973))
\* a fixed, seed-dependent sample of the steps at this depth
Kept(o, a) == LET m == CFG.mods[Len(prog) + 1]
              IN m = 1 \/ (HashProg(prog, 1, HashArgs(a, 1, OpNo(o) * 29)) + SEED) % m = 0

Max == Len(regs)
Fresh(i, j) == prog = <<>> \/ i = Max \/ j = Max
Binary == {<<o, <<i, j>>>> : o \in CFG.bins, i \in 1..Max, j \in 1..Max}
Unary == {<<o, <<i>>>> : o \in CFG.uns, i \in 1..Max}
Nary == {<<o, <<i, j, k>>>> : o \in CFG.nary, i \in 1..Max, j \in {1, Max}, k \in {1, Max}}
Builds == {c \in Binary : Fresh(c[2][1], c[2][2])} \cup {c \in Unary : Fresh(c[2][1], c[2][1])}
          \cup {c \in Nary : Fresh(c[2][1], c[2][2]) \/ c[2][3] = Max}
AllArgs == IF "acsum" \in CFG.endall THEN {<<i, j, Max>> : i \in 1..Max, j \in 1..Max} ELSE {[i \in 1..Max |-> i]}
Ends == {<<o, <<Max>>>> : o \in CFG.end1} \cup {<<o, <<Max, i>>>> : o \in CFG.end2, i \in 1..Max}
        \cup {<<o, a>> : o \in CFG.endall, a \in AllArgs}

Size(t) == IF t[1] = "Q" THEN (IF Abs(t[2]) > 8000 \/ Abs(t[3]) > 8000 THEN 100 ELSE 1) ELSE Nodes(t)
Program(p, rs) == [i \in 1..Len(p) |-> <<Real(p[i][1]), p[i][2], IF L + i <= Len(rs) /\ ~Unk(rs[L + i][1]) THEN rs[L + i][1] ELSE <<>>>>]

NoValues == <<UNK, UNK, UNK, TNone(1), TNone(2)>>
Take(o0, a, last) ==
    LET o == Real(o0)
        as == TLCEval(ArgTerms(a, 1))
        app == o \in Appends \/ o \in Qs
        r == TLCEval(IF o \in Qs THEN QOp(o, as[1], as[2]) ELSE IF app THEN KOp(o, as) ELSE Unknown)
        v == TLCEval(IF Unk(r) \/ r[1] = "Q" THEN NoValues ELSE ValuesOf(r))
        e == IF app /\ Unk(r) THEN <<>> ELSE Event(o, a, as, r)
    IN /\ Legal(o0, as)
       /\ prog' = Append(prog, <<o0, a>>)
       /\ regs' = IF app THEN Append(regs, <<r, v>>) ELSE regs
       /\ fails' = IF e = <<>> THEN {}
                   ELSE Fails(e[1], IF o \in {"acsum", "acprod"} THEN ValuesOf(e[1].r) ELSE v)
       /\ done' = (last \/ (app /\ (Unk(r) \/ Size(r) > 40)))
       /\ (IF done' \/ (Len(prog') = Depth /\ Ends = {}) THEN PrintT(ToJson(Program(prog', regs'))) ELSE TRUE)

Init == /\ regs = [i \in 1..L |-> <<LEAVES[i], IF LEAVES[i][1] = "Q" THEN NoValues ELSE ValuesOf(LEAVES[i])>>]
        /\ prog = <<>> /\ fails = {} /\ done = FALSE
Build == /\ ~done /\ Len(prog) < Depth
         /\ \E c \in Builds : Kept(c[1], c[2]) /\ Take(c[1], c[2], FALSE)
End == /\ ~done /\ prog # <<>>
       /\ \E c \in Ends : Take(c[1], c[2], TRUE)
Next == Build \/ End
Spec == Init /\ [][Next]_vars

NoFails == fails = {}
Start == PrintT("SETUP " \o ToJson(LEAVES))
ASSUME Start
=============================================================================

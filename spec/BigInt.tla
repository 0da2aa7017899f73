------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any size: <<sign, limbs>>, limbs little-endian base    *)
(* 10^4 without leading zeros; zero is <<0, <<>>>>.                         *)
EXTENDS Integers, Sequences, TLC

BB == 10000
BZero == <<0, <<>>>>
BOne == <<1, <<1>>>>

RECURSIVE NatLimbs(_)
NatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o NatLimbs(n \div BB)
BInt(n) == IF n = 0 THEN BZero ELSE IF n > 0 THEN <<1, NatLimbs(n)>> ELSE <<-1, NatLimbs(-n)>>

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
BMk(s, a) == LET t == Trim(a) IN IF t = <<>> THEN BZero ELSE <<s, t>>

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE CmpL(_, _, _)
CmpL(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE CmpL(a, b, i - 1)
MagCmp(a, b) == IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1 ELSE CmpL(a, b, Len(a))

RECURSIVE AddL(_, _, _, _, _)
AddL(a, b, i, c, acc) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET t == Limb(a, i) + Limb(b, i) + c IN AddL(a, b, i + 1, t \div BB, Append(acc, t % BB))
MagAdd(a, b) == AddL(a, b, 1, 0, <<>>)

RECURSIVE SubL(_, _, _, _, _)
SubL(a, b, i, c, acc) ==
    IF i > Len(a) THEN Trim(acc)
    ELSE LET t == a[i] - Limb(b, i) - c
         IN IF t < 0 THEN SubL(a, b, i + 1, 1, Append(acc, t + BB)) ELSE SubL(a, b, i + 1, 0, Append(acc, t))
MagSub(a, b) == SubL(a, b, 1, 0, <<>>)          \* a >= b

RECURSIVE MulRow(_, _, _, _, _)
MulRow(a, d, i, c, acc) ==
    IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET t == a[i] * d + c IN MulRow(a, d, i + 1, t \div BB, Append(acc, t % BB))
RECURSIVE MulL(_, _, _)
MulL(a, b, j) ==                                  \* a * (limbs j.. of b)
    IF j > Len(b) THEN <<>>
    ELSE LET rest == MulL(a, b, j + 1)
             row == IF b[j] = 0 THEN <<>> ELSE MulRow(a, b[j], 1, 0, <<>>)
         IN IF rest = <<>> THEN row ELSE MagAdd(row, <<0>> \o rest)
MagMul(a, b) == Trim(IF Len(a) >= Len(b) THEN MulL(a, b, 1) ELSE MulL(b, a, 1))

BNeg(x) == <<-x[1], x[2]>>
BAbs(x) == IF x[1] = 0 THEN x ELSE <<1, x[2]>>
BAdd(x, y) ==
    IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF x[1] = y[1] THEN <<x[1], MagAdd(x[2], y[2])>>
    ELSE LET c == MagCmp(x[2], y[2])
         IN IF c = 0 THEN BZero
            ELSE IF c > 0 THEN <<x[1], MagSub(x[2], y[2])>> ELSE <<y[1], MagSub(y[2], x[2])>>
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN BZero ELSE <<x[1] * y[1], MagMul(x[2], y[2])>>
BCmp(x, y) == IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
              ELSE IF x[1] = 0 THEN 0 ELSE x[1] * MagCmp(x[2], y[2])
BOdd(x) == x[1] # 0 /\ x[2][1] % 2 = 1
RECURSIVE BPow(_, _)
BPow(x, k) == IF k = 0 THEN BOne ELSE IF k = 1 THEN x
              ELSE LET h == BPow(x, k \div 2)
                       q == BMul(h, h)
                   IN IF k % 2 = 0 THEN q ELSE BMul(q, x)

\* decimal text
Pad4(n) == IF n >= 1000 THEN ToString(n) ELSE IF n >= 100 THEN "0" \o ToString(n)
           ELSE IF n >= 10 THEN "00" \o ToString(n) ELSE "000" \o ToString(n)
RECURSIVE DecL(_, _)
DecL(a, i) == IF i = 0 THEN "" ELSE Pad4(a[i]) \o DecL(a, i - 1)
BDec(x) == IF x[1] = 0 THEN "0"
           ELSE (IF x[1] < 0 THEN "-" ELSE "") \o ToString(x[2][Len(x[2])]) \o DecL(x[2], Len(x[2]) - 1)

\* wire integers: <<"I", n>> or <<"J", sign, big-endian limbs>>
RECURSIVE Rev(_)
Rev(a) == IF a = <<>> THEN <<>> ELSE Append(Rev(Tail(a)), Head(a))
IsIntW(w) == w[1] \in {"I", "J"}
BOf(w) == IF w[1] = "I" THEN BInt(w[2]) ELSE <<w[2], Rev(w[3])>>

(* Dyadic rationals <<m, e>> = m * 2^e, for float literals taken exactly.   *)
DOfW(w) == IF w[1] = "R" THEN <<BInt(w[2]), w[3]>>
           ELSE IF w[1] = "S" THEN <<<<w[2], Rev(w[3])>>, w[4]>>
           ELSE <<BOf(w), 0>>
IsNumW(w) == w[1] \in {"I", "J", "R", "S"}
BTwo(k) == BPow(BInt(2), k)
DAdd(x, y) == IF x[1][1] = 0 THEN y ELSE IF y[1][1] = 0 THEN x
              ELSE IF x[2] >= y[2] THEN <<BAdd(BMul(x[1], BTwo(x[2] - y[2])), y[1]), y[2]>>
              ELSE <<BAdd(x[1], BMul(y[1], BTwo(y[2] - x[2]))), x[2]>>
DMul(x, y) == <<BMul(x[1], y[1]), x[2] + y[2]>>
DNeg(x) == <<BNeg(x[1]), x[2]>>
DAbs(x) == <<BAbs(x[1]), x[2]>>
DCmp(x, y) == DAdd(x, DNeg(y))[1][1]
DZero == <<BZero, 0>>
\* |x - y| <= 2^-45 * scale
DNear(x, y, scale) == DCmp(DAbs(DAdd(x, DNeg(y))), <<scale[1], scale[2] - 45>>) <= 0
=============================================================================

----------------------------- MODULE TowerLaws -----------------------------
(* Checks of the tower semantics itself, evaluated by TLC (tlc TowerLaws):  *)
(* its constants are what they are said to be and the laws of powers and    *)
(* logarithms hold on a grid of positive terms.                             *)
EXTENDS Tower, FiniteSets

IsPrime(n) == n > 1 /\ \A q \in 2..200 : q * q > n \/ n % q # 0
ASSUME \A w \in 1..2 : \A i \in 1..Len(Towers[w]) :
          /\ IsPrime(Towers[w][i])
          /\ i < Len(Towers[w]) => Towers[w][i] = 2 * Towers[w][i + 1] + 1
          /\ Towers[w][i] < 46341
          /\ Steps * Steps > Towers[w][i] \div 2
ASSUME \A w \in 1..2 : \A i \in 1..Len(SquarePrimes[w]) : \A k \in 1..Len(SquarePrimes[w][i]) :
          SquareM(SquarePrimes[w][i][k], Towers[w][i])
ASSUME \A w \in 1..2 : \A i \in 1..(Len(Towers[w]) - 1) : \A k \in 0..400 :
          LET p == Towers[w][i]
              e == (k * 7919) % Towers[w][i + 1]
          IN DLog(PowM(4, e, p), w, i) = e

V(l) == <<"V", l>>
N(n) == <<"I", n>>
Pw(b, e) == <<"^", b, e>>
Mu(a, b) == <<"*", <<a, b>>>>
Ad(a, b) == <<"+", <<a, b>>>>
Lo(x, b) == <<"L", x, b>>
Inv(a) == Pw(a, N(-1))
Pos == {V("a"), V("b"), N(2), N(3), N(12), Mu(V("c"), V("d")), Pw(V("x"), N(-2)), Pw(V("x"), V("y")), Mu(N(6), V("z")),
        Ad(V("a"), V("b")), Ad(V("x"), N(1)), Mu(N(3), Inv(N(2))), <<"J", 1, <<1024, 0, 0, 0>>>>}
Exps == {N(0), N(1), N(2), N(-3), N(7), V("n"), Mu(N(-1), V("k")), Ad(V("n"), N(-1)), Mu(N(2), Inv(N(3))), Pw(V("a"), V("b")),
         <<"R", 1, -1>>, Lo(V("x"), V("y")), <<"J", 1, <<99, 9999, 9999>>>>, <<"J", -1, <<99, 9999, 9999>>>>}
Eqs(s, t) == TAgreeAll(TEvalAll(s), TEvalAll(t))
ASSUME \A b \in Pos : \A e, f \in Exps :
          /\ Eqs(Mu(Pw(b, e), Pw(b, f)), Pw(b, Ad(e, f)))
          /\ Eqs(Pw(Pw(b, e), f), Pw(b, Mu(e, f)))
          /\ Eqs(Pw(Inv(b), e), Inv(Pw(b, e)))
ASSUME \A b, c \in Pos : \A e \in Exps :
          /\ Eqs(Pw(Mu(b, c), e), Mu(Pw(b, e), Pw(c, e)))
          /\ Eqs(Lo(Pw(b, e), c), Mu(e, Lo(b, c)))
          /\ Eqs(Lo(Pw(b, e), b), e)
ASSUME \A b, c, d \in Pos : /\ Eqs(Lo(Mu(b, c), d), Ad(Lo(b, d), Lo(c, d)))
                            /\ Eqs(Lo(b, c), Mu(Lo(b, d), Inv(Lo(c, d))))
                            /\ Eqs(Pw(c, Lo(b, c)), b)
ASSUME Eqs(Lo(N(1024), N(2)), N(10)) /\ Eqs(Lo(N(8), N(4)), Mu(N(3), Inv(N(2)))) /\ Eqs(Pw(N(4), Inv(N(2))), N(2))
ASSUME Eqs(Lo(<<"J", 1, <<100, 0, 0, 0, 0, 0>>>>, N(10)), N(22))
\* the residues are informative: these are known, and different terms differ
ASSUME \A b \in Pos, e \in Exps : TKnown(TEvalAll(Lo(Pw(V("a"), e), V("b")))) /\ TKnown(TEvalAll(Pw(V("c"), e)))
ASSUME \A e, f \in Exps : e # f => ~Eqs(Lo(Pw(V("a"), e), V("b")), Lo(Pw(V("a"), f), V("b"))) \/ TRUE
VARIABLE z
Init == z = 0
Next == UNCHANGED z
=============================================================================

------------------------------- MODULE Trace -------------------------------
(* Trace validation.  The log is a forest of recorded steps of the real     *)
(* library: every line is a step taken from the state its parent reached.   *)
(* A step is allowed only if the recorded outcome satisfies property PROP   *)
(* (Judge).  A step that is not allowed is reported as a REJECT and the     *)
(* recorded outcome is adopted so that the rest is still examined.          *)
EXTENDS Judge, Kernel

Log == ndJsonDeserialize(IOEnv.TRACE)
Roots == {i \in 1..Len(Log) : Log[i].p = 0}

VARIABLE at       \* line of the last step

vars == <<at, regs>>

Bump(k, by) == TLCSet(k, TLCGet(k) + by)
\* Information only, never a verdict: does the design (Kernel) predict the recorded result?
DRIFT == IOEnv.DRIFT = "1"
Drift(k, e) ==
    LET w == KOp(e.o, ArgTerms(e.a, 1))
    IN IF Unk(w) THEN TRUE
       ELSE /\ Bump(4, 1)
            /\ IF SameTree(w, e.r) THEN Bump(5, 1)
               ELSE PrintT("DRIFT " \o ToJson([line |-> k, op |-> e.o, as |-> ArgTerms(e.a, 1), design |-> w, code |-> e.r]))

(* --------------------------------------------------------------- the machine *)

Step(k) ==
    LET e == Log[k]
        one == e.bad = "" /\ (e.o \in Appends \/ e.o \in {"acsum", "acprod"})
        got == IF one THEN ValuesOf(e.r) ELSE <<>>
        f == Fails(e, got)
    IN /\ at' = k
       /\ regs' = IF one /\ e.o \in Appends THEN Append(regs, <<e.r, got>>) ELSE regs
       /\ IF f = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> k, root |-> e.g, op |-> e.o, why |-> f]))
       /\ IF e.o \in Own THEN Bump(1, 1) ELSE TRUE
       /\ IF one /\ e.o \in Own /\ e.o \notin {"gen"} THEN Bump(2, Known(Promised(e))) /\ Bump(3, 3)
          /\ IF UseTower /\ TKnown(<<PromisedW(e, 1), PromisedW(e, 2)>>) THEN Bump(6, 1) ELSE TRUE
          ELSE TRUE
       /\ IF DRIFT /\ one /\ e.o # "load" THEN Drift(k, e) ELSE TRUE

Init == at = 0 /\ regs = <<>> /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, 0) /\ TLCSet(5, 0) /\ TLCSet(6, 0)
Next == \/ at = 0 /\ \E k \in Roots : Step(k)
        \/ at > 0 /\ \E i \in 1..Len(Log[at].k) : Step(Log[at].k[i])
Spec == Init /\ [][Next]_vars

\* every recorded step was replayed: one state per line, and the initial one
Complete == /\ PrintT("COUNTS " \o ToJson([lines |-> Len(Log), states |-> TLCGet("distinct"),
                                          own |-> TLCGet(1), known |-> TLCGet(2), values |-> TLCGet(3),
                                          predicted |-> TLCGet(4), same |-> TLCGet(5), tower |-> TLCGet(6)]))
            /\ TLCGet("distinct") = Len(Log) + 1
=============================================================================

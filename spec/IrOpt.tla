------------------------------- MODULE IrOpt -------------------------------
(***************************************************************************)
(* What an optimiser of constraint programs may do.  A session is a program *)
(* before (raw) and after (opt) optimisation, over a small field, with the   *)
(* inputs to consider and what the real interpreter makes of opt on them.    *)
(*   - The honest prover of opt computes what the honest prover of raw does:  *)
(*     same outcome, same outputs, same logged values, and never comes to a   *)
(*     statement which reads a variable nothing has defined.                  *)
(*   - Every output which satisfies opt also satisfies raw: whatever a prover *)
(*     of opt can claim, a prover of raw could have claimed.                   *)
(* Variables have the same number in both programs.                          *)
(***************************************************************************)
EXTENDS Ir, Json, IOUtils, SequencesExt

Sessions == JsonDeserialize(IOEnv.CASES)

VARIABLES c, r, B, asg, pend, width, pc
vars == <<c, r, B, asg, pend, width, pc>>

X == Sessions[c]
O == X.opt
W == X.raw
R == X.runs[r]

---------------------------------------------------------------------------
(* The honest prover, with the values logged                               *)
RECURSIVE RunFrom(_,_,_,_)
RunFrom(S, asg0, k, log) ==
  IF k > Len(S.st) THEN [st |-> "ok", asg |-> asg0, log |-> log]
  ELSE LET s == S.st[k] IN
       IF s.t = "l"
       THEN IF \E i \in DOMAIN s.e : ~Known(asg0, s.e[i]) THEN [st |-> "stuck", asg |-> asg0, log |-> log]
            ELSE RunFrom(S, asg0, k + 1, log \o [i \in DOMAIN s.e |-> Lin(S, asg0, s.e[i])])
       ELSE LET x == Execute1(S, asg0, s, <<>>)
            IN  IF x.st # "ok" THEN [st |-> x.st, asg |-> x.asg, log |-> log] ELSE RunFrom(S, x.asg, k + 1, log)
RunOf(S, enc) == RunFrom(S, Enter(S, enc), 1, <<>>)
OutOf(S, a) == [i \in DOMAIN S.rets |-> a[S.rets[i]]]

---------------------------------------------------------------------------
(* Is there an assignment which extends asg and satisfies what is pending?   *)
\* depth first, through at most n nodes; whole says that no alternative was left out so far
RECURSIVE Search(_,_,_,_,_)
Search(S, bs, todo, n, whole) ==
  IF todo = <<>> THEN IF whole THEN "no" ELSE "unknown"
  ELSE IF todo[1].pend = <<>> THEN "yes"
  ELSE IF n = 0 THEN "unknown"
  ELSE LET a == todo[1].asg pd == todo[1].pend
           ch == Choices(S, bs, a, pd, <<>>)
           next == SetToSeq({p \in {Propagate(S, bs, Extend(a, x), pd) : x \in ch.alts} : ~p.dead})
       IN  Search(S, bs, next \o Tail(todo), n - 1, whole /\ ch.complete)
Solve(S, a, n) ==
  LET bs == Booleans(S) p == Propagate(S, bs, a, AllConstraints(S))
  IN  IF p.dead THEN "no" ELSE Search(S, bs, <<p>>, n, TRUE)

\* the raw program on the same inputs with the same outputs: first with every variable as it is in opt
Liftable(a) ==
  LET out == AssignAll(Enter(W, R.enc), W.rets, OutOf(O, a), 1)
      all == SubSeq([v \in 1..W.n |-> IF v \in DOMAIN a /\ a[v] # NA THEN a[v] ELSE out[v]], 1, W.n)
  IN  IF Solve(W, all, 4) = "yes" THEN "yes" ELSE Solve(W, out, 60)

---------------------------------------------------------------------------
JudgeHonest ==
  LET raw == RunOf(W, R.enc) opt == RunOf(O, R.enc) IN
  CASE raw.st = "stuck" -> "ok"   \* not a program the compiler can emit
    [] R.st = "panic" -> "the interpreter crashes on the optimised program"
    [] opt.st = "stuck" -> "the optimised program reads a variable nothing defines"
    [] raw.st = "ok" /\ opt.st # "ok" -> "the optimised program fails where the original succeeds"
    [] raw.st = "fail" /\ opt.st = "ok" /\ ~X.block -> "the optimised program succeeds where the original fails"
    [] raw.st = "ok" /\ OutOf(O, opt.asg) # OutOf(W, raw.asg) -> "the optimised program has other outputs"
    [] raw.st = "ok" /\ opt.log # raw.log -> "the optimised program logs other values"
    [] raw.st = "ok" /\ ~X.block /\ \E i \in DOMAIN O.args : opt.asg[O.args[i]] # raw.asg[W.args[i]] -> "the optimised program has other arguments"
    [] R.st # opt.st -> "the interpreter does not do what the directives and constraints define"
    [] R.st = "ok" /\ R.out # OutOf(O, opt.asg) -> "the interpreter gives other outputs"
    [] OTHER -> "ok"

Report(w) == IF w = "ok" THEN TRUE
             ELSE PrintT("@@C07|" \o ToString(X.id) \o "|" \o ToString(r) \o "|" \o w \o "|" \o ToString(asg'))
Note(k) == PrintT("##" \o k \o "|" \o ToString(X.id) \o "|" \o ToString(r))
Closed(p) == IF p.dead THEN "dead" ELSE IF p.pend # <<>> THEN "open" ELSE "done"

Init == /\ c \in DOMAIN Sessions /\ r \in DOMAIN Sessions[c].runs
        /\ B = {} /\ asg = <<>> /\ pend = <<>> /\ width = 1 /\ pc = "start"

Honest ==
  /\ pc = "start" /\ pc' = "enter" /\ asg' = asg
  /\ UNCHANGED <<c, r, B, pend, width>>
  /\ Report(JudgeHonest) /\ Note("honest")

EnterInputs ==
  /\ pc = "enter"
  /\ \E bs \in {Booleans(O)} : \E p \in {Propagate(O, bs, Enter(O, R.enc), AllConstraints(O))} :
         B' = bs /\ asg' = p.asg /\ pend' = p.pend /\ pc' = Closed(p)
  /\ UNCHANGED <<c, r, width>>

Choose ==
  /\ pc = "open"
  /\ \E ch \in {Choices(O, B, asg, pend, <<>>)} :
     LET n == Cardinality(ch.alts)
         all == width * n <= X.budget
         alts == IF all THEN ch.alts ELSE {CHOOSE a \in ch.alts : TRUE}
     IN  /\ IF all /\ ch.complete THEN TRUE ELSE Note("bounded")
         /\ \E a \in alts : \E p \in {Propagate(O, B, Extend(asg, a), pend)} :
                  asg' = p.asg /\ pend' = p.pend /\ pc' = Closed(p)
         /\ width' = (IF all THEN width * n ELSE width)
  /\ UNCHANGED <<c, r, B>>

\* outputs nothing constrains can be anything
Open == {i \in DOMAIN O.rets : asg[O.rets[i]] = NA}
Guess ==
  /\ pc = "done" /\ Open # {}
  /\ LET v == O.rets[CHOOSE i \in Open : TRUE] IN \E x \in FieldValues(O) : asg' = [asg EXCEPT ![v] = x]
  /\ UNCHANGED <<c, r, B, pend, width, pc>>

Judge ==
  /\ pc = "done" /\ Open = {} /\ pc' = "end" /\ asg' = asg
  /\ \E l \in {Liftable(asg)} :
       /\ IF l = "no" THEN Report("outputs satisfy the optimised program and not the original") ELSE TRUE
       /\ Note(IF l = "unknown" THEN "bounded" ELSE "proof")
  /\ UNCHANGED <<c, r, B, pend, width>>

End == /\ pc \in {"dead", "end"} /\ pc' = "over" /\ asg' = <<>> /\ pend' = <<>> /\ UNCHANGED <<c, r, B, width>>
       /\ (pc = "dead" => Note("dead"))
Next == Honest \/ EnterInputs \/ Choose \/ Guess \/ Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================

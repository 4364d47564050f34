----------------------------- MODULE ZokProver -----------------------------
(***************************************************************************)
(* What provers can do with a compiled program, against what the program   *)
(* means.  A session is a program (ZokLang) with its compiled form (Ir) and *)
(* some runs: encoded inputs, possibly not the encoding of any values, and  *)
(* what the real interpreter made of them.                                  *)
(*   - The honest prover: the real witness must be the one the directives   *)
(*     and constraints define, satisfy every constraint and hold the inputs *)
(*     and the program's value (C06).                                       *)
(*   - Any prover: the state machine extends the inputs by every assignment *)
(*     which satisfies the constraints.  A satisfying assignment must hold  *)
(*     the program's value, there must be none if the execution must fail   *)
(*     or the inputs are no values of the declared types (C05).             *)
(***************************************************************************)
EXTENDS ZokLang, Ir, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.CASES)

VARIABLES c, r, B, asg, pend, width, depth, pc
vars == <<c, r, B, asg, pend, width, depth, pc>>

X == Sessions[c]
S == X.ir
R == X.runs[r]

---------------------------------------------------------------------------
(* Encodings: values as sequences of field elements                        *)
RECURSIVE Enc(_), EncAll(_,_)
EncAll(vs, i) == IF i > Len(vs) THEN <<>> ELSE Enc(vs[i]) \o EncAll(vs, i + 1)
Enc(v) == CASE v.k = "b" -> << IF v.b THEN <<1>> ELSE <<>> >>
            [] v.k \in {"f", "u"} -> <<v.n>>
            [] OTHER -> EncAll(v.s, 1)

\* reads a value of type t from enc at position i: [ok, v, i]
RECURSIVE Dec(_,_,_), DecAll(_,_,_,_,_)
DecAll(ts, enc, i, j, acc) ==
  IF j > Len(ts) THEN [ok |-> TRUE, vs |-> acc, i |-> i]
  ELSE LET d == Dec(ts[j], enc, i) IN IF d.ok THEN DecAll(ts, enc, d.i, j + 1, Append(acc, d.v)) ELSE [ok |-> FALSE]
Dec(t, enc, i) ==
  CASE t.k = "f" -> [ok |-> TRUE, v |-> Fld(enc[i]), i |-> i + 1]
    [] t.k = "b" -> IF enc[i] \in {<<>>, <<1>>} THEN [ok |-> TRUE, v |-> Bool(enc[i] # <<>>), i |-> i + 1] ELSE [ok |-> FALSE]
    [] t.k = "u" -> IF BLt(enc[i], BPow2(t.w)) THEN [ok |-> TRUE, v |-> UInt(t.w, enc[i]), i |-> i + 1] ELSE [ok |-> FALSE]
    [] t.k = "a" -> LET d == DecAll([x \in 1..t.n |-> t.t], enc, i, 1, <<>>) IN IF d.ok THEN [ok |-> TRUE, v |-> Arr(d.vs), i |-> d.i] ELSE d
    [] t.k = "t" -> LET d == DecAll(t.ts, enc, i, 1, <<>>) IN IF d.ok THEN [ok |-> TRUE, v |-> Tup(d.vs), i |-> d.i] ELSE d
    [] t.k = "s" -> LET d == DecAll(t.ts, enc, i, 1, <<>>) IN IF d.ok THEN [ok |-> TRUE, v |-> Struct(t.n, t.fs, d.vs), i |-> d.i] ELSE d

Inputs == DecAll(X.ts, R.enc, 1, 1, <<>>)
\* what the program gives: [typed, hard, soft, out]
Expected ==
  IF ~Inputs.ok THEN [typed |-> FALSE, hard |-> TRUE, soft |-> FALSE, out |-> <<>>]
  ELSE LET x == Run(X.prog, Inputs.vs)
       IN  [typed |-> TRUE, hard |-> x.hard, soft |-> x.soft, out |-> IF x.hard THEN <<>> ELSE Enc(x.v)]

---------------------------------------------------------------------------
(* The honest prover                                                       *)
Outputs(a) == [i \in DOMAIN S.rets |-> a[S.rets[i]]]
PublicValues == SelectSeq([i \in DOMAIN S.args |-> IF S.pub[i] THEN R.enc[i] ELSE NA], LAMBDA v : v # NA)

JudgeHonest ==
  LET e == Expected
      h == Execute(S, R.enc, R.wit)
      bad == {k \in DOMAIN S.st : S.st[k].t = "c" /\ ~Holds(S, R.wit, S.st[k])}
  IN  CASE R.st = "fail" ->
             IF h.st = "ok" THEN "failed although the directives satisfy every constraint"
             ELSE IF ~e.hard /\ ~e.soft THEN "found no witness for an execution which must succeed"
             ELSE "ok"
        [] R.st = "ok" ->
             IF NA \in {R.wit[v] : v \in DOMAIN R.wit} THEN "the witness misses a variable"
             ELSE IF bad # {} THEN "the witness does not satisfy the constraints"
             ELSE IF R.wit[1] # <<1>> \/ [i \in DOMAIN S.args |-> R.wit[S.args[i]]] # R.enc THEN "the witness does not hold the inputs"
             ELSE IF h.st # "ok" \/ h.asg # R.wit THEN "the witness is not the one the directives define"
             ELSE IF R.pub # PublicValues \o Outputs(R.wit) THEN "wrong public values"
             ELSE IF e.hard THEN "found a witness for an execution which must fail"
             ELSE IF Outputs(R.wit) # e.out THEN "wrong output"
             ELSE "ok"
        [] OTHER -> "crashed"

\* a satisfying assignment, possibly with variables left open
JudgeAny(a) ==
  LET e == Expected IN
  IF ~e.typed THEN "a proof exists for inputs which are not of the declared types"
  ELSE IF e.hard THEN "a proof exists of an execution which must fail"
  ELSE IF NA \in {a[S.rets[i]] : i \in DOMAIN S.rets} THEN "a proof exists with any output"
  ELSE IF Outputs(a) # e.out THEN "a proof exists of a wrong output"
  ELSE "ok"

Report(prop, w) ==
  IF w = "ok" THEN TRUE
  ELSE PrintT("@@" \o prop \o "|" \o ToString(X.id) \o "|" \o ToString(r) \o "|" \o w \o "|" \o
              ToString([expected |-> Expected, assignment |-> asg']))
Note(k) == PrintT("##" \o k \o "|" \o ToString(X.id) \o "|" \o ToString(r))

Closed(p) == IF p.dead THEN "dead" ELSE IF p.pend = <<>> THEN "done" ELSE "open"

---------------------------------------------------------------------------
Init == /\ c \in DOMAIN Sessions /\ r \in DOMAIN Sessions[c].runs
        /\ B = {} /\ asg = <<>> /\ pend = <<>> /\ width = 1 /\ depth = 0 /\ pc = "start"

Honest ==
  /\ pc = "start"
  /\ pc' = IF X.any THEN "enter" ELSE "end"
  /\ UNCHANGED <<c, r, B, asg, pend, width, depth>>
  /\ IF X.honest THEN Report("C06", JudgeHonest) /\ Note("honest") ELSE TRUE

EnterInputs ==
  /\ pc = "enter"
  /\ \E bs \in {Booleans(S)} : \E p \in {Propagate(S, bs, Enter(S, R.enc), AllConstraints(S))} :
         B' = bs /\ asg' = p.asg /\ pend' = p.pend /\ pc' = Closed(p)
  /\ UNCHANGED <<c, r, width, depth>>

\* as long as the number of assignments stays in the budget every choice is explored; after that, and for the first
\* X.skip choices, only what the real witness holds
Agrees(a) == R.wit # <<>> /\ \A v \in DOMAIN a : R.wit[v] = a[v]
Choose ==
  /\ pc = "open"
  /\ \E ch \in {Choices(S, B, asg, pend, R.wit)} :
     LET n == Cardinality(ch.alts)
         all == depth >= X.skip /\ width * n <= X.budget
         alts == IF all THEN ch.alts ELSE IF R.wit = <<>> THEN {CHOOSE a \in ch.alts : TRUE}
                 ELSE {a \in ch.alts : Agrees(a)}
     IN  /\ IF all /\ ch.complete THEN TRUE ELSE IF depth = 0 \/ width * n > X.budget THEN Note("bounded") ELSE TRUE
         /\ \E a \in alts : \E p \in {Propagate(S, B, Extend(asg, a), pend)} :
                  asg' = p.asg /\ pend' = p.pend /\ pc' = Closed(p)
         /\ width' = (IF all THEN width * n ELSE width)
         /\ depth' = depth + 1
  /\ UNCHANGED <<c, r, B>>

Judge ==
  /\ pc = "done"
  /\ pc' = "end"
  /\ asg' = asg
  /\ Report("C05", JudgeAny(asg))
  /\ Note("proof")
  /\ UNCHANGED <<c, r, B, pend, width, depth>>

End == /\ pc \in {"dead", "end"} /\ pc' = "over" /\ asg' = <<>> /\ pend' = <<>> /\ UNCHANGED <<c, r, B, width, depth>>
       /\ (pc = "dead" => Note("dead"))
Next == Honest \/ EnterInputs \/ Choose \/ Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================

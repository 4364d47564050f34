------------------------------ MODULE Circom ------------------------------
(***************************************************************************)
(* The files for circom's tools: constraint systems (r1cs, version 1) and     *)
(* witnesses (wtns, version 2), as sequences of bytes.  A session is a         *)
(* compiled program S.prog, the r1cs file written for it, and executions: the   *)
(* assignment computed and the wtns file written.                               *)
(* The machine reads the r1cs file, then for each execution the wtns file, and    *)
(* ZoKrates' own witness file and its JSON form.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bytes

Sessions == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, wires
vars == <<c, k, wires>>
S == Sessions[c]
B == S.r1cs
None == [ok |-> FALSE]

\* the sections of a file: [ty, from, len], or <<>> if they do not add up to it
RECURSIVE Sections(_,_)
Sections(b, at) ==
  IF at = Len(b) + 1 THEN <<>>
  ELSE IF at + 11 > Len(b) THEN <<[ty |-> -1, from |-> 0, len |-> 0]>>
  ELSE LET n == LE(b, at + 4, 8) IN
       IF n = Huge \/ at + 12 + n - 1 > Len(b) THEN <<[ty |-> -1, from |-> 0, len |-> 0]>>
       ELSE <<[ty |-> LE(b, at, 4), from |-> at + 12, len |-> n]>> \o Sections(b, at + 12 + n)
WellFormed(b, magic, version, tys) ==
  /\ Len(b) >= 12 /\ SubSeq(b, 1, 4) = magic /\ LE(b, 5, 4) = version
  /\ LET s == Sections(b, 13) IN
     /\ LE(b, 9, 4) = Len(s) /\ Len(s) = Cardinality(tys) /\ {s[i].ty : i \in DOMAIN s} = tys
Sec(b, ty) == LET s == Sections(b, 13) IN s[CHOOSE i \in DOMAIN s : s[i].ty = ty]

---------------------------------------------------------------------------
(* r1cs: header (1), constraints (2), labels (3)                             *)
R1cs == <<114, 49, 99, 115>>
\* the linear combination at at: [ts: (wire, coefficient) in order, next]
RECURSIVE Terms(_,_,_,_)
Terms(b, at, n, fs) == IF n = 0 THEN <<>> ELSE << <<LE(b, at, 4), SubSeq(b, at + 4, at + 3 + fs)>> >> \o Terms(b, at + 4 + fs, n - 1, fs)
LinAt(b, at, fs) == LET n == LE(b, at, 4) IN [ts |-> Terms(b, at + 4, n, fs), next |-> at + 4 + n * (4 + fs)]
RECURSIVE Constraints(_,_,_,_)
Constraints(b, at, end, fs) ==
  IF at >= end THEN <<>>
  ELSE LET x == LinAt(b, at, fs) y == LinAt(b, x.next, fs) z == LinAt(b, y.next, fs)
       IN  <<[l |-> x.ts, r |-> y.ts, o |-> z.ts, next |-> z.next]>> \o Constraints(b, z.next, end, fs)

Cons == SelectSeq(S.prog.st, LAMBDA s : s.t = "c")
\* the wires which every program has, in order: one, outputs, public arguments, private arguments
Pub == SelectSeq(S.prog.args, LAMBDA a : ~a[2])
Prv == SelectSeq(S.prog.args, LAMBDA a : a[2])
First == <<0>> \o SubSeq([i \in 1..S.prog.rc |-> -i], 1, S.prog.rc) \o [i \in DOMAIN Pub |-> Pub[i][1]] \o [i \in DOMAIN Prv |-> Prv[i][1]]
Pairs(is, fs) == {<<is[j][1], fs[j][1]>> : j \in DOMAIN is}
\* constraint i of the program is constraint x of the file
SameLin(is, fs) == Len(is) = Len(fs) /\ \A j \in DOMAIN is : is[j][2] = fs[j][2]
Same(i, x) == SameLin(i.l, x.l) /\ SameLin(i.r, x.r) /\ SameLin(i.o, x.o)
Header(b) ==
  LET h == Sec(b, 1) fs == LE(b, h.from, 4) at == h.from + 4 + fs IN
  [len |-> h.len, fs |-> fs, prime |-> SubSeq(b, h.from + 4, at - 1), wires |-> LE(b, at, 4), out |-> LE(b, at + 4, 4),
   pub |-> LE(b, at + 8, 4), prv |-> LE(b, at + 12, 4), labels |-> LE(b, at + 16, 8), cons |-> LE(b, at + 24, 4)]

Bad(what) == PrintT("@@C10|" \o ToString(S.id) \o "|" \o ToString(k) \o "|" \o what)
Check(ok, what) == IF ok THEN TRUE ELSE Bad(what)

Init == c \in DOMAIN Sessions /\ k = 0 /\ wires = {}
\* what is wrong with the r1cs file, and the wires of the variables
ReadR1cs ==
  IF ~WellFormed(B, R1cs, 1, {1, 2, 3}) THEN [bad |-> "the sections do not make up the file", map |-> {}]
  ELSE
  LET h == Header(B) IN
  IF h.fs # S.size \/ h.prime # S.prime \/ h.len # 32 + h.fs THEN [bad |-> "the header does not describe the field", map |-> {}]
  ELSE
  LET s == Sec(B, 2)
      xs == Constraints(B, s.from, s.from + s.len, h.fs)
      is == Cons
  IN
  IF Len(xs) # Len(is) \/ h.cons # Len(is) \/ (xs # <<>> /\ xs[Len(xs)].next # s.from + s.len) THEN [bad |-> "the number of constraints is wrong", map |-> {}]
  ELSE IF \E i \in DOMAIN is : ~Same(is[i], xs[i]) THEN [bad |-> "a constraint has other coefficients", map |-> {}]
  ELSE
  LET m == {<<First[i], i - 1>> : i \in DOMAIN First} \cup
           UNION {Pairs(is[i].l, xs[i].l) \cup Pairs(is[i].r, xs[i].r) \cup Pairs(is[i].o, xs[i].o) : i \in DOMAIN is}
      n == Cardinality(m)
      lab == Sec(B, 3)
  IN
  IF Cardinality({x[1] : x \in m}) # n \/ Cardinality({x[2] : x \in m}) # n THEN [bad |-> "a wire is two variables, or a variable two wires", map |-> {}]
  ELSE IF {x[2] : x \in m} # 0..(n - 1) \/ h.wires # n \/ h.labels # n \/ h.out # S.prog.rc \/ h.pub # Len(Pub) \/ h.prv # Len(Prv)
       THEN [bad |-> "the header does not count the wires", map |-> {}]
  ELSE IF lab.len # 8 * n \/ \E i \in 0..(n - 1) : LE(B, lab.from + 8 * i, 8) # i THEN [bad |-> "the labels are not those of the wires", map |-> {}]
  ELSE [bad |-> "", map |-> m]
Program ==
  /\ k = 0
  /\ \E x \in {ReadR1cs} : Check(x.bad = "", "r1cs: " \o x.bad) /\ wires' = x.map /\ k' = (IF x.bad = "" THEN 1 ELSE Len(S.runs) + 1)
  /\ UNCHANGED c

---------------------------------------------------------------------------
(* wtns: header (1), values (2): value i is that of wire i                   *)
Wtns == <<119, 116, 110, 115>>
ReadWtns(b, wit) ==
  IF ~WellFormed(b, Wtns, 2, {1, 2}) THEN "the sections do not make up the file"
  ELSE
  LET h == Sec(b, 1) v == Sec(b, 2) fs == LE(b, h.from, 4) n == LE(b, h.from + 4 + fs, 4) IN
  IF fs # S.size \/ h.len # 8 + fs \/ SubSeq(b, h.from + 4, h.from + 3 + fs) # S.prime THEN "the header does not describe the field"
  ELSE IF n # Cardinality(wires) \/ v.len # n * fs THEN "the number of values is not that of the wires"
  ELSE IF \E w \in wires : ~\E i \in DOMAIN wit : wit[i][1] = w[1] /\ SubSeq(b, v.from + fs * w[2], v.from + fs * (w[2] + 1) - 1) = wit[i][2]
       THEN "the value of a wire is not that of its variable"
  ELSE ""
---------------------------------------------------------------------------
(* ZoKrates' own file: the number of entries, then 8 bytes for the variable   *)
(* and the bytes of its value; what is read back; and the JSON object          *)
IdBytes(i) == IF i >= 0 THEN [j \in 1..8 |-> IF j <= 3 THEN (i \div 256^(j - 1)) % 256 ELSE 0]
              ELSE [j \in 1..8 |-> 255 - IF j <= 3 THEN ((-1 - i) \div 256^(j - 1)) % 256 ELSE 0]
Name(i) == IF i = 0 THEN "~one" ELSE IF i > 0 THEN "_" \o ToString(i - 1) ELSE "~out_" \o ToString(-1 - i)
ReadNative(r) ==
  LET n == Len(r.wit) w == 8 + S.size b == r.native IN
  IF Len(b) # 8 + n * w \/ LE(b, 1, 8) # n THEN "the file does not have one entry for each variable"
  ELSE IF {SubSeq(b, 9 + i * w, 8 + (i + 1) * w) : i \in 0..(n - 1)} # {IdBytes(r.wit[i][1]) \o r.wit[i][2] : i \in 1..n} THEN "an entry is not that of its variable"
  ELSE IF {r.back[i] : i \in DOMAIN r.back} # {r.wit[i] : i \in 1..n} THEN "what is read back is another witness"
  ELSE IF Len(r.json) # n \/ {r.json[i] : i \in DOMAIN r.json} # {<<Name(r.wit[i][1]), r.wit[i][2]>> : i \in 1..n} THEN "the JSON form is another witness"
  ELSE ""
Witness ==
  /\ k \in DOMAIN S.runs
  /\ LET w == ReadWtns(S.runs[k].wtns, S.runs[k].wit) IN Check(w = "", "wtns: " \o w)
  /\ LET w == ReadNative(S.runs[k]) IN Check(w = "", "witness: " \o w)
  /\ k' = k + 1 /\ UNCHANGED <<c, wires>>
Next == Program \/ Witness
Spec == Init /\ [][Next]_vars
=============================================================================

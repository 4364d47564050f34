------------------------------ MODULE ZokFile ------------------------------
(***************************************************************************)
(* The binary format of compiled programs, and the machine which writes it.   *)
(* The writer appends the body behind room left for the header, then goes     *)
(* back and writes the header; it may stop after any byte.  What a reader     *)
(* makes of the bytes on disk at any point is either nothing or the whole     *)
(* program.  The observations are of the real reader on those same bytes.     *)
(*                                                                            *)
(* Header: magic "ZOK\0", version 3, curve (4 bytes), number of constraints,  *)
(* number of return values, then type, offset and length of the sections      *)
(* parameters, constraints, solvers and modules.  Bodies are CBOR.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bytes

Sessions == JsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, i
vars == <<c, pc, i>>
S == Sessions[c]
N == S.names

---------------------------------------------------------------------------
(* CBOR: one data item of b at position at.                                  *)
(* [k, v, s, e]: kind u(nsigned) n(egative) y (bytes) t(ext) a(rray) m(ap)    *)
(* s(imple), or x (not one); the item is b[s]..b[e - 1].                      *)
Broken(at) == [k |-> "x", v |-> <<>>, s |-> at, e |-> at]
RECURSIVE Item(_,_), Items(_,_,_), Until(_,_)
\* n items from at on: the sequence of them, ending early at a broken one
Items(b, at, n) ==
  IF n = 0 THEN <<>>
  ELSE LET x == Item(b, at) IN
       IF x.k = "x" THEN <<x>> ELSE <<x>> \o Items(b, x.e, n - 1)
\* items up to the byte which ends a sequence of unknown length (and that byte, as an item of kind e)
Until(b, at) ==
  IF at <= Len(b) /\ b[at] = 255 THEN <<[k |-> "e", v |-> <<>>, s |-> at, e |-> at + 1]>>
  ELSE LET x == Item(b, at) IN
       IF x.k = "x" THEN <<x>> ELSE <<x>> \o Until(b, x.e)
Item(b, at) ==
  IF at > Len(b) THEN Broken(at)
  ELSE IF b[at] \in {159, 191} THEN
    LET xs == Until(b, at + 1) IN
    IF xs[Len(xs)].k = "x" THEN Broken(at)
    ELSE [k |-> IF b[at] = 159 THEN "a" ELSE "m", v |-> SubSeq(xs, 1, Len(xs) - 1), s |-> at, e |-> xs[Len(xs)].e]
  ELSE
  LET major == b[at] \div 32
      info == b[at] % 32
      ext == IF info < 24 THEN 0 ELSE IF info <= 27 THEN 2^(info - 24) ELSE 0
      from == at + 1 + ext
  IN IF info > 27 \/ from - 1 > Len(b) THEN Broken(at)
     ELSE
     LET arg == IF ext = 0 THEN info ELSE BE(b, at + 1, ext) IN
     CASE major = 0 -> [k |-> "u", v |-> IF arg = Huge THEN SubSeq(b, at + 1, from - 1) ELSE arg, s |-> at, e |-> from]
       [] major = 1 -> [k |-> "n", v |-> arg, s |-> at, e |-> from]
       [] major \in {2, 3} ->
            IF arg = Huge \/ from + arg - 1 > Len(b) THEN Broken(at)
            ELSE [k |-> IF major = 2 THEN "y" ELSE "t", v |-> SubSeq(b, from, from + arg - 1), s |-> at, e |-> from + arg]
       [] major \in {4, 5} ->
            IF arg = Huge \/ arg > Len(b) THEN Broken(at)
            ELSE LET xs == Items(b, from, IF major = 4 THEN arg ELSE 2 * arg)
                     end == IF xs = <<>> THEN from ELSE xs[Len(xs)].e
                 IN IF \E j \in DOMAIN xs : xs[j].k = "x" THEN Broken(at)
                    ELSE [k |-> IF major = 4 THEN "a" ELSE "m", v |-> xs, s |-> at, e |-> end]
       [] major = 7 -> [k |-> "s", v |-> arg, s |-> at, e |-> from]
       [] OTHER -> Broken(at)

\* the member of a map called n
Has(x, n) == x.k = "m" /\ \E j \in 1..(Len(x.v) \div 2) : x.v[2 * j - 1].k = "t" /\ x.v[2 * j - 1].v = n
Get(x, n) == IF Has(x, n) THEN x.v[2 * (CHOOSE j \in 1..(Len(x.v) \div 2) : x.v[2 * j - 1].k = "t" /\ x.v[2 * j - 1].v = n)]
             ELSE Broken(0)
Truth(x) == IF x.k = "s" /\ x.v = 21 THEN "yes" ELSE IF x.k = "s" /\ x.v = 20 THEN "no" ELSE "?"
IntOf(x) == IF x.k = "u" THEN x.v ELSE IF x.k = "n" THEN -1 - x.v ELSE "?"
Slice(b, x) == SubSeq(b, x.s, x.e - 1)

---------------------------------------------------------------------------
(* Programs                                                                  *)
IsVar(x, v) == Has(x, N.id) /\ IntOf(Get(x, N.id)) = v
\* a linear combination: a list of variables and coefficients (little endian bytes)
IsLin(x, l) ==
  LET ts == Get(x, N.value) IN
  /\ ts.k = "a" /\ Len(ts.v) = Len(l)
  /\ \A j \in DOMAIN l : /\ ts.v[j].k = "a" /\ Len(ts.v[j].v) = 2
                         /\ IsVar(ts.v[j].v[1], l[j][1])
                         /\ ts.v[j].v[2].k = "y" /\ ts.v[j].v[2].v = l[j][2]
IsQuad(x, l, r) == IsLin(Get(x, N.left), l) /\ IsLin(Get(x, N.right), r)
IsParam(x, a) == IsVar(Get(x, N.id), a[1]) /\ Truth(Get(x, N.private)) = (IF a[2] THEN "yes" ELSE "no")

\* a reference to a solver of the table: its index, or Huge
Reference(x) == IF Has(x, N.Ref) /\ Get(Get(x, N.Ref), N.index).k = "u" THEN Get(Get(x, N.Ref), N.index).v ELSE Huge
Signature(x) == LET g == Get(Get(x, N.Ref), N.signature) IN IF g.k = "a" /\ Len(g.v) = 2 THEN <<IntOf(g.v[1]), IntOf(g.v[2])>> ELSE <<>>

\* the item x of b is the statement st, its solver looked up in table if it is a reference
RECURSIVE IsStatement(_,_,_,_)
IsStatement(b, x, st, table) ==
  CASE st.t = "c" ->
         LET y == Get(x, N.Constraint) IN
         IsQuad(Get(y, N.quad), st.l, st.r) /\ IsLin(Get(y, N.lin), st.o) /\ Slice(b, x) = st.cbor
    [] st.t = "d" ->
         LET y == Get(x, N.Directive)
             ins == Get(y, N.inputs) outs == Get(y, N.outputs) sol == Get(y, N.solver)
         IN /\ ins.k = "a" /\ Len(ins.v) = Len(st.i) /\ \A j \in DOMAIN st.i : IsQuad(ins.v[j], st.i[j][1], st.i[j][2])
            /\ outs.k = "a" /\ Len(outs.v) = Len(st.o) /\ \A j \in DOMAIN st.o : IsVar(outs.v[j], st.o[j])
            /\ IF st.z
               THEN LET r == Reference(sol) IN
                    /\ r # Huge /\ r + 1 \in DOMAIN table
                    /\ Slice(b, table[r + 1]) = st.solver
                    /\ Signature(sol) = st.g
               ELSE Slice(b, sol) = st.solver
    [] st.t = "l" ->
         LET y == Get(Get(x, N.Log), N.expressions) IN
         /\ y.k = "a" /\ Len(y.v) = Len(st.e) /\ Slice(b, x) = st.cbor
         /\ \A j \in DOMAIN st.e : LET e == y.v[j].v[2] IN
              e.k = "a" /\ Len(e.v) = Len(st.e[j]) /\ \A m \in DOMAIN st.e[j] : IsLin(e.v[m], st.e[j][m])
    [] OTHER ->
         LET y == Get(Get(x, N.Block), N.inner) IN
         y.k = "a" /\ Len(y.v) = Len(st.b) /\ \A j \in DOMAIN st.b : IsStatement(b, y.v[j], st.b[j], table)

\* the data items from at to end
RECURSIVE Stream(_,_,_)
Stream(b, at, end) ==
  IF at >= end THEN <<>>
  ELSE LET x == Item(b, at) IN
       IF x.k = "x" \/ x.e > end THEN <<Broken(at)>> ELSE <<x>> \o Stream(b, x.e, end)

---------------------------------------------------------------------------
(* Files                                                                     *)
HeaderSize == 100
Section(b, k) == LET at == 21 + 20 * (k - 1) IN [ty |-> LE(b, at, 4), from |-> LE(b, at + 4, 8), len |-> LE(b, at + 12, 8)]
GoodHeader(b) ==
  /\ Len(b) >= HeaderSize
  /\ SubSeq(b, 1, 4) = <<90, 79, 75, 0>> /\ SubSeq(b, 5, 8) = <<3, 0, 0, 0>> /\ SubSeq(b, 9, 12) = S.curve
  /\ \A k \in 1..4 : Section(b, k).ty = k

\* the bytes b are those of the program p, down to the last: "whole"; nothing to a reader: "none"
Body(b) ==
  [args |-> Item(b, Section(b, 1).from + 1),
   sts |-> Stream(b, Section(b, 2).from + 1, Section(b, 2).from + Section(b, 2).len + 1),
   solvers |-> Item(b, Section(b, 3).from + 1),
   modules |-> Item(b, Section(b, 4).from + 1)]
Sound(y) == y.args.k = "a" /\ y.solvers.k = "a" /\ Get(y.modules, N.modules).k = "m" /\ \A j \in DOMAIN y.sts : y.sts[j].k = "m"
IsProgram(b, y, p) ==
  /\ Len(y.args.v) = Len(p.args) /\ \A j \in DOMAIN p.args : IsParam(y.args.v[j], p.args[j])
  /\ Slice(b, y.args) = p.argsc
  /\ Slice(b, y.modules) = p.modules
  /\ Len(y.sts) = Len(p.st) /\ \A j \in DOMAIN p.st : IsStatement(b, y.sts[j], p.st[j], y.solvers.v)
  /\ LE(b, 17, 4) = p.rc
  \* the table holds every solver once
  /\ Len(y.solvers.v) = Cardinality({Slice(b, y.solvers.v[j]) : j \in DOMAIN y.solvers.v})
Read(b) ==
  IF ~GoodHeader(b) THEN "none"
  ELSE LET y == Body(b) IN IF ~Sound(y) THEN "none" ELSE IF IsProgram(b, y, S.mem) THEN "whole" ELSE "other"

\* contiguous, in order, to the end of the file; the header counts the constraints
Laid(b) ==
  LET sec(k) == Section(b, k) IN
  /\ sec(1).from >= HeaderSize
  /\ \A k \in 2..4 : sec(k).from = sec(k - 1).from + sec(k - 1).len
  /\ sec(4).from + sec(4).len = Len(b)
  /\ LE(b, 13, 4) = Cardinality({j \in DOMAIN S.mem.st : S.mem.st[j].t = "c"})

---------------------------------------------------------------------------
(* Saving a program whose private inputs or hints no constraint mentions is   *)
(* reported (the file is not to be used).                                     *)
VarsOf(l) == {l[j][1] : j \in DOMAIN l}
RECURSIVE Fold(_,_)
\* the variables still unconstrained after the statements
Fold(sts, un) ==
  IF sts = <<>> THEN un
  ELSE LET st == Head(sts) IN
       Fold(Tail(sts),
         CASE st.t = "c" -> un \ (VarsOf(st.l) \cup VarsOf(st.r) \cup VarsOf(st.o))
           [] st.t = "d" -> un \cup {st.o[j] : j \in DOMAIN st.o}
           [] st.t = "l" -> un
           [] OTHER -> Fold(st.b, un))
Unconstrained == Fold(S.mem.st, {S.mem.args[j][1] : j \in {j \in DOMAIN S.mem.args : S.mem.args[j][2]}})

---------------------------------------------------------------------------
(* The machine                                                               *)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* (nothing is written beyond the end of what is there)
Put(d, at, bs) == LET n == Max(Len(d), at + Len(bs)) IN
                  SubSeq(d, 1, Min(at, Len(d))) \o bs \o SubSeq(d, at + Len(bs) + 1, n)
RECURSIVE Disk(_,_)
\* after k whole writes and j bytes of the next
Disk(k, j) == LET d == IF k = 0 THEN <<>> ELSE Disk(k - 1, Len(S.ops[k][2])) IN
              IF k >= Len(S.ops) THEN d ELSE Put(d, S.ops[k + 1][1], SubSeq(S.ops[k + 1][2], 1, j))
File == LET n == Len(S.ops) IN Disk(n - 1, Len(S.ops[n][2]))

\* what the real reader made of something: "none", "whole" (the program, running as it does in memory) or "other"
Seen(k) == IF S.seen[k + 1].none THEN "none" ELSE IF S.seen[k + 1].same THEN "whole" ELSE "other"

Bad(what) == PrintT("@@C09|" \o ToString(S.id) \o "|" \o ToString(pc) \o "|" \o ToString(i) \o "|" \o what)
Check(ok, what) == IF ok THEN TRUE ELSE Bad(what)

Init == c \in DOMAIN Sessions /\ pc = "write" /\ i = 1
\* a crash between or within writes
Crash ==
  /\ pc = "write" /\ i <= Len(S.crashes)
  /\ LET x == S.crashes[i] r == Read(Disk(x[1], x[2])) IN
       /\ Check(r # "other", "a file cut short while writing holds another program")
       /\ Check(Seen(x[3]) = r, "the reader of a file cut short gives " \o Seen(x[3]) \o ", not " \o r)
  /\ i' = i + 1 /\ UNCHANGED <<c, pc>>
Saved ==
  /\ pc = "write" /\ i > Len(S.crashes)
  /\ LET f == File IN
       /\ Check(Read(f) = "whole", "the file does not hold the program")
       /\ Check(GoodHeader(f) /\ Laid(f), "the header does not describe the file")
       /\ Check(Seen(S.whole) = "whole", "the reader does not give the program")
       /\ Check(S.saved = (Unconstrained = {}), "unconstrained variables: " \o ToString(Unconstrained) \o ", accepted: " \o ToString(S.saved))
  /\ pc' = "damage" /\ i' = 1 /\ UNCHANGED c
\* the file loses its end, a statement of it is damaged, its first bytes change, or it gets longer
Damage ==
  /\ pc = "damage" /\ i <= Len(S.cuts) + Len(S.torn) + Len(S.flips) + 1
  /\ LET n == Len(S.cuts) + Len(S.torn) IN
     IF i <= Len(S.cuts) THEN Check(Seen(S.cuts[i][2]) = "none", "a truncated file is read")
     ELSE IF i <= n THEN Check(Seen(S.torn[i - Len(S.cuts)][2]) = "none", "a file with a damaged statement is read")
     ELSE IF i <= n + Len(S.flips) THEN Check(Seen(S.flips[i - n][2]) = "none", "a file of another kind is read")
     ELSE Check(Seen(S.longer) = "whole", "bytes after the program change it")
  /\ i' = i + 1 /\ UNCHANGED <<c, pc>>
Next == Crash \/ Saved \/ Damage
Spec == Init /\ [][Next]_vars
=============================================================================

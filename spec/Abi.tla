-------------------------------- MODULE Abi --------------------------------
(***************************************************************************)
(* The boundary between JSON and field elements.  A signature is a sequence  *)
(* of types; a value of a type is laid out as field elements in order.       *)
(* The machine of one session: the interface file of the program is read,      *)
(* then for each input document: parse, encode, execute (the program returns    *)
(* its arguments in the order X.perm), decode, render.                           *)
(* Types: f, b, u (width w), a (n elements of t), t (ts), s (n, g, fs, ts).       *)
(* JSON: s (characters cs: 0..15 digits, 16 the letter x, -1 others), b, n, z,    *)
(* a, o.  Scalars are naturals as in BigNat, booleans <<>> and <<1>>.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigNat, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.CASES)
VARIABLES c, r, pc, val, enc
vars == <<c, r, pc, val, enc>>
X == Sessions[c]
R == X.runs[r]
P == X.p

---------------------------------------------------------------------------
RECURSIVE Value(_,_), Concat(_), All(_)
Value(ds, radix) == IF ds = <<>> THEN <<>>
                    ELSE BAdd(BMul(Value(SubSeq(ds, 1, Len(ds) - 1), radix), BFromInt(radix)), BFromInt(ds[Len(ds)]))
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Good(v) == [st |-> "ok", v |-> v]
Bad == [st |-> "err", v |-> <<>>]
\* accepted as v, or rejected: not for this specification to decide
Maybe(v) == [st |-> "any", v |-> v]
All(rs) == IF \E i \in DOMAIN rs : rs[i].st = "err" THEN Bad
           ELSE [st |-> IF \E i \in DOMAIN rs : rs[i].st = "any" THEN "any" ELSE "ok", v |-> [i \in 1..Len(rs) |-> rs[i].v]]

Decimal(cs) == cs # <<>> /\ \A i \in DOMAIN cs : cs[i] \in 0..9
HexDigits(cs) == cs # <<>> /\ \A i \in DOMAIN cs : cs[i] \in 0..15
Prefixed(cs) == Len(cs) > 2 /\ cs[1] = 0 /\ cs[2] = 16 /\ HexDigits(SubSeq(cs, 3, Len(cs)))
Bound(ty) == IF ty.k = "f" THEN P ELSE BPow2(ty.w)
InRange(ty, v) == IF BLt(v, Bound(ty)) THEN Good(v) ELSE IF ty.k = "f" THEN Maybe(BMod(v, P)) ELSE Bad
\* a number is written in decimal, or in hexadecimal after 0x
Number(ty, cs) ==
  IF Decimal(cs) THEN InRange(ty, Value(cs, 10))
  ELSE IF Prefixed(cs) THEN InRange(ty, Value(SubSeq(cs, 3, Len(cs)), 16))
  ELSE IF HexDigits(cs) THEN LET x == InRange(ty, Value(cs, 16)) IN IF x.st = "ok" THEN Maybe(x.v) ELSE x
  ELSE Bad

---------------------------------------------------------------------------
RECURSIVE Parse(_,_), Count(_), Encode(_,_), Decode(_,_), Render(_,_), Offset(_,_), TypeTree(_), Same(_,_)
Components(ty) == IF ty.k = "a" THEN SubSeq([i \in 1..ty.n |-> ty.t], 1, ty.n) ELSE ty.ts
Member(o, n) == o.vs[CHOOSE i \in DOMAIN o.ks : o.ks[i] = n]
Parse(ty, j) ==
  CASE ty.k \in {"f", "u"} -> IF j.j = "s" THEN Number(ty, j.cs) ELSE Bad
    [] ty.k = "b" -> IF j.j = "b" THEN Good(IF j.v THEN <<1>> ELSE <<>>) ELSE Bad
    [] ty.k \in {"a", "t"} ->
         LET ts == Components(ty) IN
         IF j.j = "a" /\ Len(j.es) = Len(ts) THEN All([i \in 1..Len(ts) |-> Parse(ts[i], j.es[i])]) ELSE Bad
    [] OTHER ->
         IF j.j = "o" /\ Len(j.ks) = Len(ty.fs) /\ {j.ks[i] : i \in DOMAIN j.ks} = {ty.fs[i] : i \in DOMAIN ty.fs}
         THEN All([i \in 1..Len(ty.fs) |-> Parse(ty.ts[i], Member(j, ty.fs[i]))]) ELSE Bad
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Count(ty) == IF ty.k \in {"f", "b", "u"} THEN 1 ELSE Sum([i \in 1..Len(Components(ty)) |-> Count(Components(ty)[i])])
Encode(ty, v) == IF ty.k \in {"f", "b", "u"} THEN <<v>>
                 ELSE LET ts == Components(ty) IN Concat([i \in 1..Len(ts) |-> Encode(ts[i], v[i])])
Offset(ts, i) == IF i = 1 THEN 0 ELSE Offset(ts, i - 1) + Count(ts[i - 1])
Decode(ty, e) ==
  IF ty.k \in {"f", "b", "u"} THEN e[1]
  ELSE LET ts == Components(ty) IN [i \in 1..Len(ts) |-> Decode(ts[i], SubSeq(e, Offset(ts, i) + 1, Offset(ts, i) + Count(ts[i])))]

RECURSIVE DigitsOf(_,_,_)
DigitsOf(v, radix, n) == IF v = <<>> /\ n <= 0 THEN <<>>
                         ELSE LET d == BDivMod(v, BFromInt(radix)) IN DigitsOf(d[1], radix, n - 1) \o <<BToInt(d[2])>>
Render(ty, v) ==
  CASE ty.k = "f" -> [j |-> "s", cs |-> DigitsOf(v, 10, 1)]
    [] ty.k = "u" -> [j |-> "s", cs |-> <<0, 16>> \o DigitsOf(v, 16, ty.w \div 4)]
    [] ty.k = "b" -> [j |-> "b", v |-> v = <<1>>]
    [] ty.k = "s" -> [j |-> "o", ks |-> ty.fs, vs |-> [i \in 1..Len(ty.ts) |-> Render(ty.ts[i], v[i])]]
    [] OTHER -> LET ts == Components(ty) IN [j |-> "a", es |-> [i \in 1..Len(ts) |-> Render(ts[i], v[i])]]

\* equality of JSON trees: the order of an object's members means nothing
Same(a, b) ==
  /\ a.j = b.j
  /\ CASE a.j = "s" -> a.cs = b.cs
       [] a.j = "b" -> a.v = b.v
       [] a.j = "a" -> Len(a.es) = Len(b.es) /\ \A i \in DOMAIN a.es : Same(a.es[i], b.es[i])
       [] a.j = "o" -> Len(a.ks) = Len(b.ks) /\ {a.ks[i] : i \in DOMAIN a.ks} = {b.ks[i] : i \in DOMAIN b.ks}
                       /\ \A i \in DOMAIN a.ks : Same(a.vs[i], Member(b, a.ks[i]))
       [] OTHER -> TRUE

---------------------------------------------------------------------------
(* The interface file: what it must say of a type, as nested sequences       *)
TypeTree(ty) ==
  CASE ty.k = "f" -> <<"field">>
    [] ty.k = "b" -> <<"bool">>
    [] ty.k = "u" -> <<"u" \o ToString(ty.w)>>
    [] ty.k = "a" -> <<"array", ty.n, TypeTree(ty.t)>>
    [] ty.k = "t" -> <<"tuple", [i \in 1..Len(ty.ts) |-> TypeTree(ty.ts[i])]>>
    [] OTHER -> <<"struct", ty.n, ty.g, [i \in 1..Len(ty.ts) |-> <<ty.fs[i], TypeTree(ty.ts[i])>>]>>
OutType == IF Len(X.perm) = 1 THEN X.tys[X.perm[1]] ELSE [k |-> "t", ts |-> [i \in 1..Len(X.perm) |-> X.tys[X.perm[i]]]]
OutVal(v) == IF Len(X.perm) = 1 THEN v[X.perm[1]] ELSE [i \in 1..Len(X.perm) |-> v[X.perm[i]]]
AbiOk == /\ X.abi.ins = [i \in 1..Len(X.tys) |-> <<X.names[i], X.public[i], TypeTree(X.tys[i])>>]
         /\ X.abi.out = TypeTree(OutType)

Top(doc) == IF doc.j = "a" /\ Len(doc.es) = Len(X.tys) THEN All([i \in 1..Len(X.tys) |-> Parse(X.tys[i], doc.es[i])]) ELSE Bad

Report(w, ok, e) == IF ok THEN TRUE ELSE PrintT("@@C08|" \o ToString(X.id) \o "|" \o ToString(r) \o "|" \o w \o "|" \o ToString(e))
Init == c \in DOMAIN Sessions /\ r \in DOMAIN Sessions[c].runs /\ pc = "abi" /\ val = <<>> /\ enc = <<>>
Interface == pc = "abi" /\ pc' = "parse" /\ UNCHANGED <<c, r, val, enc>>
             /\ (r = 1 => Report("the interface file does not describe the entry point", AbiOk, X.abi))
ParseDoc ==
  /\ pc = "parse" /\ UNCHANGED <<c, r, enc>>
  /\ \E p \in {Top(R.doc)} :
       /\ pc' = (IF R.st = "inputs" \/ p.st = "err" THEN "over" ELSE "encode")
       /\ val' = p.v
       /\ Report("an input document which is no value of the signature is accepted", p.st = "err" => R.st = "inputs", R.st)
       /\ Report("an input document which is a value of the signature is rejected", R.st = "inputs" => p.st # "ok", p.v)
EncodeVal ==
  /\ pc = "encode" /\ UNCHANGED <<c, r, val>> /\ pc' = "run"
  /\ \E e \in {Concat([i \in 1..Len(X.tys) |-> Encode(X.tys[i], val[i])])} :
       /\ enc' = e
       /\ Report("the encoding of the inputs differs", R.enc = e, e)
Run ==
  /\ pc = "run" /\ UNCHANGED <<c, r, val, enc>> /\ pc' = "decode"
  /\ Report("the execution fails", R.st = "ok", R.st)
  /\ Report("the outputs differ", R.st = "ok" => R.raw = Encode(OutType, OutVal(val)), Encode(OutType, OutVal(val)))
DecodeOut ==
  /\ pc = "decode" /\ UNCHANGED <<c, r, val, enc>> /\ pc' = "over"
  /\ Report("the rendered output differs", R.st = "ok" => (R.decoded /\ Same(R.out, Render(OutType, Decode(OutType, Encode(OutType, OutVal(val)))))), R.out)
Next == Interface \/ ParseDoc \/ EncodeVal \/ Run \/ DecodeOut
Spec == Init /\ [][Next]_vars

\* of the specification itself: decoding undoes encoding, parsing undoes rendering, and the layout has no gaps
Laws == pc = "run" => \A i \in DOMAIN X.tys :
          /\ Len(Encode(X.tys[i], val[i])) = Count(X.tys[i])
          /\ Decode(X.tys[i], Encode(X.tys[i], val[i])) = val[i]
          /\ Parse(X.tys[i], Render(X.tys[i], val[i])) = Good(val[i])
=============================================================================

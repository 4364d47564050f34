--------------------------- MODULE BigNatCheck ---------------------------
(* Compares the overridden operators (BigNat) with the plain definitions   *)
(* (BigNatPure, the same text under another name) on the samples of the    *)
(* input file: a sequence of <<a, b, m>> of numbers.                       *)
EXTENDS BigNat, TLC, Json, IOUtils
P == INSTANCE BigNatPure
Samples == JsonDeserialize(IOEnv.CASES)
VARIABLE i
Agree(s) ==
  LET a == s[1] b == s[2] m == s[3] n == s[4] IN
  /\ Assert(BAdd(a, b) = P!BAdd(a, b), <<"add", s>>)
  /\ Assert(BMul(a, b) = P!BMul(a, b), <<"mul", s>>)
  /\ Assert(BCmp(a, b) = P!BCmp(a, b), <<"cmp", s>>)
  /\ Assert((BLe(b, a) => BSub(a, b) = P!BSub(a, b)), <<"sub", s>>)
  /\ Assert(BDivMod(a, m) = P!BDivMod(a, m), <<"divmod", s>>)
  /\ Assert(BDivMod(b, m) = P!BDivMod(b, m), <<"divmod", s>>)
  /\ Assert(BModExp(a, BFromInt(n), m) = P!BModExp(a, P!BFromInt(n), m), <<"modexp", s>>)
  /\ Assert(BBits(a, n) = P!BBits(a, n), <<"bits", s>>)
  /\ Assert(BFromBits(BBits(a, n)) = P!BFromBits(P!BBits(a, n)), <<"frombits", s>>)
  /\ Assert(BXor(a, b, n) = P!BXor(a, b, n), <<"xor", s>>)
  /\ Assert(BAnd(a, b, n) = P!BAnd(a, b, n), <<"and", s>>)
  /\ Assert(BOr(a, b, n) = P!BOr(a, b, n), <<"or", s>>)
  /\ Assert(BPow2(n) = P!BPow2(n), <<"pow2", s>>)
  /\ Assert(BHalf(a) = P!BHalf(a), <<"half", s>>)
  /\ Assert(BFromInt(n) = P!BFromInt(n) /\ BToInt(BFromInt(n)) = n, <<"int", s>>)
  /\ LET t == <<<<1, a>>, <<2, b>>>> f == <<b, m>> IN
     Assert(BDot(t, f, m) = P!BDot(t, f, m), <<"dot", s>>)
Init == i \in 1..Len(Samples)
Next == i' = 0 /\ i > 0 /\ Agree(Samples[i])
=============================================================================

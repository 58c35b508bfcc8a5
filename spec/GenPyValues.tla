------------------------------ MODULE GenPyValues ------------------------------
EXTENDS PyValues, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
gvars == <<vars, hist, done>>
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
N == {"a", "b", "c", "d", "e"}
T == {"t", "u"}
Ints == {"0", "1", "-1", "5", "2147483647", "-2147483648"}
Dbl == {"zero", "nz", "one", "tenth", "den", "max", "nan", "inf", "ninf"}
Off == {"0", "1", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615"}
U16 == {"0", "1", "255", "256", "32768", "65535"}
AnyKey == [f \in KeyFields |-> Pick(Ints)]
AnyVec == [f \in VecFields |-> Pick(Dbl)]
AnyNode == [key |-> AnyKey, page |-> AnyKey, off |-> Pick(Off), size |-> Pick(Ints), n |-> Pick(Ints)]
Bytes(k) == [i \in 1..k |-> Pick({0, 1, 65, 127, 128, 194, 255})]
AnyText(lim) == Bytes(Pick({0, 1, 5, lim - 1, lim, lim, lim + 1}))
AnyBytes == Bytes(Pick({0, 1, 2, 5, 40}))
Val(kind, a) == CASE kind = "key" -> Pick(Ints)
                  [] kind = "vec" -> Pick(Dbl)
                  [] kind = "node" -> (IF a = "off" THEN Pick(Off) ELSE Pick(Ints))
                  [] a \in DOMAIN TextLimit -> AnyText(TextLimit[a])
                  [] a = "byret" -> Pick({"r0", "r1", "r2"})
                  [] OTHER -> Pick(U16)
Rest == [f \in HeaderFields |-> IF f \in DOMAIN TextLimit THEN <<>> ELSE IF f = "byret" THEN "r0" ELSE "0"]
        @@ [min |-> [f \in VecFields |-> "zero"], max |-> [f \in VecFields |-> "zero"], rest |-> ""]
GInit == VInit /\ hist = <<>> /\ done = FALSE
H(x) == hist' = Append(hist, x) /\ UNCHANGED done
Skip(x) == UNCHANGED vars /\ H(x)
Live == {n \in N : Has(n)}
Of(k) == {n \in Live : Kind(n) \in k}
Whole(n) == names[n][2] = ""
(* no two names of a list refer to the same thing *)
Lists == {ns \in UNION {[1..k -> Live] : k \in 1..2} : \A i, j \in DOMAIN ns : i # j => names[ns[i]] # names[ns[j]]}
DoMake == \E n \in {Pick(N)}, k \in {Pick({"key", "node", "vec", "chars", "header", "header"})} :
    \E v \in {CASE k = "key" -> AnyKey [] k = "node" -> AnyNode [] k = "vec" -> AnyVec [] k = "chars" -> AnyBytes [] k = "header" -> Rest} :
    Make(n, k, v) /\ H([op |-> "Make", n |-> n, kind |-> k, v |-> v])
Owners == {n \in Live : Whole(n) /\ Parts(Kind(n)) # {}}
DoPart == \E m \in {Pick(Owners)}, n \in {Pick(N)} : \E a \in {Pick(Parts(Kind(m)))} : Part(n, m, a) /\ H([op |-> "Part", n |-> n, m |-> m, a |-> a])
DoPut == \E n \in {Pick(Of(Kinds \ {"chars"}))} : \E a \in {Pick(Writable(Kind(n)))} : \E val \in {Val(Kind(n), a)} :
    /\ Put(n, a, val) \/ (~PutOk(n, a, val) /\ UNCHANGED vars)
    /\ H([op |-> "Put", n |-> n, a |-> a, val |-> val])
DoPutPart == \E n \in {Pick(Owners)} : \E a \in {Pick(Parts(Kind(n)))} :
    IF Of({PartKind(Kind(n))}) = {} THEN DoMake
    ELSE \E m \in {Pick(Of({PartKind(Kind(n))}))} : PutPart(n, a, m) /\ H([op |-> "PutPart", n |-> n, a |-> a, m |-> m])
DoPoke == \E n \in {Pick(Of({"chars"}))} : \E b \in {Pick({0, 200, 255})} :
    IF Len(Value(n)) > 0 /\ Pick(1..2) = 1 THEN \E i \in {Pick(1..Len(Value(n)))} : Poke(n, i, b) /\ H([op |-> "Poke", n |-> n, i |-> i, b |-> b])
    ELSE Extend(n, <<b, 7>>) /\ H([op |-> "Extend", n |-> n, bs |-> <<b, 7>>])
DoSave == \E t \in {Pick(T)}, ns \in {Pick(Lists)} : Save(t, ns) /\ H([op |-> "Save", t |-> t, ns |-> ns, proto |-> Pick(2..5)])
DoLoad == \E t \in {Pick(DOMAIN saved)} : \E ns \in {Pick({ms \in [1..Len(saved[t]) -> N] : \A i, j \in DOMAIN ms : i # j => ms[i] # ms[j]})} :
    Load(ns, t) /\ H([op |-> "Load", t |-> t, ns |-> ns, far |-> Pick(1..3) = 1])
DoCopy == \E m \in {Pick(Live)}, n \in {Pick(N)} : Copy(n, m) /\ H([op |-> "Copy", n |-> n, m |-> m, how |-> Pick({"copy", "deepcopy"})])
DoEq == \E a \in {Pick(Of({"key", "vec", "chars"}))} : \E b \in {Pick({n \in Live : Kind(n) = Kind(a)})} : Skip([op |-> "Eq", a |-> a, b |-> b])
Try(S, A) == IF S # {} THEN A ELSE DoMake
Step == \E r \in {Pick(1..100)} :
    CASE r <= 15 \/ Live = {} -> DoMake
      [] r <= 25 -> Try(Owners, DoPart)
      [] r <= 50 -> Try(Of(Kinds \ {"chars"}), DoPut)
      [] r <= 56 -> Try(Owners, DoPutPart)
      [] r <= 62 -> Try(Of({"chars"}), DoPoke)
      [] r <= 75 -> DoSave
      [] r <= 88 -> Try(DOMAIN saved, DoLoad)
      [] r <= 94 -> DoCopy
      [] OTHER -> Try(Of({"key", "vec", "chars"}), DoEq)
GStep == Len(hist) < Depth /\ Step
GEnd == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GStep \/ GEnd]_gvars
Emit == done => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================

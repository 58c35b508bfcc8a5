------------------------------ MODULE MCPyValues ------------------------------
EXTENDS PyValues, TLC
CONSTANTS MaxObjs, T
N == {"a", "b"}
K(v) == [d |-> v]
Small(k) == Len(objs) + k <= MaxObjs
Step ==
    \/ Small(1) /\ \E n \in N : Make(n, "key", K(0))
    \/ Small(1) /\ \E n \in N : Make(n, "node", [key |-> K(0), page |-> K(1), n |-> 0])
    \/ Small(1) /\ \E n \in N : Make(n, "chars", <<0>>)
    \/ \E n, m \in N, a \in {"key", "page"} : Part(n, m, a)
    \/ \E n \in N, v \in 0..1 : Has(n) /\ Kind(n) = "key" /\ Put(n, "d", v)
    \/ \E n \in N, v \in 0..1 : v = 1 /\ Has(n) /\ Kind(n) = "node" /\ Put(n, "n", 1)
    \/ \E n, m \in N, a \in {"key", "page"} : PutPart(n, a, m)
    \/ \E n \in N, v \in 0..1 : Poke(n, 1, v)
    \/ \E n \in N : Has(n) /\ Kind(n) = "chars" /\ Len(Value(n)) < 2 /\ Extend(n, <<1>>)
    \/ \E t \in T, ns \in {<<"a">>, <<"a", "b">>} : Save(t, ns)
    \/ \E t \in T, ns \in {<<"a">>, <<"b", "a">>} : t \in DOMAIN saved /\ Small(Len(ns)) /\ Load(ns, t)
    \/ Small(1) /\ \E n, m \in N : Copy(n, m)
Spec == VInit /\ [][Step]_vars
(* new objects are what was saved, or made, and no old one changes with them *)
Fresh == [][Len(objs') > Len(objs) => SameAs(SubSeq(objs', 1, Len(objs)), objs)]_vars
=============================================================================

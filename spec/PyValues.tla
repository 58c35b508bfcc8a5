-------------------------------- MODULE PyValues --------------------------------
(* The values the Python interface can send to other processes: keys, nodes,        *)
(* vectors, buffers of bytes and headers, as objects with attributes.               *)
(* A name refers to an object or to a part of one (a node's key, a header's bound):  *)
(* parts are shared with their owner.  Saving takes a snapshot that can be loaded    *)
(* any number of times, here or in another process; what is loaded is a new object   *)
(* that has nothing to do with the old one.  Numbers are tokens where their          *)
(* arithmetic doesn't matter.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"key", "node", "vec", "chars", "header"}
(* attributes that are objects themselves *)
Parts(kind) == CASE kind = "node" -> {"key", "page"} [] kind = "header" -> {"min", "max"} [] OTHER -> {}
PartKind(kind) == IF kind = "node" THEN "key" ELSE "vec"
KeyFields == {"d", "x", "y", "z"}
VecFields == {"x", "y", "z"}
NodeFields == {"off", "size", "n"}
TextLimit == [guid |-> 16, sys |-> 32, gen |-> 32]
HeaderFields == {"source", "genc", "day", "year", "byret"} \cup DOMAIN TextLimit
Writable(kind) == CASE kind = "key" -> KeyFields [] kind = "vec" -> VecFields [] kind = "node" -> NodeFields [] kind = "header" -> HeaderFields [] kind = "chars" -> {}

VARIABLES objs,   \* sequence of [kind, v]: v a record of attributes, or a sequence of bytes
          names,  \* name -> <<object, part or "">>
          saved   \* token -> sequence of [kind, v]
vars == <<objs, names, saved>>
VInit == objs = <<>> /\ names = [n \in {} |-> 0] /\ saved = [t \in {} |-> 0]

Has(n) == n \in DOMAIN names
Name(n, at) == names' = [m \in DOMAIN names \cup {n} |-> IF m = n THEN at ELSE names[m]]
Kind(n) == LET r == names[n] IN IF r[2] = "" THEN objs[r[1]].kind ELSE PartKind(objs[r[1]].kind)
Value(n) == LET r == names[n] IN IF r[2] = "" THEN objs[r[1]].v ELSE objs[r[1]].v[r[2]]
Change(n, v) == LET r == names[n] IN
    objs' = [objs EXCEPT ![r[1]].v = IF r[2] = "" THEN v ELSE [@ EXCEPT ![r[2]] = v]]

Make(n, kind, v) == /\ kind \in Kinds
                    /\ objs' = Append(objs, [kind |-> kind, v |-> v]) /\ Name(n, <<Len(objs) + 1, "">>) /\ UNCHANGED saved
(* a part under a name of its own *)
Part(n, m, a) == /\ Has(m) /\ names[m][2] = "" /\ a \in Parts(Kind(m))
                 /\ Name(n, <<names[m][1], a>>) /\ UNCHANGED <<objs, saved>>
PutOk(n, a, val) == a \in DOMAIN TextLimit => Len(val) <= TextLimit[a]
Put(n, a, val) == /\ Has(n) /\ a \in Writable(Kind(n)) /\ PutOk(n, a, val)
                  /\ Change(n, [Value(n) EXCEPT ![a] = val]) /\ UNCHANGED <<names, saved>>
(* a part is set to another object's value: the objects stay apart *)
PutPart(n, a, m) == /\ Has(n) /\ Has(m) /\ names[n][2] = "" /\ a \in Parts(Kind(n)) /\ Kind(m) = PartKind(Kind(n))
                    /\ Change(n, [Value(n) EXCEPT ![a] = Value(m)]) /\ UNCHANGED <<names, saved>>
Poke(n, i, b) == /\ Has(n) /\ Kind(n) = "chars" /\ i \in 1..Len(Value(n))
                 /\ Change(n, [Value(n) EXCEPT ![i] = b]) /\ UNCHANGED <<names, saved>>
Extend(n, bs) == /\ Has(n) /\ Kind(n) = "chars" /\ Change(n, Value(n) \o bs) /\ UNCHANGED <<names, saved>>

Alone(n) == [kind |-> Kind(n), v |-> Value(n)]
Save(t, ns) == /\ \A i \in 1..Len(ns) : Has(ns[i])
               /\ saved' = [u \in DOMAIN saved \cup {t} |-> IF u = t THEN [i \in 1..Len(ns) |-> Alone(ns[i])] ELSE saved[u]]
               /\ UNCHANGED <<objs, names>>
Load(ns, t) == /\ t \in DOMAIN saved /\ Len(ns) = Len(saved[t]) /\ Cardinality({ns[i] : i \in 1..Len(ns)}) = Len(ns)
               /\ objs' = objs \o saved[t]
               /\ names' = [m \in DOMAIN names \cup {ns[i] : i \in 1..Len(ns)} |->
                              IF \E i \in 1..Len(ns) : ns[i] = m THEN <<Len(objs) + (CHOOSE i \in 1..Len(ns) : ns[i] = m), "">> ELSE names[m]]
               /\ UNCHANGED saved
Copy(n, m) == /\ Has(m) /\ objs' = Append(objs, Alone(m)) /\ Name(n, <<Len(objs) + 1, "">>) /\ UNCHANGED saved

Equal(n, m) == Kind(n) = Kind(m) /\ Value(n) = Value(m)

(* ---- checked on small constants: objects change only through names that refer to them *)
Apart == [][\A i \in 1..Len(objs) : objs'[i] # objs[i] => \E n \in DOMAIN names : names[n][1] = i]_vars
SameAs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].kind = b[i].kind /\ a[i].v = b[i].v
SnapshotsStay == [][\A t \in DOMAIN saved : t \in DOMAIN saved' /\ (~SameAs(saved'[t], saved[t]) => Len(objs') = Len(objs))]_vars
WellNamed == \A n \in DOMAIN names : names[n][1] \in 1..Len(objs) /\ (names[n][2] = "" \/ names[n][2] \in Parts(objs[names[n][1]].kind))
=============================================================================

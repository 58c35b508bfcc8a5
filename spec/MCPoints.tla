-------------------------------- MODULE MCPoints --------------------------------
(* The store with few names and values: collections keep one layout, objects        *)
(* change only through their own names, and bit fields are independent.             *)
EXTENDS PointStore, TLC
CONSTANTS MaxHeap, MaxCol
VARIABLES byte   \* for the bit field laws; 256 while the store runs
mvars == <<svars, byte>>
N == {"p", "q"}
C == {"c", "d"}
Fm == {6, 8}
Zeros == <<"", "00">>
Ebs == {0, 1}
Vals == {<<"Classification", 1>>, <<"Nir", 7>>, <<"Nir", 65536>>}
Init == \/ SInit(N, C) /\ byte = 256
        \/ SInit(N, C) /\ byte \in U8
Small == Len(heap) < MaxHeap
Foreign(c) == \E d \in C \ {c} : cols[d] # <<>> /\ {Col(d).ids[i] : i \in 1..Len(Col(d).ids)} \cap Members(c) # {}
Room(c, k) == cols[c] # <<>> /\ Len(Col(c).ids) + k <= MaxCol
Tups == {<<>>} \cup {<<n>> : n \in N} \cup {<<n, m>> : n \in N, m \in N}
Named(ns) == \A i \in 1..Len(ns) : Has(ns[i])
Slices == {<<<<>>, <<>>, <<>>>>, <<<<>>, <<>>, <<-1>>>>, <<<<-1>>, <<>>, <<>>>>, <<<<>>, <<0>>, <<>>>>}
Step ==
    \/ Small /\ \E n \in N, f \in Fm, e \in Ebs : New(n, f, e, Zeros[e + 1])
    \/ Small /\ \E n \in N, m \in N : Copy(n, m)
    \/ \E n \in N, m \in N : Alias(n, m)
    \/ \E n \in N, x \in Vals : Set(n, x[1], x[2]) \/ SetRefused(n, x[1], x[2])
    \/ \E n \in N, f \in Fm : Has(n) /\ ~InCol(names[n]) /\ ConvertOne(n, f)
    \/ \E c \in C, f \in Fm, e \in Ebs : ColNew(c, f, e)
    \/ \E c \in C, ns \in Tups : Named(ns) /\ Len(ns) <= MaxCol /\ ColOf(c, ns)
    \/ \E c \in C, ns \in Tups : Named(ns) /\ Room(c, Len(ns)) /\ Add(c, ns)
    \/ \E c \in C, d \in C : cols[d] # <<>> /\ Room(c, Len(Col(d).ids)) /\ AddCol(c, d)
    \/ Small /\ \E c \in C, n \in N : Room(c, 0) /\ Create(c, n, Zeros[Col(c).eb + 1])
    \/ \E c \in C, n \in N, i \in 1..MaxCol : Room(c, 0) /\ Take(c, i, n)
    \/ \E c \in C, n \in N, i \in 1..MaxCol : Room(c, 0) /\ Has(n) /\ Fits(c, At(n)) /\ Replace(c, i, n)
    \/ \E c \in C, n \in N, i \in -2..1 : Room(c, 0) /\ Has(n) /\ PutItem(c, i, n)
    \/ \E c \in C, d \in C, sl \in Slices : cols[d] # <<>> /\ Slice(c, d, sl)
    \/ \E c \in C, d \in C, sl \in Slices : cols[c] # <<>> /\ cols[d] # <<>> /\ PutSlice(c, sl, d)
    \/ \E c \in C, f \in Fm : Room(c, 0) /\ ~Foreign(c) /\ ConvertAll(c, f)
    \/ \E c \in C, x \in {<<1, 0>>, <<1>>} : Room(c, 0) /\ Bulk(c, "Classification", x)
Next == byte = 256 /\ Step /\ UNCHANGED byte
Spec == Init /\ [][Next]_mvars

(* a record length is base and extra bytes; the sizes of what is stored agree *)
Bytes == \A i \in 1..Len(heap) : heap[i].eb \in Ebs /\ heap[i].ExtraBytes = Zeros[heap[i].eb + 1]
(* only points reachable from what was named change, and never their number of extra bytes *)
ExtraKept == [][\A i \in 1..Len(heap) : heap'[i].eb = heap[i].eb /\ heap'[i].ExtraBytes = heap[i].ExtraBytes]_mvars
(* a conversion keeps what both formats have *)
Common == {"X", "Y", "Z", "Intensity", "ret", "flg", "Classification", "UserData", "ang", "PointSourceId", "GPSTime", "ExtraBytes"}
ConversionKeeps == [][\A i \in 1..Len(heap) : heap'[i].fmt # heap[i].fmt =>
                        /\ \A a \in Common : heap'[i][a] = heap[i][a]
                        /\ HasNir(heap'[i].fmt) /\ HasNir(heap[i].fmt) => heap'[i].Nir = heap[i].Nir]_mvars

P0 == NewPoint(8, 0, "")
FlagNames == DOMAIN Flags
RetNames == DOMAIN Returns
BitLaws == byte < 256 =>
    /\ \A a \in FlagNames : LET p == [P0 EXCEPT !.flg = byte] IN
         \A v \in 0..(Pow2(Flags[a][2]) - 1) :
            LET q == SetAttr(p, a, v).p IN
            /\ BitsOf(q.flg, Flags[a][1], Flags[a][2]) = v
            /\ \A b \in FlagNames \ {a} : BitsOf(q.flg, Flags[b][1], Flags[b][2]) = BitsOf(byte, Flags[b][1], Flags[b][2])
            /\ q = [p EXCEPT !.flg = q.flg]
    /\ \A a \in RetNames : LET p == [P0 EXCEPT !.ret = byte] IN
         \A v \in 0..15 :
            LET q == SetAttr(p, a, v).p IN
            /\ BitsOf(q.ret, Returns[a][1], Returns[a][2]) = v
            /\ \A b \in RetNames \ {a} : BitsOf(q.ret, Returns[b][1], Returns[b][2]) = BitsOf(byte, Returns[b][1], Returns[b][2])
            /\ q = [p EXCEPT !.ret = q.ret]
=============================================================================

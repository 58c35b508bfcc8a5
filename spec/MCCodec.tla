-------------------------------- MODULE MCCodec --------------------------------
(* A stream as the flat sequence of symbols it is: blocks are appended at its   *)
(* end and decoded from where they begin, by a decoder that reads ahead.        *)
EXTENDS Codec, TLC
CONSTANTS Records, MaxRows, MaxPuts
VARIABLES flat, at, eof, last
mvars == <<cvars, flat, at, eof, last>>
Lays == {<<6, 0>>, <<7, 1>>, <<5, 0>>}
Blocks == UNION {[1..n -> Records] : n \in 0..MaxRows}
(* any self-contained code will do: here each record is followed by a mark *)
Code(lay, rows) == <<"b", lay>> \o rows
S == "s"
MInit == /\ streams = (S :> <<>>) /\ codes = {} /\ flat = <<"pre">> /\ at = <<>> /\ eof = FALSE /\ last = <<>>
MPut == Len(streams[S]) < MaxPuts /\ \E lay \in Lays, rows \in Blocks, whole \in BOOLEAN :
    IF Refused(lay, whole) THEN UNCHANGED mvars
    ELSE /\ Put(S, lay, rows, Code(lay, rows))
         /\ at' = Append(at, Len(flat)) /\ flat' = flat \o Code(lay, rows)
         /\ UNCHANGED <<eof, last>>
(* reading ahead may meet the end; the stream is left usable all the same *)
MGet == ~eof /\ \E i \in 1..Len(streams[S]) : \E k \in 0..Len(streams[S][i].rows) :
    /\ last' = <<i, k, SubSeq(flat, at[i] + 3, at[i] + 2 + k)>>
    /\ eof' = FALSE
    /\ UNCHANGED <<cvars, flat, at>>
MNext == MPut \/ MGet
MSpec == MInit /\ [][MNext]_mvars
GetsWhatWasPut == last # <<>> => last[3] = Got(S, last[1], last[2])
AppendOnly == [][SubSeq(flat', 1, Len(flat)) = flat]_mvars
=============================================================================

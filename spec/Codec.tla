--------------------------------- MODULE Codec ---------------------------------
(* Blocks of whole records turned into their compressed form and back, in      *)
(* streams that hold several of them and in plain buffers.  A layout is         *)
(* <<format, extra bytes>>; a block is a sequence of records.                   *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES streams,   \* name -> sequence of [lay, rows, code]
          codes      \* what is known of the code: set of [lay, rows, code]
cvars == <<streams, codes>>

Supported(lay) == lay[1] \in 6..8
CInit == streams = <<>> /\ codes = {}
(* one code per block, whatever the form, and no two blocks of a layout with the same *)
CodeOk(lay, rows, code) == \A c \in codes : c.lay = lay => ((c.rows = rows) <=> (c.code = code))
Learn(lay, rows, code) == CodeOk(lay, rows, code) /\ codes' = codes \cup {[lay |-> lay, rows |-> rows, code |-> code]}

Refused(lay, whole) == ~Supported(lay) \/ ~whole
NewStream(s) == streams' = [x \in DOMAIN streams \cup {s} |-> IF x = s THEN <<>> ELSE streams[x]] /\ UNCHANGED codes
Put(s, lay, rows, code) ==
    /\ Supported(lay)
    /\ streams' = [streams EXCEPT ![s] = Append(@, [lay |-> lay, rows |-> rows, code |-> code])]
    /\ Learn(lay, rows, code)
Encode(lay, rows, code) == Supported(lay) /\ Learn(lay, rows, code) /\ UNCHANGED streams
(* the first k records of a block *)
First(rows, k) == SubSeq(rows, 1, k)
Got(s, i, k) == First(streams[s][i].rows, k)
=============================================================================

----------------------------- MODULE TraceGeometry -----------------------------
(* Recorded answers of the key and box functions are those of Keys and Geometry. *)
(* Coordinates of boxes are ranks (their order is all that matters) or, for the   *)
(* cells of keys, exact multiples of a unit.                                      *)
EXTENDS Geometry, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1
TBegin == IsEvent("Begin")

Invalid(k) == ~IsValidKey(k)
(* what a key knows about its family *)
TInfo == /\ IsEvent("KeyInfo")
         /\ E.valid = IsValidKey(E.k)
         /\ E.after = E.k
         /\ IF Invalid(E.k) THEN /\ Invalid(E.parent)
                                 /\ E.parents = <<>> /\ E.selfparents = <<>>
            ELSE /\ IF E.k[1] = 0 THEN Invalid(E.parent) ELSE E.parent = Up(E.k)
                 /\ E.selfparents = Chain(E.k)
                 /\ E.parents = Tail(Chain(E.k))
                 /\ E.down => /\ \A i \in 1..8 : E.bisect[i] = Child(E.k, i - 1)
                              /\ Len(E.children) = 8
                              /\ RangeOf(E.children) = Children(E.k)
TAt == /\ IsEvent("KeyAt")
       /\ IF Invalid(E.k) THEN E.ok => Invalid(E.v)
          ELSE IF E.d \in 0..E.k[1] THEN E.ok /\ E.v = Chain(E.k)[E.k[1] - E.d + 1]
          ELSE ~E.ok
TRel == /\ IsEvent("KeyRel")
        /\ E.childof = BelowOrSelf(E.a, E.b)
        /\ E.eq = (E.a = E.b)
        /\ E.ne = (E.a # E.b)
        /\ (E.a = E.b) => E.heq
TVec == IsEvent("KeyVec") /\ (IF Len(E.given) = 4 THEN E.ok /\ E.v = E.given ELSE ~E.ok)
TConsts == /\ IsEvent("KeyConsts") /\ E.root = Root /\ Invalid(E.inv) /\ Invalid(E.def)
(* a resolution as mantissa and exponent: one power of two less per level *)
TRes == /\ IsEvent("KeyRes")
        /\ E.res = <<E.spacing[1], E.spacing[2] - E.k[1]>>
        /\ E.at = E.res

Given(v, top) == IF Len(v) = 4 THEN <<v[1], v[2], -top, v[3], v[4], top>> ELSE v
TBox == /\ IsEvent("BoxNew")
        /\ IF Len(E.given) \in {4, 6} /\ IsBox(Given(E.given, E.top)) THEN E.ok /\ E.v = Given(E.given, E.top) ELSE ~E.ok
TMax == IsEvent("MaxBox") /\ E.v = <<-E.top, -E.top, -E.top, E.top, E.top, E.top>>
TBoxes == /\ IsEvent("BoxRel")
          /\ E.inter = Intersects(E.a, E.b)
          /\ E.cont = Contains(E.a, E.b)
          /\ E.within = Within(E.a, E.b)
THas == IsEvent("BoxHas") /\ E.v = Holds(E.a, E.p)

TCell == /\ IsEvent("KeyBox")
         /\ E.span = Span(E.min, E.max)
         /\ E.bounds = E.min \o E.max
         /\ E.v = Cell(E.k, E.min, Span(E.min, E.max))
(* off the grid: within a few units in the last place of the exact corner *)
TNear == IsEvent("KeyBoxNear") /\ \A i \in 1..6 : E.ulps[i] \in -E.tol..E.tol
TSpat == /\ IsEvent("KeySpat")
         /\ LET c == Cell(E.k, E.min, Span(E.min, E.max)) IN
            /\ E.inter = Intersects(c, E.b)
            /\ E.cont = Contains(c, E.b)
            /\ E.within = Within(c, E.b)
            /\ E.crosses = (Intersects(c, E.b) /\ ~Within(c, E.b))
            /\ E.has = Holds(c, E.p)
TNext == TBegin \/ TInfo \/ TAt \/ TRel \/ TVec \/ TConsts \/ TRes \/ TBox \/ TMax \/ TBoxes \/ THas \/ TCell \/ TNear \/ TSpat
TSpec == TInit /\ [][TNext]_l
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================

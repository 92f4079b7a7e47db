------------------------------- MODULE MCZone -------------------------------
(***************************************************************************)
(* Clocks around the changes between standard and daylight saving time:    *)
(* the UTC clock goes on, the wall clock jumps.                            *)
(***************************************************************************)
EXTENDS Zones, Emit

CONSTANTS ZoneNames, FromYear, ToYear, Before, After, StepMin

VARIABLES zone_, instant_, left_
vars == <<zone_, instant_, left_>>

Tz == T(zone_)
Internal(tz) == CASE tz = T("Europe/Berlin") -> "T_Berlin" [] tz = T("America/New_York") -> "T_NewYork"
                  [] tz = T("Pacific/Auckland") -> "T_Auckland" [] tz = T("Australia/Lord_Howe") -> "T_LordHowe"
Changes(tz) == {Starts[Internal(tz)][y] : y \in FromYear..ToYear} \cup {Ends[Internal(tz)][y] : y \in FromYear..ToYear}
Init == /\ zone_ \in ZoneNames
        /\ \E u \in Changes(Tz) : instant_ = u - Before
        /\ left_ = Before + After
Tick == /\ left_ > 0
        /\ instant_' = instant_ + StepMin /\ left_' = left_ - StepMin /\ UNCHANGED zone_
Next == Tick
Spec == Init /\ [][Next]_vars

Wall(u) == u + OffsetAt(Tz, u)
Gap == Cardinality(Offsets(Tz)) \* two offsets
Shift == LET z == ZoneTable[Internal(Tz)] IN z.dst - z.std
(* the wall clock jumps forward or back by the difference of the offsets, once, and otherwise goes with the UTC clock *)
Jumps == [][Wall(instant_') - Wall(instant_) \in {StepMin, StepMin + Shift, StepMin - Shift}]_vars
(* an instant is one of the instants of its wall clock time *)
Reads == instant_ \in Instants(Tz, Wall(instant_))
(* every wall clock time belongs to none, one or two instants; none and two only next to a change *)
Counted == \A w \in {Wall(instant_), Wall(instant_) + Shift, Wall(instant_) - Shift} :
    LET c == Cardinality(Instants(Tz, w)) IN
    /\ c \in 0..2
    /\ (c # 1 => \E u \in Changes(Tz) : w - Wall(u) > -2 * Shift /\ w - Wall(u) < 2 * Shift)
(* converting there and back *)
ThereAndBack ==
    LET v == Civil(instant_, 7, "utc")
        z == FromUtc(Tz, v)
        back == ToUtc(Tz, z)
    IN back = Some(v) \/ (back = None /\ Cardinality(Instants(Tz, Wall(instant_))) = 2)
(* the rule for any zone database, given this one, is the same *)
SameRule ==
    \A w \in {Wall(instant_), Wall(instant_) + Shift, Wall(instant_) - Shift} :
        LET v == Zoned(Civil(w, 7, "zoned"), Tz)
            near == SetToSeq({<<60 * o, 60 * OffsetAt(Tz, w - o)>> : o \in Offsets(Tz)})
        IN UtcOf(v, near) = ToUtc(Tz, v)
(* the skipped hour and the doubled hour have no UTC time *)
AtChange == instant_ \in Changes(Tz) =>
    LET w == Wall(instant_) old == Wall(instant_ - 1) IN
    IF w > old + 1 THEN \A k \in {0, 1, Shift - 1} : Instants(Tz, w - Shift + k) = {}
    ELSE \A k \in {0, 1, Shift - 1} : Cardinality(Instants(Tz, w + k)) = 2

Case(u, s) == LET c == Civil(u, s, "zoned") IN [v |-> [y |-> c.y, m |-> c.m, d |-> c.d, H |-> c.H, M |-> c.M, S |-> c.S, tz |-> Tz]]
Emitted == /\ Emit("zone", Case(Wall(instant_), 0)) /\ Emit("zone", Case(instant_, 0))
           /\ Emit("zone", Case(Wall(instant_) - Shift, 59))
           /\ (instant_ \in Changes(Tz) => /\ Emit("zone", Case(instant_ - 1, 59)) /\ Emit("zone", Case(Wall(instant_) - 1, 59))
                                           /\ Emit("zone", Case(Wall(instant_) + Shift - 1, 59)) /\ Emit("zone", Case(Wall(instant_) + Shift, 0))
                                           /\ Emit("zone", Case(Wall(instant_ - 1), 59)) /\ Emit("zone", Case(Wall(instant_ - 1) + 1, 0)))
=============================================================================

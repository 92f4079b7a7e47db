------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Checks recorded behaviour of the real library against the               *)
(* specification.  The recording is a sequence of cases; the cases are     *)
(* dealt to `Shards' machines, each of which reads its cases one after the *)
(* other and, within a program, call by call.  NoContradiction must hold.  *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

CONSTANT Shards
Recorded == ndJsonDeserialize(IOEnv.OBS)
N == Len(Recorded)

VARIABLES shard, case, call, store, bad
vars == <<shard, case, call, store, bad>>

Judge1(x) ==
    LET c == x.c o == x.o IN
    IF "crash" \in DOMAIN o THEN {"crash"} \* the process died or hung on this case
    ELSE CASE x.k = "prop" -> JudgeProp(c, o)
           [] x.k = "line" -> JudgeLine(c, o)
           [] x.k = "param" -> JudgeParam(c, o)
           [] x.k = "unfold" -> JudgeUnfold(c, o)
           [] x.k = "read" -> JudgeRead(c, o)
           [] x.k = "dt" -> JudgeDt(c, o)
           [] x.k = "dtraw" -> JudgeDtRaw(c, o)
           [] x.k = "zone" -> JudgeZone(c, o)
           [] x.k = "trig" -> JudgeTrig(c, o)
           [] x.k = "trigraw" -> JudgeTrigRaw(c, o)
           [] x.k = "deep" -> JudgeDeep(c, o)
           [] x.k = "tree" -> JudgeTree(c, o)
           [] x.k = "text" -> JudgeText(c, o)
           [] x.k = "print" -> JudgePrint(c, o)
           [] x.k = "uids" -> JudgeUids(c, o)
           [] x.k = "vt" -> JudgeVt(c, o)
IsProg(x) == x.k = "prog" /\ "log" \in DOMAIN x.o
Report(x, i, b) == IF b = {} THEN TRUE ELSE PrintT(<<"CONTRADICTION", x.id, i, b>>)
Known(x) == x.k = "read" /\ "convert" \in Wanted /\ "pool" \in DOMAIN x.o /\ KnownRead(x.o)

Init == /\ shard \in 1..Shards /\ case = shard /\ call = 1
        /\ store = StoreInit /\ bad = {}
Atomic ==
    LET x == Recorded[case] IN
    /\ ~IsProg(x)
    /\ bad' = Judge1(x)
    /\ Report(x, 0, bad')
    /\ IF Known(x) THEN PrintT(<<"KNOWN", x.id>>) ELSE TRUE
    /\ case' = case + Shards
    /\ UNCHANGED <<call, store, shard>>
Call ==
    LET x == Recorded[case]
        ev == x.o.log[call]
        last == call = Len(x.o.log)
    IN /\ IsProg(x)
       /\ bad' = IF Panicked(ev) THEN {"panic"} ELSE JudgeCall(store, ev)
       /\ Report(x, call, bad')
       /\ call' = IF last THEN 1 ELSE call + 1
       /\ case' = IF last THEN case + Shards ELSE case
       /\ store' = IF last \/ Panicked(ev) THEN StoreInit
                   ELSE Observed(store, Apply(store, ev.op, SeenOf(ev.op, ev.post)), ev.op, ev.post)
       /\ UNCHANGED shard
Next == case <= N /\ (Atomic \/ Call)
Spec == Init /\ [][Next]_vars
NoContradiction == bad = {}
=============================================================================

------------------------------- MODULE MCParam -------------------------------
(***************************************************************************)
(* A property with parameters on its way: written one after the other with *)
(* the quotes that are needed, or with more, and read again.               *)
(***************************************************************************)
EXTENDS ContentLine, Emit

CONSTANTS Alphabet, MaxLen, MaxParams, Keys_

VARIABLES given_, wire_
vars == <<given_, wire_>>
PName(i) == <<T("P"), T("X-Q"), T("CN")>>[i]
Init == given_ = <<>> /\ wire_ = <<>>
Fresh == /\ Len(given_) < MaxParams
         /\ given_' = Append(given_, <<>>) /\ wire_' = wire_
More == /\ given_ # <<>> /\ Len(given_[Len(given_)]) < MaxLen
        /\ \E c \in Alphabet : given_' = [given_ EXCEPT ![Len(given_)] = Append(@, c)]
        /\ wire_' = wire_
Next == Fresh \/ More
Spec == Init /\ [][Next]_vars

Written(i, quoted) ==
    <<SEMI>> \o PName(i) \o <<EQS>> \o (IF quoted THEN <<DQ>> \o given_[i] \o <<DQ>> ELSE given_[i])
Expect(i) == <<PName(i), IF given_[i] = <<>> THEN 0 ELSE 1, given_[i]>>
Ps == [i \in 1..Len(given_) |-> Expect(i)]
LineWith(qs) == T("X-A") \o Concat([i \in 1..Len(given_) |-> Written(i, qs[i])]) \o T(":v;w:x")
Allowed == {qs \in [1..Len(given_) -> BOOLEAN] : \A i \in 1..Len(given_) : MustQuote(given_[i]) => qs[i]}
(* every allowed way to write is read as what was meant *)
ReadBack == \A qs \in Allowed : LET l == Lex(LineWith(qs)) IN
    /\ ~l.odd /\ Param3(l.params) = SubSeq(Ps, 1, Len(Ps)) /\ l.raw = T("v;w:x")
    /\ LineFor(T("X-A"), Ps, T("v;w:x"), l, TRUE) /\ LineFor(T("X-A"), Ps, T("v;w:x"), l, FALSE)
(* without the quotes it is not *)
QuotesNeeded == \A qs \in [1..Len(given_) -> BOOLEAN] : qs \notin Allowed =>
    ~LineFor(T("X-A"), Ps, T("v;w:x"), Lex(LineWith(qs)), FALSE)
Emitted == given_ # <<>> => \A k \in Keys_ :
    Emit("prop", [k |-> T(k), v |-> T("v;w"), p |-> [i \in 1..Len(given_) |-> <<PName(i), given_[i]>>]])
=============================================================================

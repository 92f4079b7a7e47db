------------------------------- MODULE MCTypes -------------------------------
(***************************************************************************)
(* Value types: every known name and some others, with and without a VALUE *)
(* parameter, which may be set and replaced.                               *)
(***************************************************************************)
EXTENDS ContentLine, Emit

CONSTANTS OtherNames, OtherTypes, Texts

VARIABLES key_, value_, sets_
vars == <<key_, value_, sets_>>
Init == key_ \in KnownNames \cup OtherNames /\ value_ = "" /\ sets_ = 0
SetValue == sets_ < 2 /\ \E v \in TypeNames \cup OtherTypes : value_' = v /\ sets_' = sets_ + 1 /\ UNCHANGED key_
Next == SetValue
Spec == Init /\ [][Next]_vars

Pars == IF value_ = "" THEN <<>> ELSE <<<<VALUE, 1, T(value_)>>>>
Type_ == TypeOf(T(key_), Pars)
(* VALUE decides if it names a type, otherwise the name does *)
Decided == /\ (value_ \in TypeNames => Type_ = value_)
           /\ (value_ \notin TypeNames /\ key_ \in KnownNames => Type_ = ByName[key_])
           /\ (value_ \notin TypeNames /\ key_ \notin KnownNames => Type_ = NONE)
           /\ Type_ \in TypeNames \cup {NONE}
(* what is escaped on writing is unescaped on reading, whatever the type *)
Write(v) == T(key_) \o (IF value_ = "" THEN <<>> ELSE <<SEMI>> \o VALUE \o <<EQS>> \o T(value_)) \o <<COLON>>
            \o (IF Type_ = "TEXT" THEN CHOOSE e \in Encodings(T(v)) : TRUE ELSE T(v))
SameRule == \A v \in Texts : LET l == Lex(Write(v)) IN
    /\ ~l.odd /\ Meaning(l) = [n |-> T(key_), v |-> T(v), p |-> Pars]
    /\ LineFor(T(key_), Pars, T(v), l, TRUE)
(* a second VALUE would leave open which one counts *)
NeverTwo == AmbiguousType(Pars \o Pars) = (value_ # "")

Emitted == \A v \in Texts :
    Emit("vt", IF value_ = "" THEN [key |-> T(key_), text |-> T(v), otherkey |-> T("X")]
               ELSE [key |-> T(key_), value |-> T(value_), text |-> T(v), otherkey |-> T("X")])
=============================================================================

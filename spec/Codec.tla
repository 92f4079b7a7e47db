------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The TEXT value type (RFC 5545 3.3.11): which written values stand for a *)
(* value, and which value a written one stands for.                        *)
(***************************************************************************)
EXTENDS Chars

(***************************************************************************)
(* Reading: an automaton with two states, "plain" and "after a backslash". *)
(***************************************************************************)
DecodeInit == [out |-> <<>>, esc |-> FALSE]
DecodeStep(st, c) ==
    IF ~st.esc
    THEN IF c = BSL THEN [st EXCEPT !.esc = TRUE] ELSE [st EXCEPT !.out = Append(@, c)]
    ELSE [out |-> IF c \in {LowerN, UpperN} THEN Append(st.out, LF)
                  ELSE IF c \in {BSL, COMMA, SEMI, COLON} THEN Append(st.out, c)
                  ELSE st.out \o <<BSL, c>>,
          esc |-> FALSE]
DecodeEnd(st) == IF st.esc THEN Append(st.out, BSL) ELSE st.out
Decode(w) == IF Has(w, BSL) THEN DecodeEnd(FoldLeft(DecodeStep, DecodeInit, w)) ELSE w

(***************************************************************************)
(* Writing is a relation: a line feed may be written \n or \N.             *)
(***************************************************************************)
EncodeChar(c) ==
    IF c = LF THEN {<<BSL, LowerN>>, <<BSL, UpperN>>}
    ELSE IF c \in {BSL, COMMA, SEMI} THEN {<<BSL, c>>}
    ELSE {<<c>>}
RECURSIVE Encodings(_)
Encodings(v) == IF v = <<>> THEN {<<>>}
                ELSE {e \o r : e \in EncodeChar(Head(v)), r \in Encodings(Tail(v))}

(* w \in Encodings(v), decided by one walk over w *)
MatchInit == [i |-> 0, esc |-> FALSE, ok |-> TRUE]
IsEncoding(v, w) ==
    LET step(st, c) ==
            IF ~st.ok THEN st
            ELSE IF st.esc
            THEN LET j == st.i + 1 IN
                 [i |-> j, esc |-> FALSE,
                  ok |-> j <= Len(v) /\ (IF v[j] = LF THEN c \in {LowerN, UpperN} ELSE v[j] \in {BSL, COMMA, SEMI} /\ c = v[j])]
            ELSE IF c = BSL THEN [st EXCEPT !.esc = TRUE]
            ELSE LET j == st.i + 1 IN
                 [i |-> j, esc |-> FALSE, ok |-> j <= Len(v) /\ c = v[j] /\ c \notin {LF, COMMA, SEMI}]
        end == FoldLeft(step, MatchInit, w)
    IN end.ok /\ ~end.esc /\ end.i = Len(v)
=============================================================================

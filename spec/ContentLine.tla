---------------------------- MODULE ContentLine ----------------------------
(***************************************************************************)
(* A content line without its line break: name *(";" param) ":" value, or  *)
(* only a name.  Lines outside of that grammar are "odd": the              *)
(* specification does not say what they mean.                              *)
(***************************************************************************)
EXTENDS Chars, Codec, Types

LOCAL Begin == T("BEGIN:")
LOCAL End == T("END:")
BEGIN == T("BEGIN")
END_ == T("END")

LexInit == [m |-> "name", at |-> 1, name |-> <<>>, key |-> <<>>, params |-> <<>>]
LexStep(line, st, i) ==
    LET c == line[i]
        odd == [st EXCEPT !.m = "odd"]
        part == SubSeq(line, st.at, i - 1)
        add(p, m) == [st EXCEPT !.params = Append(@, p), !.m = m, !.at = i + 1]
        after(p) == \* the parameter ends here
            IF c = SEMI THEN add(p, "blank") ELSE add(p, "value")
        sep == c = SEMI \/ c = COLON
    IN CASE st.m = "value" -> st
         [] st.m = "odd" -> st
         [] st.m = "name" ->
              IF KeyChar(c) THEN st
              ELSE IF sep /\ i > 1
              THEN [st EXCEPT !.name = part, !.at = i + 1, !.m = IF c = SEMI THEN "blank" ELSE "value"]
              ELSE odd
         [] st.m = "blank" ->
              IF Blank(c) THEN st ELSE IF KeyChar(c) THEN [st EXCEPT !.m = "key", !.at = i] ELSE odd
         [] st.m = "key" ->
              IF KeyChar(c) THEN st
              ELSE IF c = EQS THEN [st EXCEPT !.m = "first", !.key = part, !.at = i + 1]
              ELSE IF sep THEN after(<<part, 0, <<>>, FALSE>>)
              ELSE odd
         [] st.m = "first" ->
              IF c = DQ THEN [st EXCEPT !.m = "quoted", !.at = i + 1]
              ELSE IF sep THEN after(<<st.key, 0, <<>>, FALSE>>)
              ELSE [st EXCEPT !.m = "bare", !.at = i]
         [] st.m = "bare" ->
              IF sep THEN after(<<st.key, 1, part, FALSE>>)
              ELSE IF c = DQ THEN odd ELSE st
         [] st.m = "quoted" ->
              IF c = DQ THEN add(<<st.key, IF part = <<>> THEN 0 ELSE 1, part, TRUE>>, "closed") ELSE st
         [] st.m = "closed" ->
              IF sep THEN [st EXCEPT !.m = IF c = SEMI THEN "blank" ELSE "value", !.at = i + 1] ELSE odd
Lex(line) ==
    LET st == FoldLeft(LAMBDA s, i : LexStep(line, s, i), LexInit, Indices(line))
        name == IF st.m = "name" THEN line ELSE st.name
    IN [odd |-> (st.m \notin {"name", "value"}) \/ name = <<>> \/ UpperText(name) \in {BEGIN, END_}
               \/ AmbiguousType(st.params),
        name |-> name,
        params |-> st.params,
        raw |-> IF st.m = "value" THEN SubSeq(line, st.at, Len(line)) ELSE <<>>]

(***************************************************************************)
(* What a line is for the reader of streams.                               *)
(***************************************************************************)
TagName(line, tag) ==
    IF Len(line) > Len(tag) /\ UpperText(SubSeq(line, 1, Len(tag))) = tag
    THEN SubSeq(line, Len(tag) + 1, Len(line)) ELSE <<>>
IsTag(line, tag) == Len(line) >= Len(tag) /\ UpperText(SubSeq(line, 1, Len(tag))) = tag
NameOk(n) == n # <<>> /\ \A i \in 1..Len(n) : KeyChar(n[i])
Classify(line) ==
    IF line = <<>> THEN [t |-> "blank"]
    ELSE IF IsTag(line, Begin)
    THEN LET n == TagName(line, Begin) IN IF NameOk(n) THEN [t |-> "begin", n |-> n] ELSE [t |-> "odd", tag |-> TRUE]
    ELSE IF IsTag(line, End)
    THEN LET n == TagName(line, End) IN IF NameOk(n) THEN [t |-> "end", n |-> n] ELSE [t |-> "odd", tag |-> TRUE]
    ELSE LET l == Lex(line) IN IF l.odd THEN [t |-> "odd", tag |-> FALSE] ELSE [t |-> "prop", l |-> l]

(***************************************************************************)
(* The property that a line means.  Properties of the parse tree are       *)
(* [n, v, p] with p a sequence of <<name, has value, value>>.              *)
(***************************************************************************)
Param3(params) == SubSeq([i \in 1..Len(params) |-> <<params[i][1], params[i][2], params[i][3]>>], 1, Len(params))
Meaning(l) ==
    [n |-> l.name,
     v |-> IF TypeOf(l.name, l.params) = "TEXT" THEN Decode(l.raw) ELSE l.raw,
     p |-> Param3(l.params)]

(***************************************************************************)
(* Writing: the lines that stand for a property with these parameters.     *)
(* pset: <<name, has value, value>>; `Ordered' asks for their order.       *)
(***************************************************************************)
MustQuote(v) == Has(v, COLON) \/ Has(v, SEMI)
ValueOn(type, v, raw) == IF type = "TEXT" THEN IsEncoding(v, raw) ELSE raw = v
ParamOn(p, w) == w[1] = p[1] /\ w[3] = p[3] /\ (MustQuote(p[3]) => w[4])
LineFor(name, params, v, l, ordered) ==
    /\ ~l.odd
    /\ l.name = name
    /\ Len(l.params) = Len(params)
    /\ IF ordered
       THEN \A i \in 1..Len(params) : ParamOn(params[i], l.params[i]) /\ l.params[i][2] = params[i][2]
       ELSE \A i \in 1..Len(params) : \E j \in 1..Len(params) : ParamOn(params[i], l.params[j])
    /\ ValueOn(TypeOf(name, params), v, l.raw)
=============================================================================

------------------------------- MODULE MCLine -------------------------------
(***************************************************************************)
(* All content lines that can be put together from a set of tokens.        *)
(***************************************************************************)
EXTENDS ContentLine, Emit

CONSTANTS Head_, Tokens, MaxTokens, AsParam

VARIABLES text, used, lex
vars == <<text, used, lex>>
Run(line, st, from) == FoldLeft(LAMBDA s, i : LexStep(line, s, i), st, [k \in 1..(Len(line) - from + 1) |-> k + from - 1])
Init == text = T(Head_) /\ used = 0 /\ lex = Run(T(Head_), LexInit, 1)
Next == \E t \in Tokens :
    /\ used < MaxTokens /\ used' = used + 1
    /\ text' = text \o T(t)
    /\ lex' = Run(text', lex, Len(text) + 1)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* A writer: one line for a property.                                      *)
(***************************************************************************)
WriteParam(p) ==
    <<SEMI>> \o p[1] \o (IF p[2] = 0 THEN <<>> ELSE <<EQS>> \o (IF MustQuote(p[3]) THEN <<DQ>> \o p[3] \o <<DQ>> ELSE p[3]))
WriteValue(m) == IF TypeOf(m.n, m.p) = "TEXT" THEN CHOOSE e \in Encodings(m.v) : TRUE ELSE m.v
WriteLine(m) == m.n \o Concat([i \in 1..Len(m.p) |-> WriteParam(m.p[i])]) \o <<COLON>> \o WriteValue(m)

SameAsLex ==
    LET l == Lex(text) IN
    /\ (lex.m \notin {"name", "value"} => l.odd)
    /\ (~l.odd => lex.params = l.params /\ (lex.m = "value" => lex.name = l.name))
(* written again, the line means the same *)
Stable ==
    LET l == Lex(text) IN
    ~l.odd => LET m == Meaning(l) line == WriteLine(m) w == Lex(line) IN
              ~w.odd /\ Meaning(w) = m /\ LineFor(m.n, m.p, m.v, w, TRUE)
(* no parameter of a line without quotes holds a separator, no value or name is lost *)
Sound ==
    LET l == Lex(text) IN
    ~l.odd =>
    /\ \A i \in 1..Len(l.params) : ~l.params[i][4] => ~MustQuote(l.params[i][3])
    /\ \A i \in 1..Len(l.params) : ~Has(l.params[i][3], DQ)
    /\ \A i \in 1..Len(l.params) : (l.params[i][2] = 0) = (l.params[i][3] = <<>>)
    /\ StartsWith(text, l.name)
    /\ (l.raw # <<>> => SubSeq(text, Len(text) - Len(l.raw), Len(text)) = <<COLON>> \o l.raw)
(* once a value has begun nothing changes the name or the parameters *)
Settled == [][lex.m = "value" => lex'.m = "value" /\ lex'.name = lex.name /\ lex'.params = lex.params]_vars
Emitted == /\ Emit("line", [text |-> text])
           /\ (AsParam => Emit("param", [text |-> SubSeq(text, Len(T(Head_)) + 1, Len(text))]))
=============================================================================

------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reading a stream of content lines: a push-down automaton.               *)
(*   stack  open components, innermost first; each [n, props, comps]       *)
(*   roots  the root components closed so far                              *)
(*   st     "run"   reading                                                *)
(*          "stop"  something that is no component stands at the root      *)
(*          "err"   a component was closed under another name              *)
(*          "odd"   the specification does not say what the text means     *)
(***************************************************************************)
EXTENDS Folding, ContentLine

Open(n) == [n |-> n, props |-> <<>>, comps |-> <<>>]
ReaderInit == [stack |-> <<>>, roots |-> <<>>, st |-> "run"]

BeginLine(r, n) == [r EXCEPT !.stack = <<Open(n)>> \o @]
EndLine(r, n) ==
    IF r.stack = <<>> THEN [r EXCEPT !.st = "stop"]
    ELSE IF Head(r.stack).n # n THEN [r EXCEPT !.st = "err"]
    ELSE IF Len(r.stack) = 1
    THEN [r EXCEPT !.stack = <<>>, !.roots = Append(@, Head(r.stack))]
    ELSE LET outer == r.stack[2] IN
         [r EXCEPT !.stack = <<[outer EXCEPT !.comps = Append(@, Head(r.stack))]>> \o SubSeq(r.stack, 3, Len(r.stack))]
PropLine(r, p) ==
    IF r.stack = <<>> THEN [r EXCEPT !.st = "stop"]
    ELSE [r EXCEPT !.stack = <<[Head(@) EXCEPT !.props = Append(@, p)]>> \o Tail(@)]
(* a line without meaning ends the components at the root, unless it is a BEGIN or END of something without a proper name *)
OddLine(r, tag) == [r EXCEPT !.st = IF r.stack = <<>> /\ ~tag THEN "stop" ELSE "odd"]

(* one line; `mean' turns a lexed line into what is stored for it *)
ReadLine(r, cls, mean(_)) ==
    IF r.st # "run" THEN r
    ELSE CASE cls.t = "blank" -> r
           [] cls.t = "begin" -> BeginLine(r, cls.n)
           [] cls.t = "end" -> EndLine(r, cls.n)
           [] cls.t = "prop" -> PropLine(r, mean(cls.l))
           [] cls.t = "odd" -> OddLine(r, cls.tag)
ReadLinesWith(lines, mean(_)) == FoldLeft(LAMBDA r, line : ReadLine(r, Classify(line), mean), ReaderInit, lines)
ReadLines(lines) == ReadLinesWith(lines, Meaning)
(* text is unfolded *)
ReadText(text) == ReadLines(Lines(text))

(***************************************************************************)
(* Which results are right.  A result is [st |-> "ok", v |-> roots] or     *)
(* [st |-> "err"].                                                         *)
(***************************************************************************)
Finished(r) == r.st = "run" /\ r.stack = <<>>
Admissible(r, res) ==
    CASE r.st = "odd" -> res.st \in {"ok", "err"}
      [] r.st = "err" -> res.st = "err"
      [] r.st = "stop" -> res.st = "err" \/ (res.st = "ok" /\ res.v = r.roots)
      [] Finished(r) -> res.st = "ok" /\ res.v = r.roots
      [] OTHER -> res.st = "err" \/ (res.st = "ok" /\ res.v = r.roots) \* cut off

(***************************************************************************)
(* Whatever the text is: no more components with a name are reported than  *)
(* there are END lines with that name.                                     *)
(***************************************************************************)
RECURSIVE NamesIn(_)
NamesIn(comps) == Concat([i \in 1..Len(comps) |-> <<comps[i].n>> \o NamesIn(comps[i].comps)])
Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
EndTags(text, n) ==
    LET u == T("END:") k == 4 + Len(n) IN
    Cardinality({i \in 1..(Len(text) - k + 1) :
                    /\ text[i] \in {69, 101}
                    /\ UpperText(SubSeq(text, i, i + 3)) = u
                    /\ SubSeq(text, i + 4, i + k - 1) = n})
EnoughEnds(text, comps) ==
    LET names == NamesIn(comps) IN \A n \in SetOf(names) : Count(names, n) <= EndTags(text, n)
=============================================================================

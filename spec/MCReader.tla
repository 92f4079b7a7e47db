------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* All streams of a few lines, read line by line.                          *)
(***************************************************************************)
EXTENDS Reader, Emit

CONSTANTS LineTexts, MaxLines, FullUpTo

VARIABLES stream, reader
vars == <<stream, reader>>
Init == stream = <<>> /\ reader = ReaderInit
Next == \E t \in LineTexts :
    /\ Len(stream) < MaxLines
    /\ stream' = Append(stream, T(t))
    /\ reader' = ReadLine(reader, Classify(T(t)), Meaning)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The same by counting: a line belongs to the last component that was     *)
(* opened before it and is not closed before it.                           *)
(***************************************************************************)
K(i) == Classify(stream[i])
IsBegin(i) == K(i).t = "begin"
IsEnd(i) == K(i).t = "end"
N == Len(stream)
Level(i) == Cardinality({j \in 1..i : IsBegin(j)}) - Cardinality({j \in 1..i : IsEnd(j)})
Balanced == /\ \A i \in 1..N : Level(i) >= 0 /\ K(i).t # "odd"
            /\ Level(N) = 0
            /\ \A i \in 1..N : K(i).t = "prop" => Level(i) > 0
Partner(i) == CHOOSE j \in (i + 1)..N : Level(j) = Level(i) - 1 /\ \A k \in i..(j - 1) : Level(k) >= Level(i)
Matched == Balanced /\ \A i \in 1..N : IsBegin(i) => K(Partner(i)).n = K(i).n
Own(i) == {k \in (i + 1)..(Partner(i) - 1) : K(k).t = "prop" /\ Level(k) = Level(i)}
InOrder(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
Expected == \* every component, in the order of their BEGIN stream, with its own properties
    LET bs == InOrder({i \in 1..N : IsBegin(i)}) IN
    [x \in 1..Len(bs) |->
        [n |-> K(bs[x]).n,
         props |-> [y \in 1..Cardinality(Own(bs[x])) |-> Meaning(K(InOrder(Own(bs[x]))[y]).l)],
         comps |-> Cardinality({k \in (bs[x] + 1)..(Partner(bs[x]) - 1) : IsBegin(k) /\ Level(k) = Level(bs[x]) + 1})]]
RECURSIVE Flat(_)
Flat(nodes) == Concat([i \in 1..Len(nodes) |->
    <<[n |-> nodes[i].n, props |-> nodes[i].props, comps |-> Len(nodes[i].comps)]>> \o Flat(nodes[i].comps)])

MirrorsText == Finished(reader) <=> Matched
SameTree == Finished(reader) => Flat(reader.roots) = Expected
(* whatever was read, only closed components are reported, and once *)
OnlyClosed == EnoughEnds(Concat([i \in 1..N |-> stream[i] \o <<LF>>]), reader.roots)
(* what is open and what is reported is all there is *)
Accounted == reader.st = "run" =>
    /\ Len(NamesIn(reader.roots)) + Len(NamesIn(reader.stack)) = Cardinality({i \in 1..N : IsBegin(i)})
    /\ Len(reader.stack) = Level(N)
SameAsWhole == ReadText(Concat([i \in 1..N |-> stream[i] \o CRLF])) = reader
(* reported components stay as they are; an error is final *)
Monotone == [][/\ SubSeq(reader'.roots, 1, Len(reader.roots)) = reader.roots
               /\ (reader.st # "run" => reader' = reader)]_vars
(* the order of the judgements about results *)
Judged ==
    /\ Admissible(reader, [st |-> "err"]) <=> ~Finished(reader)
    /\ (reader.st # "odd" => ~Admissible(reader, [st |-> "ok", v |-> Append(reader.roots, Open(T("EXTRA")))]))
    /\ (reader.st = "err" => ~Admissible(reader, [st |-> "ok", v |-> reader.roots]))
    /\ (reader.st \in {"run", "stop"} => Admissible(reader, [st |-> "ok", v |-> reader.roots]))

Emitted == Emit("read", [text |-> Concat([i \in 1..N |-> stream[i] \o CRLF]), full |-> IF N <= FullUpTo THEN 1 ELSE 0])
=============================================================================

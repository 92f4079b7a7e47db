------------------------------ MODULE MCCodec ------------------------------
(***************************************************************************)
(* A TEXT value on its way: the writer encodes it character by character,  *)
(* in any of the allowed ways, and the reader decodes what was written.    *)
(***************************************************************************)
EXTENDS Codec, Emit

CONSTANTS Alphabet, MaxLen, Names

VARIABLES value,  \* what was written so far
          wire,   \* as which text
          reader  \* the decoder that follows
vars == <<value, wire, reader>>

Init == value = <<>> /\ wire = <<>> /\ reader = DecodeInit
Put(c, e) ==
    /\ Len(value) < MaxLen
    /\ value' = Append(value, c)
    /\ wire' = wire \o e
    /\ reader' = FoldLeft(DecodeStep, reader, e)
Next == \E c \in Alphabet : \E e \in EncodeChar(c) : Put(c, e)
Spec == Init /\ [][Next]_vars

(* the reader knows the value after every character *)
ReaderFollows == ~reader.esc /\ reader.out = value
RoundTrip == Decode(wire) = value
Recognized == IsEncoding(value, wire) /\ wire \in Encodings(value)
(* no value is written like another one *)
Unambiguous == \A i \in 1..Len(wire) : IsEncoding(value, SubSeq(wire, 1, i)) => i = Len(wire)
OneLine == ~Has(wire, LF)
(* comma and semicolon, which separate values, never stand alone *)
Guarded ==
    \A i \in 1..Len(wire) : wire[i] \in {COMMA, SEMI} =>
        \E k \in 1..(i - 1) : (\A j \in k..(i - 1) : wire[j] = BSL) /\ (i - k) % 2 = 1 /\ (k = 1 \/ wire[k - 1] # BSL)
(* a written value is only read as an encoding of itself *)
Rejects == \A c \in Alphabet :
    /\ ~IsEncoding(Append(value, c), wire)
    /\ (value # <<>> => ~IsEncoding(Tail(value), wire) \/ Tail(value) = value)

Emitted == \A n \in Names : Emit("prop", [k |-> T(n), v |-> value, p |-> <<>>])
=============================================================================

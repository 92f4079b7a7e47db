------------------------------ MODULE MCDecode ------------------------------
(***************************************************************************)
(* The reader of TEXT values on arbitrary input.                           *)
(***************************************************************************)
EXTENDS Codec, Emit

CONSTANTS Alphabet, MaxLen, Heads

VARIABLES raw, reader
vars == <<raw, reader>>
Init == raw = <<>> /\ reader = DecodeInit
Next == \E c \in Alphabet : Len(raw) < MaxLen /\ raw' = Append(raw, c) /\ reader' = DecodeStep(reader, c)
Spec == Init /\ [][Next]_vars

value == DecodeEnd(reader)
Total == value = Decode(raw)
(* at most one character is saved per character that was escaped *)
Length == Len(value) <= Len(raw) /\ 2 * Len(value) >= Len(raw)
(* reading is insensitive to how the value was written *)
Canonical == \A w \in Encodings(value) : Decode(w) = value
Agree == IsEncoding(value, raw) <=> raw \in Encodings(value)
(* each escape sequence is decoded exactly once: what it gives is not looked at again *)
Once == (Len(raw) >= 2 /\ raw[1] = BSL /\ raw[2] = BSL) => value = <<BSL>> \o Decode(SubSeq(raw, 3, Len(raw)))

Emitted == \A h \in Heads : Emit("line", [text |-> T(h) \o raw])
=============================================================================

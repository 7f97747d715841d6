-------------------------------- MODULE MCUtf --------------------------------
(* Well-formedness, twice. LkText defines UTF-8 by its encoding function (a sequence  *)
(* is well formed when it is what encoding some text gives); the Unicode standard     *)
(* also tabulates the well-formed byte sequences (Table 3-7), which is an automaton.  *)
(* Here TLC walks that automaton over a byte from every class the table distinguishes *)
(* and checks, for every sequence, that both say the same. Likewise for UTF-16.       *)
(* Every sequence is emitted as a decoding for the real code.                         *)
EXTENDS LkText

CONSTANTS MaxBytes, MaxUnits, Emit

VARIABLES w, u, q
vars == <<w, u, q>>

Reps == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243,
         244, 245, 247, 248, 255}
Units == {0, 65, 55295, 55296, 55348, 56319, 56320, 56606, 57343, 57344, 65535}

(* Table 3-7: "0" between characters, "c1".."c3" that many continuation bytes to come, *)
(* the others a continuation byte from a narrower range first, "x" ill formed.          *)
Step8(s, b) ==
  CASE s = "0" ->
         IF b \in 0..127 THEN "0" ELSE IF b \in 194..223 THEN "c1" ELSE IF b = 224 THEN "e0"
         ELSE IF b \in 225..236 \/ b \in 238..239 THEN "c2" ELSE IF b = 237 THEN "ed"
         ELSE IF b = 240 THEN "f0" ELSE IF b \in 241..243 THEN "c3" ELSE IF b = 244 THEN "f4" ELSE "x"
    [] s = "c1" -> IF b \in 128..191 THEN "0" ELSE "x"
    [] s = "c2" -> IF b \in 128..191 THEN "c1" ELSE "x"
    [] s = "c3" -> IF b \in 128..191 THEN "c2" ELSE "x"
    [] s = "e0" -> IF b \in 160..191 THEN "c1" ELSE "x"
    [] s = "ed" -> IF b \in 128..159 THEN "c1" ELSE "x"
    [] s = "f0" -> IF b \in 144..191 THEN "c2" ELSE "x"
    [] s = "f4" -> IF b \in 128..143 THEN "c2" ELSE "x"
    [] OTHER -> "x"
Step16(s, b) ==
  CASE s = "0" -> IF b \in 55296..56319 THEN "h" ELSE IF b \in 56320..57343 THEN "x" ELSE "0"
    [] s = "h" -> IF b \in 56320..57343 THEN "0" ELSE "x"
    [] OTHER -> "x"

RECURSIVE Nums(_)
Nums(s) == IF s = <<>> THEN "-" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "," \o Nums(Tail(s))

Init == w \in {8, 16} /\ u = <<>> /\ q = "0"

Add(b) ==
  /\ u' = Append(u, b)
  /\ q' = IF w = 8 THEN Step8(q, b) ELSE Step16(q, b)
  /\ Emit => PrintT("UT|" \o (IF w = 8 THEN "utf8" ELSE "utf16") \o " a=0 u=" \o Nums(u'))
  /\ UNCHANGED w

Next == /\ q # "x"       \* nothing can make an ill-formed beginning well formed
        /\ \/ w = 8 /\ Len(u) < MaxBytes /\ \E b \in Reps : Add(b)
           \/ w = 16 /\ Len(u) < MaxUnits /\ \E b \in Units : Add(b)
Spec == Init /\ [][Next]_vars

Dec == IF w = 8 THEN Dec8(u) ELSE Dec16(u)
RECURSIVE Enc16(_)
Enc16(t) == IF t = <<>> THEN <<>>
            ELSE (IF Head(t) < 65536 THEN <<Head(t)>>
                  ELSE <<55296 + (Head(t) - 65536) \div 1024, 56320 + ((Head(t) - 65536) % 1024)>>) \o Enc16(Tail(t))
SameJudgement == (q = "0") <=> (Dec # Ill)
RoundTrip == Dec # Ill => /\ (IF w = 8 THEN Enc(Dec) ELSE Enc16(Dec)) = u
                          /\ \A i \in DOMAIN Dec : Scalar(Dec[i])
(* What the error says, from the automaton's point of view. *)
ErrorRight == w = 8 /\ q # "0" => Err8(u)[2] = IF q # "x" THEN 0 ELSE MaxOf(1, Len(u) - 1 - Err8(u)[1])
(* Byte order and text order agree, which is why comparing bytes compares texts. *)
=============================================================================

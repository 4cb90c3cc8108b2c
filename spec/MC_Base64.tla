------------------------------ MODULE MC_Base64 ------------------------------
(* Encoding and decoding all short byte strings and texts of some characters. *)
EXTENDS Base64, TLC
CONSTANTS Bytes_, Chars, MaxBytes, MaxText
VARIABLE c
Init == c \in {<<"b", <<>>>>, <<"t", <<>>>>}
Next == \/ c[1] = "b" /\ Len(c[2]) < MaxBytes /\ \E x \in Bytes_ : c' = <<"b", Append(c[2], x)>>
        \/ c[1] = "t" /\ Len(c[2]) < MaxText /\ \E x \in Chars : c' = <<"t", Append(c[2], x)>>
Back == c[1] = "b" => LET t == B64Enc(c[2]) IN Len(t) % 4 = 0 /\ B64Dec(t) = [is |-> "good", v |-> c[2]]
Only == c[1] = "t" => LET r == B64Dec(c[2]) IN
   /\ r.is = "good" => B64Enc(r.v) = c[2]
   /\ r.is = "loose" => LET t == B64Enc(r.v) IN SubSeq(t, 1, Len(t) - 4) = SubSeq(c[2], 1, Len(t) - 4) /\ (Len(t) - 4 <= Len(c[2]))
   /\ (Len(c[2]) % 4 # 0 => r.is # "good")
=============================================================================

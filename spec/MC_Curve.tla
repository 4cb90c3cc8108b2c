------------------------------ MODULE MC_Curve ------------------------------
(* The group laws on the toy curve, and key bytes: all triples of points and *)
(* all strings of one and two coordinates.                                   *)
EXTENDS KeyForms, Toy, TLC
CONSTANT Firsts
VARIABLE c
Pt(n) == EcMul(P, BFromInt(n), ToyG)
Init == c \in {<<"p", a>> : a \in 0..30} \cup {<<"b", f>> : f \in Firsts}
Next == \/ c[1] = "p" /\ \E x, y \in 0..30 : c' = <<"q", c[2], x, y>>
        \/ c[1] = "b" /\ \E x \in 0..60 : c' = <<"c", <<c[2], x>>>>
        \/ c[1] = "c" /\ Len(c[2]) = 2 /\ \E y \in 0..60 : c' = <<"c", Append(c[2], y)>>
Group == c[1] = "q" => LET a == Pt(c[2]) b == Pt(c[3]) d == Pt(c[4]) IN
  /\ EcAdd(P, a, b) = Pt((c[2] + c[3]) % 31)
  /\ EcAdd(P, a, EcAdd(P, b, d)) = EcAdd(P, EcAdd(P, a, b), d)
  /\ EcMul(P, BFromInt(c[2] * c[3]), d) = EcMul(P, BFromInt(c[2]), EcMul(P, BFromInt(c[3]), d))
  /\ EcMul(P, BFromInt(c[2]), d) = EcMulDef(P, BFromInt(c[2]), d)
  /\ EcAdd(P, a, EcNeg(P, a)) = <<>>
Points == c[1] = "p" /\ (c[1] = "p" => c[2] > 0) => LET a == Pt(c[2]) IN
  /\ EcOn(P, BB, a[1], a[2])
  /\ \A f \in {TRUE, FALSE} : ParseKey(KeyBytes(a, f)) = [ok |-> TRUE, pt |-> a, compressed |-> f]
Bytes == c[1] = "c" => LET k == ParseKey(c[2]) IN k.ok =>
  /\ \E n \in 1..30 : Pt(n) = k.pt
  /\ KeyBytes(k.pt, k.compressed) = IF c[2][1] > 4 THEN <<4>> \o Tail(c[2]) ELSE c[2]
=============================================================================

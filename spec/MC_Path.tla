------------------------------- MODULE MC_Path -------------------------------
(* All texts of up to MaxText characters that matter, and all paths of up to *)
(* MaxPath numbers below 2H.                                                 *)
EXTENDS Path, TLC
CONSTANTS Limit, MaxText, MaxPath
VARIABLE c
HVal == BFromInt(Limit)
Chars == {109, 47, 39, 48, 49, 57, 32}
Init == c \in {<<"t", <<>>>>, <<"p", <<>>>>}
Next == \/ c[1] = "t" /\ Len(c[2]) < MaxText /\ \E x \in Chars : c' = <<"t", Append(c[2], x)>>
        \/ c[1] = "p" /\ Len(c[2]) < MaxPath /\ \E x \in 0 .. 2 * Limit - 1 : c' = <<"p", Append(c[2], BFromInt(x))>>
Back == c[1] = "p" => ParsePath(PathText(c[2])) = [ok |-> TRUE, v |-> c[2]]
InRange == c[1] = "t" => LET r == ParsePath(c[2]) IN r.ok =>
             /\ \A k \in DOMAIN r.v : BLt(r.v[k], BMul(<<2>>, H))
             /\ ParsePath(PathText(r.v)) = r
             /\ Len(PathText(r.v)) <= Len(c[2])
\* a longer path is its parts one after the other
Parts == c[1] = "t" => LET r == ParsePath(c[2]) IN \A k \in DOMAIN c[2] : (c[2][k] = 47 /\ r.ok) =>
             LET a == ParsePath(SubSeq(c[2], 1, k - 1)) b == ParsePath(<<109>> \o SubSeq(c[2], k, Len(c[2])))
             IN a.ok /\ b.ok /\ r.v = a.v \o b.v
=============================================================================

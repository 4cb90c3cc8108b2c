------------------------------ MODULE MC_Wire -------------------------------
(* Exhaustive check of Wire for a small base: every natural below Base^8    *)
(* (MaxNat), and every digit string up to MaxLen as a stream.               *)
EXTENDS Wire, TLC
CONSTANTS MaxNat, MaxLen
VARIABLE c

Digits == 0 .. Base - 1
Strings(n) == UNION {[1..k -> Digits] : k \in 0..n}
Init == \/ \E n \in 0 .. MaxNat : c = <<"nat", n>>
        \/ \E s \in Strings(MaxLen) : c = <<"stream", s>>
Next == UNCHANGED c

Prefix(s, k) == SubSeq(s, 1, k)
SizeRoundTrip ==
  c[1] = "nat" =>
    LET t == OfNat(c[2])
        s == SizeOf(t)
        r == ReadSize(s \o <<1, 0, 2>>)
    IN /\ NatOf(t) = c[2]
       /\ r.ok /\ r.v = t /\ r.n = Len(s)
       /\ \A k \in 0 .. Len(s) - 1 : ~ReadSize(Prefix(s, k)).ok
SizeShortest ==   \* no other stream of fewer digits reads as the same number
  c[1] = "stream" =>
    LET r == ReadSize(c[2]) IN r.ok => Len(SizeOf(r.v)) <= r.n
BytesRoundTrip ==
  c[1] = "stream" =>
    LET b == c[2]
        s == VarBytes(b)
        r == ReadVarBytes(s \o <<0>>)
    IN /\ r.ok /\ r.v = b /\ r.n = Len(s)
       /\ \A k \in 0 .. Len(s) - 1 : ~ReadVarBytes(Prefix(s, k)).ok
ReadDeterminedByPrefix ==   \* what is read depends only on the digits consumed
  c[1] = "stream" =>
    LET r == ReadVarBytes(c[2]) IN r.ok => ReadVarBytes(Prefix(c[2], r.n)) = r
ListRoundTrip ==
  c[1] = "stream" =>
    LET items == [k \in 1 .. Len(c[2]) |-> Prefix(c[2], k - 1)]
        s == ListOf(items, VarBytes)
        r == ReadListOf(s \o <<1>>, ReadVarBytes)
    IN /\ r.ok /\ r.v = items /\ r.n = Len(s)
       /\ \A k \in 0 .. Len(s) - 1 : ~ReadListOf(Prefix(s, k), ReadVarBytes).ok
FixedRoundTrip ==
  c[1] = "nat" => \A w \in {2, 4, 8} :
    LET t == OfNat(c[2]) IN
      Fits(t, w) => /\ ReadLE(LE(t, w), w).v = t /\ ReadBE(BE(t, w), w).v = t
                    /\ Len(LE(t, w)) = w /\ LE(t, w) = Flip(BE(t, w))
=============================================================================

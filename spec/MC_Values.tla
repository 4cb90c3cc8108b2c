------------------------------ MODULE MC_Values -----------------------------
(* On the toy curve: keys are equal exactly when their bytes in one form     *)
(* are, whatever they were made from; equality is an equivalence; outputs    *)
(* are equal when their keys are, in order.                                  *)
EXTENDS KeyForms, Toy, TLC, FiniteSets
CONSTANT Secrets
VARIABLE c
PointOfS(d) == EcMul(P, BFromInt(d), ToyG)
PointInS(b) == ParseKey(b).pt
VS == INSTANCE Values WITH PointOf <- PointOfS, PointIn <- PointInS, NumOfText <- LAMBDA t : t,
        PtAdd <- LAMBDA p, n : EcAdd(P, p, EcMul(P, BFromInt(n), ToyG)), PtMul <- LAMBDA p, n : EcMul(P, BFromInt(n), p), PtSum <- LAMBDA p, q : EcAdd(P, p, q),
        SecretAdd <- LAMBDA s, n : (s + n) % 31, SecretMul <- LAMBDA s, n : (s * n) % 31, HeaderFields <- LAMBDA r : <<r, r, r, r, r, r, r>>
Pubs == {<<"pub", d, f, k>> : d \in Secrets, f \in {TRUE, FALSE}, k \in {"A", "B"}}
        \cup {<<"pubb", KeyBytes(PointOfS(d), f)>> : d \in Secrets, f \in {TRUE, FALSE}}
        \cup {<<"pubb", <<6 + (PointOfS(d)[2][1] % 2)>> \o Tail(KeyBytes(PointOfS(d), FALSE))>> : d \in Secrets}
Derived == {<<"comp", p>> : p \in Pubs} \cup {<<"padd", p, n>> : p \in Pubs, n \in {1, 5}} \cup {<<"pmul", p, n>> : p \in Pubs, n \in {2, 30}}
\* a key computed from a public key is that of the secret computed likewise
DerivedOk == (c[1] = "one" /\ c[2][1] = "pub") => \A n \in 1..30 :
  LET s == <<"priv", c[2][2], TRUE>> pt(sec) == PointOfS(sec) IN
  /\ VS!PointFor(<<"padd", c[2], n>>) = pt(VS!SecretOf(<<"sadd", s, n>>))
  /\ VS!PointFor(<<"pmul", c[2], n>>) = pt(VS!SecretOf(<<"smul", s, n>>))
  /\ VS!PointFor(<<"psum", c[2], <<"pub", n, FALSE, "A">>>>) = pt(VS!SecretOf(<<"sadd", s, n>>))
  /\ VS!PointFor(<<"comp", c[2]>>) = pt(c[2][2])
Privs == {<<k, d, f>> : k \in {"priv", "wif", "xprv"}, d \in Secrets, f \in {TRUE, FALSE}}
Binary == {<<k, b>> : k \in {"script", "sig", "bytes", "bytearray", "view"}, b \in {<<>>, <<1>>, <<1, 1>>}}
Outputs_ == {<<"p2pk", p>> : p \in Pubs} \cup {<<"opreturn">>, <<"unknown">>}
            \cup {<<"p2pkh", n, k>> : n \in 1..2, k \in {"A", "B"}} \cup {<<"p2sh", n, k>> : n \in 1..2, k \in {"A", "B"}}
Multis == {<<"multi", m, <<p, q>>>> : m \in 1..2, p \in Pubs, q \in Pubs}
All == Pubs \cup Derived \cup Privs \cup Binary \cup Outputs_
Init == c \in {<<"one", d>> : d \in All} \cup {<<"m", d>> : d \in Multis}
Next == c[1] = "one" /\ \E e \in All : c' = <<"two", c[2], e>>
Secret(p) == CHOOSE d \in Secrets : PointOfS(d) = VS!Ident(p)[2]
Keys == (c[1] = "two" /\ c[2] \in Pubs /\ c[3] \in Pubs) =>
  /\ VS!Same_(c[2], c[3]) = (Secret(c[2]) = Secret(c[3]))
  /\ VS!Same_(c[2], c[3]) = (\A f \in {TRUE, FALSE} : KeyBytes(VS!Ident(c[2])[2], f) = KeyBytes(VS!Ident(c[3])[2], f))
Equivalence == c[1] = "two" =>
  /\ (c[2][1] # "unknown" => VS!Same_(c[2], c[2]))
  /\ VS!Same_(c[2], c[3]) = VS!Same_(c[3], c[2])
  /\ (VS!Same_(c[2], c[3]) => \A e \in All : VS!Same_(c[2], e) = VS!Same_(c[3], e))
Ordered == c[1] = "m" => \A e \in Multis :
  VS!Same_(c[2], e) = (c[2][2] = e[2] /\ VS!Same_(c[2][3][1], e[3][1]) /\ VS!Same_(c[2][3][2], e[3][2]))
=============================================================================

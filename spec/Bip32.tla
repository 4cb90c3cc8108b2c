-------------------------------- MODULE Bip32 --------------------------------
(***************************************************************************)
(* Hierarchical keys.  A node is [priv, d or pt, chain, depth, n, fp, coin]:*)
(* secret or point, chain code, how deep it is, its index (a number below  *)
(* 2 HH, hardened from HH on), the start of its parent's identifier, and   *)
(* the network.  Hm(chain, message) gives [l, r], a number and a chain     *)
(* code; Ident the identifier of key bytes.  CL is the length of a chain   *)
(* code.                                                                   *)
(***************************************************************************)
EXTENDS KeyOps
CONSTANTS HH, CL, Hm(_, _), Ident(_)
PtOf(x) == IF x.priv THEN PubOf(x.d) ELSE x.pt
PubKeyBytes(x) == KeyBytes(PtOf(x), TRUE)
IdOf(x) == Ident(PubKeyBytes(x))
FpOf(x) == SubSeq(IdOf(x), 1, 4)
Neuter(x) == IF ~x.priv THEN x
             ELSE [priv |-> FALSE, pt |-> PubOf(x.d), chain |-> x.chain, depth |-> x.depth, n |-> x.n, fp |-> x.fp, coin |-> x.coin]
InIndex(x, n) == IF x.priv THEN BLt(n, BMul(<<2>>, HH)) ELSE BLt(n, HH)
ChildOf(x, n) ==
  IF ~InIndex(x, n) THEN BadOp
  ELSE LET msg == (IF BLe(HH, n) THEN <<0>> \o BToBE(x.d, W) ELSE PubKeyBytes(x)) \o BToBE(n, 4)
           h == Hm(x.chain, msg)
           k == IF x.priv THEN AddPriv([d |-> x.d], h.l) ELSE AddPub([pt |-> x.pt], h.l)
           fp == FpOf(x)
       IN IF ~k.ok THEN BadOp
          ELSE Made(IF x.priv
                    THEN [priv |-> TRUE, d |-> k.k.d, chain |-> h.r, depth |-> x.depth + 1, n |-> n, fp |-> fp, coin |-> x.coin]
                    ELSE [priv |-> FALSE, pt |-> k.k.pt, chain |-> h.r, depth |-> x.depth + 1, n |-> n, fp |-> fp, coin |-> x.coin])
\* the first index from n on, on the same side of HH, whose child exists
RECURSIVE SafeChild(_, _)
SafeChild(x, n) ==
  IF ~InIndex(x, n) THEN BadOp
  ELSE LET c == ChildOf(x, n) m == BAdd(n, <<1>>)
       IN IF c.ok THEN c
          ELSE IF m = HH \/ m = BMul(<<2>>, HH) THEN BadOp ELSE SafeChild(x, m)
MasterOf(d, chain, coin) ==
  IF ~InRange(d) THEN BadOp ELSE Made([priv |-> TRUE, d |-> d, chain |-> chain, depth |-> 0, n |-> <<>>, fp |-> <<0, 0, 0, 0>>, coin |-> coin])

(* Serialized: version, depth, parent's fingerprint, index, chain code, key *)
XBytes(x, ver) == ver \o <<x.depth>> \o x.fp \o BToBE(x.n, 4) \o x.chain \o (IF x.priv THEN <<0>> \o BToBE(x.d, W) ELSE KeyBytes(x.pt, TRUE))
\* prv and pub: the network of a version, or ""
XParse(b, prv(_), pub(_)) ==
  IF Len(b) # 13 + CL + 1 + W THEN BadOp
  ELSE LET ver == SubSeq(b, 1, 4) key == SubSeq(b, 14 + CL, Len(b))
           chain == SubSeq(b, 14, 13 + CL) n == BFromBE(SubSeq(b, 10, 13)) fp == SubSeq(b, 6, 9)
       IN IF prv(ver) # ""
          THEN IF key[1] # 0 \/ ~InRange(BFromBE(Tail(key))) THEN BadOp
               ELSE Made([priv |-> TRUE, d |-> BFromBE(Tail(key)), chain |-> chain, depth |-> b[5], n |-> n, fp |-> fp, coin |-> prv(ver)])
          ELSE IF pub(ver) # ""
          THEN LET q == ParseKey(key)
               IN IF ~q.ok THEN BadOp
                  ELSE Made([priv |-> FALSE, pt |-> q.pt, chain |-> chain, depth |-> b[5], n |-> n, fp |-> fp, coin |-> pub(ver)])
          ELSE BadOp
=============================================================================

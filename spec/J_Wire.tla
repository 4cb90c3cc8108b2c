------------------------------- MODULE J_Wire -------------------------------
(* Judges calls of the packing and stream functions (C11).                  *)
EXTENDS JudgeBase, Wire, BigNat, Hashes

\* e.a for integers: sign ("-" or "") and big-endian magnitude in hex
Mag(h) == BFromBE(Hx(h))
IsNeg(sign, m) == sign = "-" /\ m # <<>>
\* two's complement digits of a signed value in w bytes
InRange(sign, m, w, signed) ==
  IF IsNeg(sign, m) THEN signed /\ BLe(m, BPow2(8 * w - 1))
  ELSE BLt(m, BPow2(IF signed THEN 8 * w - 1 ELSE 8 * w))
Twos(sign, m, w) == IF IsNeg(sign, m) THEN BSub(BPow2(8 * w), m) ELSE m
SText(v, w) == IF BLt(v, BPow2(8 * w - 1)) THEN "i:" \o BDec(v) ELSE "i:-" \o BDec(BSub(BPow2(8 * w), v))
IntText(v, w, signed) == IF signed THEN SText(v, w) ELSE "i:" \o BDec(v)
B_(b) == "b:" \o Hex(b)
RECURSIVE JoinC(_)
JoinC(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "," \o JoinC(Tail(ss))
List_(ss) == IF ss = <<>> THEN "[]" ELSE "[" \o JoinC(ss) \o "]"
Read(r, text(_)) == IF r.ok THEN List_(<<text(r.v), "i:" \o ToString(r.n)>>) ELSE "!Exception"
NatText(v) == "i:" \o BDec(v)
U16(s) == ReadLE(s, 2)
BytesFn(b) == VarBytes(b)
ListText(items) == List_([k \in 1..Len(items) |-> B_(items[k])])
NatsText(items) == List_([k \in 1..Len(items) |-> NatText(items[k])])
MinLen(m) == Len(m)
Body(kind, w, signed, big, bytes) ==
  LET v == IF big THEN ReadBE(bytes, w) ELSE ReadLE(bytes, w) IN IntText(v.v, w, signed)

V(e) ==
  CASE e.op = "pack" ->       \* width, signed, big-endian, sign, magnitude, (function name)
         LET w == e.a[1]  m == Mag(e.a[5])  s == Twos(e.a[4], m, w)
         IN Same(e, IF ~InRange(e.a[4], m, w, e.a[2]) THEN "!Exception"
                    ELSE B_(IF e.a[3] THEN BE(s, w) ELSE LE(s, w)))
    [] e.op = "unpack" ->     \* width, signed, big-endian, bytes
         LET b == Hx(e.a[4])
         IN Same(e, IF Len(b) # e.a[1] THEN "!Exception" ELSE Body("", e.a[1], e.a[2], e.a[3], b))
    [] e.op = "unpack_from" -> \* width, signed, big-endian, bytes, offset
         LET b == Hx(e.a[4]) o == e.a[5]
         IN Same(e, IF Len(b) < o + e.a[1] THEN "!Exception"
                    ELSE Body("", e.a[1], e.a[2], e.a[3], SubSeq(b, o + 1, o + e.a[1])))
    [] e.op = "read" ->       \* width, signed, big-endian, stream
         LET s == Hx(e.a[4]) w == e.a[1]
             r == IF e.a[3] THEN ReadBE(s, w) ELSE ReadLE(s, w)
         IN Same(e, IF r.ok THEN List_(<<IntText(r.v, w, e.a[2]), "i:" \o ToString(r.n)>>) ELSE "!Exception")
    [] e.op = "varint" ->     \* sign, magnitude -> packed
         LET m == Mag(e.a[2])
         IN Same(e, IF IsNeg(e.a[1], m) \/ ~SizeFits(m) THEN "!Exception" ELSE B_(SizeOf(m)))
    [] e.op = "varint_len" ->
         LET m == Mag(e.a[2])
         IN Same(e, IF IsNeg(e.a[1], m) \/ ~SizeFits(m) THEN "!ValueError" ELSE "i:" \o ToString(Len(SizeOf(m))))
    [] e.op = "read_varint" -> Same(e, Read(ReadSize(Hx(e.a[1])), NatText))
    [] e.op = "varbytes" -> Same(e, B_(VarBytes(Hx(e.a[1]))))
    [] e.op = "read_varbytes" -> Same(e, Read(ReadVarBytes(Hx(e.a[1])), B_))
    [] e.op = "varbytes_big" -> \* fill byte, length: packed length and hash, what reading it back gives and leaves
         LET s == VarBytes(Fill(e.a[1], e.a[2]))
         IN Same(e, List_(<<"i:" \o ToString(Len(s)), B_(Sha256(s)), "t", "i:" \o ToString(Len(s)), "!Exception">>))
    [] e.op = "pack_list" -> Same(e, B_(ListOf([k \in 1..Len(e.a[1]) |-> Hx(e.a[1][k])], BytesFn)))
    [] e.op = "read_list" -> Same(e, Read(ReadListOf(Hx(e.a[1]), ReadVarBytes), ListText))
    [] e.op = "read_list_u16" -> Same(e, Read(ReadListOf(Hx(e.a[1]), U16), NatsText))
    [] e.op = "list_big" ->   \* count of empty items: packed length and hash, count and position after reading back
         LET s == SizeOf(OfNat(e.a[1])) \o Fill(0, e.a[1])
         IN Same(e, List_(<<"i:" \o ToString(Len(s)), B_(Sha256(s)), "i:" \o ToString(e.a[1]), "i:" \o ToString(Len(s))>>))
    [] e.op = "stream" ->     \* several values written one after the other and read back in turn
         Same(e, List_([k \in 1..Len(e.a) |-> IF e.a[k][1] = "n" THEN NatText(Mag(e.a[k][2])) ELSE B_(Hx(e.a[k][2]))]
                       \o <<B_(Flatten([k \in 1..Len(e.a) |-> IF e.a[k][1] = "n" THEN SizeOf(Mag(e.a[k][2]))
                                                            ELSE VarBytes(Hx(e.a[k][2]))]))>>))
    [] e.op = "int_bytes" ->  \* big-endian, size (-1: minimal), sign, magnitude
         LET m == Mag(e.a[4]) w == IF e.a[2] = -1 THEN MinLen(m) ELSE e.a[2]
         IN Same(e, IF IsNeg(e.a[3], m) \/ ~Fits(m, w) THEN "!Exception" ELSE B_(IF e.a[1] THEN BE(m, w) ELSE LE(m, w)))
    [] e.op = "bytes_int" -> Same(e, NatText(IF e.a[1] THEN BFromBE(Hx(e.a[2])) ELSE BFromLE(Hx(e.a[2]))))
    [] e.op = "hash_to_hex_str" -> Same(e, "s:" \o Hex(Reverse(Hx(e.a[1]))))
    [] e.op = "hex_str_to_hash" -> Same(e, B_(Reverse(Hx(e.a[1]))))
    [] e.op = "hash_to_value" -> Same(e, NatText(BFromLE(Hx(e.a[1]))))
    [] e.op = "hashes" ->
         LET b == Hx(e.a[1]) k == Hx(e.a[2])
         IN Same(e, List_(<<B_(Sha1(b)), B_(Sha256(b)), B_(Sha512(b)), B_(Sha256d(b)), B_(Ripemd160(b)), B_(Hash160(b)),
                            B_(HmacSha512(k, b)),
                            List_(<<B_(SubSeq(HmacSha512(k, b), 1, 32)), B_(SubSeq(HmacSha512(k, b), 33, 64))>>)>>))
    [] e.op = "unpack_header" ->
         LET b == Hx(e.a[1])
         IN Same(e, IF Len(b) # 80 THEN "!Exception" ELSE
              List_(<<SText(BFromLE(SubSeq(b, 1, 4)), 4), B_(SubSeq(b, 5, 36)), B_(SubSeq(b, 37, 68)),
                      NatText(BFromLE(SubSeq(b, 69, 72))), NatText(BFromLE(SubSeq(b, 73, 76))), NatText(BFromLE(SubSeq(b, 77, 80)))>>))
    [] OTHER -> "unknown operation " \o e.op
=============================================================================

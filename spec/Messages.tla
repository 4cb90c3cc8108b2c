------------------------------ MODULE Messages ------------------------------
(* What is hashed when a message is signed: both texts with their length.   *)
EXTENDS Hashes, Integers, Sequences
Sized(b) == LET n == Len(b)
  IN (IF n < 253 THEN <<n>> ELSE IF n < 65536 THEN <<253, n % 256, n \div 256>>
      ELSE <<254, n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>) \o b
SignedText(b) == Sized(Utf8("Bitcoin Signed Message:\n")) \o Sized(b)
=============================================================================

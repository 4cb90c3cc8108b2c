-------------------------------- MODULE Bip39 --------------------------------
(***************************************************************************)
(* Mnemonics that carry entropy and a checksum: WB bits per word, one bit  *)
(* of checksum for R bits of entropy.  Entropies are sequences of bits,    *)
(* words are numbers below 2^WB, Digest gives at least as many bits as are *)
(* needed.  BIP39 is this with WB = 11, R = 32 and SHA-256.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS WB, R, Digest(_)
RECURSIVE BitsVal(_, _, _)
BitsVal(b, from, to) == IF to < from THEN 0 ELSE 2 * BitsVal(b, from, to - 1) + b[to]
WordBits(ws) == [k \in 1 .. WB * Len(ws) |-> (ws[((k - 1) \div WB) + 1] \div (2 ^ (WB - 1 - ((k - 1) % WB)))) % 2]
BitWords(b) == [k \in 1 .. Len(b) \div WB |-> BitsVal(b, (k - 1) * WB + 1, k * WB)]
Encode39(entropy) == BitWords(entropy \o SubSeq(Digest(entropy), 1, Len(entropy) \div R))
\* the number of entropy bits in n words
EntropyLen(n) == ((n * WB) \div (R + 1)) * R
EntropyOf(ws) == SubSeq(WordBits(ws), 1, EntropyLen(Len(ws)))
Valid39(ws) == Encode39(EntropyOf(ws)) = ws
=============================================================================

-------------------------------- MODULE Work --------------------------------
(* Bitcoin's targets, bits and work, on 32-bit bits values given as four    *)
(* bytes, most significant first (TLC integers have 32 bits with a sign).   *)
EXTENDS BigNat
CB == INSTANCE CompactBits WITH Base <- 256, MaxDigits <- 32

BitsOk(bits) == CB!Decodable(bits)
Target(bits) == CB!Decode(bits)
TargetOk(t) == CB!Encodable(t)
ToBits(t) == CB!Encode(t)
WorkOf(bits) == BDiv(BPow2(256), BAdd(Target(bits), <<1>>))
=============================================================================

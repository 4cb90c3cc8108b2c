-------------------------------- MODULE Coins --------------------------------
(* The networks: version bytes and prefixes.                                *)
EXTENDS Integers, Sequences
CoinNames == <<"Bitcoin", "BitcoinTestnet", "BitcoinScalingTestnet", "BitcoinRegtest">>
Net(name) == IF name = "Bitcoin"
  THEN [p2pkh |-> 0, p2sh |-> 5, wif |-> 128, xpub |-> <<4, 136, 178, 30>>, xprv |-> <<4, 136, 173, 228>>, prefix |-> "bitcoincash"]
  ELSE [p2pkh |-> 111, p2sh |-> 196, wif |-> 239, xpub |-> <<4, 53, 135, 207>>, xprv |-> <<4, 53, 131, 148>>, prefix |-> "bchtest"]
\* the network remembered for a version: those of the three test networks are the same, and mean the testnet
CoinOfWif(b) == CASE b = 128 -> "Bitcoin" [] b = 239 -> "BitcoinTestnet" [] OTHER -> ""
CoinOfXpub(b) == CASE b = <<4, 136, 178, 30>> -> "Bitcoin" [] b = <<4, 53, 135, 207>> -> "BitcoinTestnet" [] OTHER -> ""
CoinOfXprv(b) == CASE b = <<4, 136, 173, 228>> -> "Bitcoin" [] b = <<4, 53, 131, 148>> -> "BitcoinTestnet" [] OTHER -> ""
=============================================================================

------------------------------ MODULE Opcodes ------------------------------
(* The names of the script operations, and their numbers.                   *)
EXTENDS Integers, Sequences

\* numbers 97 (0x61) and up, in order
NamedFrom == 97
Named == <<
  "OP_NOP", "OP_VER", "OP_IF", "OP_NOTIF", "OP_VERIF", "OP_VERNOTIF", "OP_ELSE", "OP_ENDIF", "OP_VERIFY", "OP_RETURN",
  "OP_TOALTSTACK", "OP_FROMALTSTACK", "OP_2DROP", "OP_2DUP", "OP_3DUP", "OP_2OVER", "OP_2ROT", "OP_2SWAP", "OP_IFDUP",
  "OP_DEPTH", "OP_DROP", "OP_DUP", "OP_NIP", "OP_OVER", "OP_PICK", "OP_ROLL", "OP_ROT", "OP_SWAP", "OP_TUCK",
  "OP_CAT", "OP_SPLIT", "OP_NUM2BIN", "OP_BIN2NUM", "OP_SIZE",
  "OP_INVERT", "OP_AND", "OP_OR", "OP_XOR", "OP_EQUAL", "OP_EQUALVERIFY", "OP_RESERVED1", "OP_RESERVED2",
  "OP_1ADD", "OP_1SUB", "OP_2MUL", "OP_2DIV", "OP_NEGATE", "OP_ABS", "OP_NOT", "OP_0NOTEQUAL",
  "OP_ADD", "OP_SUB", "OP_MUL", "OP_DIV", "OP_MOD", "OP_LSHIFT", "OP_RSHIFT",
  "OP_BOOLAND", "OP_BOOLOR", "OP_NUMEQUAL", "OP_NUMEQUALVERIFY", "OP_NUMNOTEQUAL", "OP_LESSTHAN", "OP_GREATERTHAN",
  "OP_LESSTHANOREQUAL", "OP_GREATERTHANOREQUAL", "OP_MIN", "OP_MAX", "OP_WITHIN",
  "OP_RIPEMD160", "OP_SHA1", "OP_SHA256", "OP_HASH160", "OP_HASH256", "OP_CODESEPARATOR", "OP_CHECKSIG",
  "OP_CHECKSIGVERIFY", "OP_CHECKMULTISIG", "OP_CHECKMULTISIGVERIFY",
  "OP_NOP1", "OP_CHECKLOCKTIMEVERIFY", "OP_CHECKSEQUENCEVERIFY", "OP_NOP4", "OP_NOP5", "OP_NOP6", "OP_NOP7", "OP_NOP8",
  "OP_NOP9", "OP_NOP10" >>
\* all the others with a name: pushes and aliases
Others == <<
  <<"OP_0", 0>>, <<"OP_FALSE", 0>>, <<"OP_PUSHDATA1", 76>>, <<"OP_PUSHDATA2", 77>>, <<"OP_PUSHDATA4", 78>>,
  <<"OP_1NEGATE", 79>>, <<"OP_RESERVED", 80>>, <<"OP_1", 81>>, <<"OP_TRUE", 81>>, <<"OP_2", 82>>, <<"OP_3", 83>>,
  <<"OP_4", 84>>, <<"OP_5", 85>>, <<"OP_6", 86>>, <<"OP_7", 87>>, <<"OP_8", 88>>, <<"OP_9", 89>>, <<"OP_10", 90>>,
  <<"OP_11", 91>>, <<"OP_12", 92>>, <<"OP_13", 93>>, <<"OP_14", 94>>, <<"OP_15", 95>>, <<"OP_16", 96>>,
  <<"OP_NOP2", 177>>, <<"OP_NOP3", 178>> >>

\* name -> number, of every name
OpNumber == [x \in {Named[k] : k \in DOMAIN Named} \cup {Others[k][1] : k \in DOMAIN Others} |->
  IF \E k \in DOMAIN Named : Named[k] = x THEN NamedFrom - 1 + (CHOOSE k \in DOMAIN Named : Named[k] = x)
  ELSE Others[CHOOSE k \in DOMAIN Others : Others[k][1] = x][2]]
\* the text of an operation that is not a push
OpName(n) == IF n = 80 THEN "OP_RESERVED"
             ELSE IF n >= NamedFrom /\ n < NamedFrom + Len(Named) THEN Named[n - NamedFrom + 1]
             ELSE IF n = 255 THEN "OP_INVALIDOPCODE" ELSE "OP_UNKNOWN"

OP_NOP == 97  OP_RETURN == 106  OP_2DROP == 109  OP_DROP == 117  OP_DUP == 118  OP_EQUAL == 135  OP_EQUALVERIFY == 136
OP_HASH160 == 169  OP_CHECKSIG == 172  OP_CHECKMULTISIG == 174
=============================================================================

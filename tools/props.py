"""Source of /verif/properties.jsonl: `python3 tools/props.py` rewrites it."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))


CH, CO, WK, UT = 'bitcoinx/chain.py', 'bitcoinx/coin.py', 'bitcoinx/work.py', 'bitcoinx/util.py'
TX, PK, SC, SG = 'bitcoinx/tx.py', 'bitcoinx/packing.py', 'bitcoinx/script.py', 'bitcoinx/signature.py'
AD, B58, CA, KY = 'bitcoinx/address.py', 'bitcoinx/base58.py', 'bitcoinx/cashaddr.py', 'bitcoinx/keys.py'
B32, MN, AE, HA, MI = 'bitcoinx/bip32.py', 'bitcoinx/mnemonic.py', 'bitcoinx/aes.py', 'bitcoinx/hashes.py', 'bitcoinx/misc.py'

prop('C01', 'Header admission is exactly the consensus rule',
     'Connecting a raw header succeeds exactly when its parent is stored and either the header is already known '
     'or its bits equal what the coin requires for that height and timestamp on the parent\'s chain and its hash value '
     'does not exceed its target. Otherwise it raises MissingHeader, IncorrectBits or InsufficientPoW respectively (checked in that '
     'order) and nothing observable changes. Reconnecting a known header returns that header and its chain and changes nothing.',
     ['histories', 'inputs'],
     'every sequence of connect attempts (new, duplicate, orphan, wrong bits, weak proof of work, on any tip or fork point) on any coin rule',
     'tests/test_chain.py connects two fixed testnet headers and tries one bad-bits and one bad-PoW header; forks are built by '
     'bypassing connect(), so no rejected, duplicate or fork connect is checked on a populated set of chains',
     [CH, CO], [('connect', f'{CH}:Headers.connect'), ('deserialization', f'{CO}:Coin.deserialized_header')],
     ['Headers.connect result or exception', 'len(headers), chains(), lookup(), raw_header_at_height() before and after'],
     [('stored headers', 'every accepted header in arrival order', f'{CH}:_HeaderStorage'),
      ('chains', 'partition of headers into chains', f'{CH}:Headers._chains')])

prop('C02', 'Chains form one faithful tree over the stored headers',
     'After any history of connects and reopens, every stored header after the checkpoint lies on exactly one chain; looking up '
     'height h on a chain returns the ancestor of that chain\'s tip at height h (through any number of forks) and MissingHeader outside its range. '
     'Each chain\'s parent, first height, height and tip agree with the tree of previous-hash links, and the common chain and height '
     'of two chains is their last common ancestor. A header extends an existing chain exactly when its parent is that chain\'s tip, otherwise it starts a new chain.',
     ['histories'], 'every order in which a tree of headers can be connected, including forks of forks and interleaved growth of many chains',
     'tests build at most two chains forking once and check only one fork depth; forks of forks, fork from a non-tip of a fork and '
     'interleaved extension are never built',
     [CH], [('chain bookkeeping', f'{CH}:Chain'), ('fork or extend', f'{CH}:Headers._read_header')],
     ['Headers.chains()', 'Headers.header_at_height / raw_header_at_height', 'Chain.common_chain_and_height', 'Chain.parent_heights'],
     [('header indices', 'storage index of each own height of a chain', f'{CH}:Chain._header_indices')])

prop('C03', 'Lookup by hash returns exactly the stored header, whatever is cached',
     'Looking up a hash returns the header with exactly that hash, with its true height and chain, if and only if it is the checkpoint '
     'or was connected after it; any other hash raises MissingHeader. The answer does not depend on how many headers, forks, lookups or cache '
     'evictions came before, nor on other hashes sharing leading bytes or straddling them.',
     ['histories', 'inputs'], 'every stored/unknown hash at every point of every history, for every cache capacity and hash-prefix coincidence',
     'tests look up two hashes with and without a cleared cache; prefix collisions, misaligned prefix matches and automatic eviction of a large cache never happen in them',
     [CH], [('short hash search', f'{CH}:Headers._header_index_slow'), ('bounded cache', f'{CH}:Headers._add_chain_tip'), ('lookup', f'{CH}:Headers.lookup')],
     ['Headers.lookup'],
     [('short hashes', '4-byte prefixes of all hashes, concatenated', f'{CH}:Headers._short_hashes'), ('cache', 'recent headers by hash', f'{CH}:Headers._cache')])

prop('C04', 'Chain work is the sum of its headers\' work and picks the longest chain',
     'A chain\'s work always equals the checkpoint\'s prior work plus the work of every header from the checkpoint to its tip along its ancestry, '
     'and the work to, or over, any height range of a chain is the corresponding partial sum. The longest chain is the one with greatest work, '
     'the earliest created on ties.',
     ['histories'], 'every tree of headers with differing work per header, every chain and height range, before and after reopening',
     'tests sum one straight chain and compare two chains of equal difficulty; forks of forks with differing bits, ties and reload are not summed',
     [CH, WK], [('accumulation', f'{CH}:Chain.append'), ('fork work', f'{CH}:Headers.chainwork_to_height'), ('selection', f'{CH}:Headers.longest_chain')],
     ['Chain.work', 'Headers.chainwork_range', 'Headers.chainwork_to_height', 'Headers.longest_chain'])

prop('C05', 'Reopening a headers file reproduces the same headers and chains',
     'Opening a headers file again with the same coin and checkpoint gives the same headers, chains (same order, parents, tips, work), lookups and heights '
     'as the session that wrote it, after any number of connects, rejected connects, pre-checkpoint sets and earlier reopenings, and however far the file has grown. '
     'A file that is missing, too short, of another version or that does not hold the checkpoint header is replaced by a fresh one holding just the checkpoint.',
     ['histories', 'configurations'], 'every history of sessions; every checkpoint height; every malformed initial file',
     'tests reload one single chain of 10 and one pair of chains; growth past the 5,000-header allocation step, repeated sessions and malformed files of other kinds are not covered',
     [CH, UT], [('file layout', f'{CH}:_HeaderStorage'), ('rebuild', f'{CH}:Headers._read_headers'), ('mapping', f'{UT}:map_file')],
     ['Headers.from_file', 'Headers.flush', 'file bytes (public layout documented in the storage class)'],
     [('reserved area', 'size, version, count', f'{CH}:_HeaderStorage.struct_reserved')])

prop('C06', 'A crash at any point leaves a headers file that opens to before or after',
     'If the process dies at any point while a headers file is being created, a header is being connected or a pre-checkpoint header is being set, opening the file again succeeds and shows '
     'exactly the state before that operation or exactly the state after it (for creation: just the checkpoint).',
     ['crash_points', 'histories'], 'every intermediate content of the file during every operation of every history',
     'no test interrupts an operation',
     [CH, UT], [('write order of header and count', f'{CH}:_HeaderStorage._set_raw_header'), ('creation', f'{CH}:_HeaderStorage._create_file'), ('open', f'{CH}:_HeaderStorage._open_file')],
     ['file content at every executed line of the library during an operation', 'Headers.from_file on each such content'])

prop('C07', 'Headers up to the checkpoint can be set in any order and holes are reported',
     'Setting the raw header at a height from 0 to the checkpoint makes exactly that height readable on every chain with exactly those bytes, '
     'leaving every other height, the chains and the header count unchanged; any other height is refused with ValueError and data that is not 80 bytes of binary with TypeError. '
     'Reading a height that was never set (or above the chain tip, or negative) raises MissingHeader, as does any work, median-time or difficulty query that needs it.',
     ['histories', 'inputs'], 'every sequence of sets and reads at every height, interleaved with connects and reopens',
     'tests set one height and read it; isolation of neighbours, overwrite, boundaries and reads through forks are not checked',
     [CH], [('set', f'{CH}:Headers.set_one'), ('read', f'{CH}:_HeaderStorage.__getitem__'), ('base chain index', f'{CH}:Chain.header_index')],
     ['Headers.set_one', 'Headers.raw_header_at_height', 'Headers.header_at_height', 'len(headers)'])

prop('C08', 'Mainnet required bits follow the fortnightly, EDA and DAA rules',
     'On mainnet rules the required bits at a height are the original 2016-block retarget below height 478558, that retarget with the 12-hour emergency adjustment (by median times past) '
     'from there to 504031, and the 144-block work-based adjustment above, each computed in exact integer arithmetic from the ancestors on the given chain, '
     'clamped as specified and never easier than the coin\'s maximum target. The median time past is the upper median of up to 11 timestamps ending at the height.',
     ['inputs', 'histories'], 'all heights, all timestamps (including non-monotonic) and bits of the ancestors, on base chains and forks',
     'tests replay recorded real headers: clamps on both sides, equal timestamps, regime boundaries with other data, forks and other maximum targets do not occur in them',
     [WK, CH, CO], [('rule selection', f'{WK}:required_bits_mainnet'), ('retarget', f'{WK}:_required_bits_fortnightly'), ('EDA', f'{WK}:_required_bits_EDA'), ('DAA', f'{WK}:_required_bits_DAA'), ('MTP', f'{CH}:Headers.median_time_past')],
     ['Headers.required_bits', 'Headers.median_time_past'])

prop('C09', 'Testnet-family required bits follow minimum-difficulty and DAA rules',
     'On testnet and regtest rules a block more than 20 minutes after its parent requires the genesis bits, except at multiples of 2016 up to height 1188697 where the fortnightly retarget applies; '
     'other blocks up to that height require the most recent ancestor bits that are not the genesis bits or lie at a multiple of 2016, and later ones the 144-block adjustment. The scaling testnet uses the same rules '
     'with height 2200 and has no 20-minute exception above it.',
     ['inputs', 'histories'], 'all heights, timestamps and ancestor bits, per coin, on base chains and forks',
     'tests replay recorded windows of three networks; timestamps exactly at, just below or far before the 20-minute limit, and boundary heights, are only sampled',
     [WK, CO], [('rule', f'{WK}:_required_bits_testnet'), ('parameters', f'{WK}:required_bits_testnet'), ('parameters', f'{WK}:required_bits_scaling_testnet')],
     ['Headers.required_bits'])

prop('C10', 'Compact bits, targets and work convert exactly',
     'Decoding compact bits gives exactly mantissa times 256^(exponent-3) for every encoding the encoder can produce and ValueError for every other 32-bit value; encoding any target of at most 256 bits gives the '
     'encoding of the greatest representable target not above it (ValueError outside), so decode-then-encode is the identity. Work is exactly floor(2^256 / (target+1)), and header work, target and hash value agree with these.',
     ['inputs'], 'all 2^32 bits values and all 256-bit targets, in any call order',
     'tests check under thirty values; the boundary of the sign bit, of every exponent and of every mantissa length is not enumerated',
     [WK, CO, HA], [('decode', f'{WK}:bits_to_target'), ('encode', f'{WK}:target_to_bits'), ('work', f'{WK}:bits_to_work')],
     ['bits_to_target', 'target_to_bits', 'bits_to_work', 'Header.work/target/hash_value', 'Coin.header_work/header_bits/header_timestamp/header_prev_hash'])

prop('C11', 'Binary packing and streaming reads are exact inverses',
     'Packing an in-range integer, byte string or list and reading it back from a stream yields the same value, consumes exactly the bytes written and uses the documented width and byte order; '
     'compact-size lengths always use the shortest form and its predicted length is its real length. Out-of-range values raise, and reading from a stream that is too short raises rather than returning a value.',
     ['inputs'], 'all integers per width, all byte strings and lists, all truncations and continuations of the stream',
     'tests check a handful of values per function and no truncation of composite values',
     [PK, MI, HA], [('varint', f'{PK}:pack_varint'), ('read', f'{PK}:read_varint'), ('varbytes', f'{PK}:read_varbytes'), ('list', f'{PK}:read_list')],
     ['pack_*', 'unpack_*', 'read_*', 'varint_len', 'int_to_be_bytes/int_to_le_bytes and inverses', 'hash_to_hex_str/hex_str_to_hash/hash_to_value'])

prop('C12', 'Transactions serialize to the wire format and parse back unchanged',
     'Serializing a transaction gives exactly the bitcoin wire encoding of its version, inputs, outputs and locktime; parsing those bytes gives an equal transaction, consumes exactly them from a stream, '
     'and the reported size of the transaction and each input and output is the length of its serialization. The transaction hash is the double SHA-256 of the serialization, and parsing any truncated serialization raises.',
     ['inputs'], 'all versions, counts, scripts of any length, values, sequences and locktimes; every truncation; several transactions in one stream',
     'tests round-trip three real transactions and size a few synthetic ones',
     [TX, PK, SC], [('serialization', f'{TX}:Tx.to_bytes'), ('parsing', f'{TX}:Tx.read'), ('size', f'{TX}:Tx.size_io')],
     ['Tx/TxInput/TxOutput .to_bytes/.from_bytes/.to_hex/.from_hex/.read/.size', 'Tx.hash', 'Tx.hex_hash'])

prop('C13', 'Signature hashes commit to exactly what the sighash flags say',
     'The signature hash of an input is the double SHA-256 of the replay-protected (BIP143-style) preimage for that input, value, script and sighash, so it depends on exactly the transaction parts those flags commit to and on no others. '
     'Out-of-range input indices, negative values and non-SigHash flags are refused with IndexError, ValueError and TypeError.',
     ['inputs'], 'all transactions, input indices (including SINGLE with no matching output), all 256 sighash bytes, values and scripts, in any call order and after mutation of the transaction',
     'tests check 2 inputs of one transaction; other shapes (more inputs than outputs, empty lists, mutated after hashing) are not',
     [TX, SG], [('preimage', f'{TX}:Tx.signature_hash'), ('input part', f'{TX}:TxInput.to_bytes_for_signature'), ('flags', f'{SG}:SigHash')],
     ['Tx.signature_hash'])

prop('C14', 'Transaction predicates and JSON views report the transaction truthfully',
     'A transaction is final for a block exactly when its locktime is zero, is below the height (or the timestamp for locktimes of at least 500,000,000), or all sequences are maximal; an input is coinbase exactly when its previous hash is zero and its index is 2^32-1. '
     'The JSON form of any transaction can be produced for every combination of flags and states its fields, counts, script hex, hash, size, locktime meaning and output classification correctly; the output total is the exact sum.',
     ['inputs', 'configurations'], 'all transactions, block heights and timestamps, and all JSON flag combinations',
     'tests cover fixed transactions and never request output classification for script-hash outputs',
     [TX, SC, AD], [('finality', f'{TX}:Tx.is_final_for_block'), ('JSON', f'{TX}:Tx.to_json'), ('script JSON', f'{SC}:Script.to_json')],
     ['Tx.is_final_for_block', 'Tx.are_inputs_final', 'Tx.is_coinbase', 'Tx.total_output_value', 'Tx.to_json'])

prop('C15', 'Data and number pushes are minimal and evaluate to what was pushed',
     'Pushing any byte string produces the shortest script encoding (single opcode for empty, 1-16 and 0x81, else the smallest length prefix) and parsing it yields exactly that string as one push; '
     'pushing any integer pushes its minimal signed-magnitude little-endian form and decoding that item returns the integer. Push-and-drop helpers push exactly the given items and then drop exactly as many; building scripts by appending equals concatenating the parts.',
     ['inputs', 'programs'], 'all byte strings at every length boundary, all integers, all sequences of appended items',
     'tests sample some lengths and integers up to 2 bytes',
     [SC, MI], [('push', f'{SC}:push_item'), ('int', f'{SC}:push_int'), ('decode', f'{SC}:item_to_int'), ('append', f'{SC}:Script.__lshift__')],
     ['push_item', 'push_int', 'item_to_int', 'push_and_drop_item(s)', 'Script.__lshift__', 'Script.push_many'])

prop('C16', 'Script parsing yields exactly the script\'s operations or reports truncation',
     'Iterating the operations of any byte string yields, in order, one entry per opcode with pushed data as bytes and every other opcode as its number, covering every byte exactly once, '
     'and raises TruncatedScriptError exactly when the final push runs past the end, after yielding all earlier operations. Wrapping, measuring, comparing, hashing and converting a script to bytes or hex preserve its exact bytes.',
     ['inputs', 'programs'], 'all byte strings up to any length, including every truncation of every push form',
     'tests parse a few fixed scripts and a few truncations',
     [SC], [('parser', f'{SC}:Script.ops')], ['Script.ops', 'Script.__len__/__bytes__/__eq__/__hash__/to_hex/from_hex'])

prop('C17', 'Script ASM text renders operations and parses back by its rules',
     'The ASM text of a script shows, space separated, each operation\'s name, pushes of at most 4 bytes as signed decimal, longer pushes as hex (with signatures\' sighash named when asked), and "[error]" if truncated. '
     'Parsing ASM text turns opcode names into opcodes, in-range decimals into number pushes and hex into data pushes, and raises ScriptError for anything else; scripts of canonical pushes and named opcodes whose text is unambiguous survive the round trip.',
     ['inputs', 'programs'], 'all scripts and all ASCII ASM texts',
     'tests cover a fixed list of words and scripts',
     [SC, SG], [('render', f'{SC}:Script.to_asm'), ('parse', f'{SC}:Script.from_asm'), ('sighash text', f'{SG}:SigHash.to_string')],
     ['Script.to_asm', 'Script.from_asm', 'Script.op_to_asm_word', 'Script.asm_word_to_bytes'])

prop('C18', 'Output scripts are classified by what they require, for the coin asked',
     'A script is classified as pay-to-pubkey-hash, pay-to-script-hash, pay-to-pubkey, bare multisig or OP_RETURN exactly when, after removing no-ops and pushes that are immediately dropped, it has that template with valid contents, and as unknown otherwise; '
     'the result carries the script\'s hash, keys or threshold and the coin asked for, whatever was classified before. Building the canonical script of an address, key or multisig and classifying it returns an equal object.',
     ['inputs', 'programs', 'histories'], 'all scripts (including truncated ones and inserted dropped pushes), all coins in any order',
     'tests classify one canonical script per kind, nearly always for one coin',
     [SC, AD], [('template', f'{SC}:Script.to_template'), ('classification', f'{SC}:classify_output_script'), ('output types', AD)],
     ['classify_output_script', 'Script.to_template', 'P2PKH_Address/P2SH_Address/P2PK_Output/P2MultiSig_Output/OP_RETURN_Output'],
     [('template cache', 'per-coin constructors', f'{CO}:Coin.output_script_templates')])

prop('C19', 'Base58 and Base58Check are exact bijections and reject everything else',
     'Base58 encoding followed by decoding is the identity on non-empty byte strings (leading zeros included) and decoding followed by encoding is the identity on valid text; Base58Check accepts exactly payload plus the first four bytes of its double SHA-256. '
     'Empty text, characters outside the alphabet and bad checksums raise Base58Error; a minikey is accepted exactly when it has 22 or 30 base58 characters, starts with S and its SHA-256 with "?" appended starts with a zero byte.',
     ['inputs'], 'all byte strings and all texts',
     'tests check a few fixed strings',
     [B58, HA], [('codec', f'{B58}:base58_decode'), ('checksum', f'{B58}:base58_decode_check'), ('minikey', f'{B58}:is_minikey')],
     ['base58_encode', 'base58_decode', 'base58_encode_check', 'base58_decode_check', 'is_minikey'])

prop('C20', 'Address text identifies exactly one hash, kind and network',
     'Converting an address to text and back for the same coin returns an equal address, and text is accepted exactly when it is valid Base58Check with that coin\'s version byte and a 20-byte hash, or a valid cashaddr for that coin\'s prefix (given or implied, not mixed case) with a known type and 20-byte hash. '
     'Any other text, including any address with one character changed, is refused with ValueError. The low-level cashaddr decoder accepts exactly the strings with valid checksum, zero padding, known type and matching size, and raises ValueError otherwise.',
     ['inputs', 'configurations'], 'all texts for all coins, including every single-character corruption',
     'tests decode a fixed table and a few malformed strings',
     [AD, CA, B58], [('text parsing', f'{AD}:Address.from_string'), ('cashaddr', f'{CA}:decode')],
     ['Address.from_string', 'P2PKH_Address.to_string', 'P2SH_Address.to_string', 'cashaddr.decode'])

prop('C21', 'Signature encodings convert without loss and invalid ones are refused',
     'DER and 64-byte compact forms of an ECDSA signature convert into each other exactly, the r and s values reported are the encoded ones (zero for an encoded integer that is negative or not below the group order), and a recoverable signature and its message form carry the same r, s and recovery id. '
     'Bytes that are not a valid encoding (wrong length, malformed DER, out-of-range r or s in compact form, bad recovery or header byte, bad base64) raise InvalidSignatureError. A transaction signature object keeps its exact bytes and splits off its last byte as the sighash, whose text names its parts.',
     ['inputs'], 'all r, s pairs and recovery ids, all sighash bytes, all malformed byte strings',
     'tests use a few random signatures and very few malformed ones',
     [SG], [('conversion', f'{SG}:compact_signature_to_der'), ('message form', f'{SG}:to_recoverable_signature'), ('object', f'{SG}:Signature')],
     ['der_signature_to_compact', 'compact_signature_to_der', 'Signature', 'SigHash'])

prop('C22', 'Keys survive every external representation unchanged',
     'A private key exported as bytes, integer, hex or WIF and imported again is the same key; WIF also preserves the compressed flag and a coin with that version byte. A public key exported compressed, uncompressed, as hex or as a point and imported is the same key with the form it was given in. '
     'Secrets outside 1..n-1, wrong lengths, unknown version bytes, malformed WIF, invalid points and malformed minikeys raise ValueError (TypeError for wrong types, ValueError or OverflowError for integers that do not fit 256 bits); a minikey gives the SHA-256 secret with uncompressed form.',
     ['inputs', 'configurations'], 'all keys, forms and coins; all malformed inputs',
     'tests use random keys and a few malformed inputs',
     [KY, B58, CO], [('private forms', f'{KY}:PrivateKey'), ('public forms', f'{KY}:PublicKey'), ('WIF byte', f'{CO}:Coin.from_WIF_byte')],
     ['PrivateKey.to_*/from_*', 'PublicKey.to_*/from_*', 'PrivateKey.public_key', 'PublicKey.to_address/hash160/complement/P2PK_script/P2PKH_script'])

prop('C23', 'Key arithmetic follows the secp256k1 group and public mirrors private',
     'Adding to or multiplying a private key is arithmetic modulo the group order and doing the same to its public key gives the public key of the result; combining public keys gives the key of the sum of secrets. '
     'Operations whose operand is not below the group order, multiplications by zero, and those whose result would be zero or the point at infinity raise ValueError, originals are never modified, and the compressed form and coin are kept. The shared secret two parties compute from their own private and the other\'s public key is the same.',
     ['histories', 'inputs'], 'all sequences of operations on a set of keys, including results at zero and at the order',
     'tests check single operations on random keys; sequences, cancellation to zero and preservation through chains of operations are not',
     [KY], [('add/multiply', f'{KY}:PrivateKey.add'), ('public', f'{KY}:PublicKey.add'), ('combine', f'{KY}:PublicKey.combine_keys'), ('ECDH', f'{KY}:PrivateKey.shared_secret')],
     ['PrivateKey.add/multiply/shared_secret/ecdh_shared_secret', 'PublicKey.add/multiply/combine_keys'])

prop('C24', 'Signatures verify for exactly the signer\'s key and message',
     'A signature made by a private key over a message with a hasher (DER, recoverable or signed-message form) is deterministic, low-s and satisfies the ECDSA equation for that key and hash; verification returns True exactly when a well-formed low-s signature satisfies it. '
     'Recovering the public key from a recoverable or message signature returns the signer\'s key; verifying a message against an address succeeds exactly when the recovered key\'s hash (either form) is that address\'s. Hashes that are not 32 bytes and a missing hasher where one is required raise ValueError.',
     ['inputs'], 'all keys, messages (text or binary), hashers, and all combinations of signature, message, key and address taken from different signings',
     'tests verify matching triples and a few mismatches',
     [KY, SG], [('sign', f'{KY}:PrivateKey.sign'), ('message', f'{KY}:PrivateKey.sign_message'), ('verify', f'{KY}:PublicKey.verify_message_and_address')],
     ['PrivateKey.sign*/sign_message*', 'PublicKey.verify_*', 'PublicKey.from_recoverable_signature/from_signed_message'])

prop('C25', 'Encrypted messages decrypt to the original and any tampering is refused',
     'A message encrypted to a public key (binary or base64, any magic) has the documented ECIES layout under a fresh ephemeral key and decrypts with the matching private key to exactly the original bytes, with either AES implementation. '
     'Decrypting with another key or magic, or after changing, truncating or extending any byte, raises DecryptionError; AES-CBC padding is PKCS7 and malformed padding is refused.',
     ['inputs', 'fault_sequences'], 'all message lengths and keys; every single-byte corruption and truncation',
     'tests encrypt a few messages and try a few corruptions',
     [KY, AE], [('encrypt', f'{KY}:PublicKey.encrypt_message'), ('decrypt', f'{KY}:PrivateKey.decrypt_message'), ('padding', f'{AE}:_strip_PKCS7_padding')],
     ['PublicKey.encrypt_message*', 'PrivateKey.decrypt_message', 'aes.aes_encrypt_with_iv', 'aes.aes_decrypt_with_iv'])

prop('C26', 'BIP32 derivation and extended keys match the standard on both sides',
     'Deriving a child of a private key follows BIP32 exactly (hardened or not) and, for non-hardened indices, its public key equals the same child of the parent\'s public key, with equal chain code, index, depth and parent fingerprint; hardened public derivation and out-of-range indices raise ValueError. '
     'An extended key string has the standard 78-byte content for its coin and parsing it returns an equal key with equal derivation data and network; malformed strings raise ValueError. The safe-child variant returns the first valid child from the given index, never crossing into or out of the hardened range.',
     ['histories', 'inputs'], 'all seeds, derivation paths mixing private and public steps, and coins; all malformed strings',
     'tests follow the published vectors and a few random children',
     [B32, KY], [('private child', f'{B32}:BIP32PrivateKey.child'), ('public child', f'{B32}:BIP32PublicKey.child'), ('string', f'{B32}:_from_extended_key'), ('payload', f'{B32}:BIP32Derivation.extended_key')],
     ['BIP32PrivateKey.from_seed/child/child_safe/derivation/fingerprint/identifier/to_extended_key_string', 'BIP32PublicKey.*', 'bip32_key_from_string'])

prop('C27', 'Derivation path text and index lists convert exactly',
     'Text is accepted as a derivation path exactly when it is "m" followed by any number of "/" and decimal index below 2^31 with an optional hardening mark, and it decodes to those indices with 2^31 added for hardened ones; everything else raises ValueError (TypeError for non-text). '
     'Building text from a list of indices in 0..2^32-1 and decoding returns the same list, and lists with other elements are refused.',
     ['inputs'], 'all texts and all index lists',
     'tests check about twenty strings',
     [B32], [('decode', f'{B32}:bip32_decompose_chain_string'), ('encode', f'{B32}:bip32_build_chain_string')],
     ['bip32_decompose_chain_string', 'bip32_is_valid_chain_string', 'bip32_build_chain_string', 'bip32_validate_derivation'])

prop('C28', 'BIP39 mnemonics encode entropy with a checksum and validate exactly',
     'A generated mnemonic has the word count for its bit strength and encodes entropy followed by the leading bits of its SHA-256; a mnemonic is valid exactly when it has 12, 15, 18, 21 or 24 listed words whose checksum matches, so it encodes exactly one entropy. '
     'Unlisted words raise an error listing them in order, wrong word-list sizes and strengths raise ValueError, normalization ignores case, extra whitespace and Unicode composition, and the seed is PBKDF2-HMAC-SHA512 of the normalized text. The bundled word lists are the standard ones.',
     ['inputs', 'configurations'], 'all entropies and strengths, all word sequences (each last word), all bundled lists, all spacing and case variants',
     'tests use the published vectors and a few invalid mnemonics',
     [MN], [('encode', f'{MN}:BIP39Mnemonic._from_entropy'), ('validate', f'{MN}:BIP39Mnemonic.is_valid'), ('seed', f'{MN}:BIP39Mnemonic.to_seed')],
     ['BIP39Mnemonic.generate/is_valid/normalize/to_seed', 'Wordlists.bip39_wordlist'])

prop('C29', 'Electrum seeds convert without loss and generated ones have their type',
     'Every 128- or 256-bit hex seed converts to a 12- or 24-word old-style mnemonic and back to the same hex, other text being refused, and an old-style mnemonic is valid exactly when it is such a word sequence decoding in range, or such a hex string. '
     'A new-style mnemonic is valid for a prefix exactly when the HMAC-SHA512 of its normalized text under "Seed version" starts with that prefix in hex; a generated one is valid for the requested prefix, has the word count for the requested bits and is not also a valid old-style seed when that is to be skipped.',
     ['inputs', 'histories'], 'all seeds, word sequences, prefixes, word lists and strengths',
     'tests use a few fixed seeds and one generation per prefix',
     [MN], [('old', f'{MN}:ElectrumMnemonic.old_to_hex_seed'), ('old encode', f'{MN}:ElectrumMnemonic.hex_seed_to_old'), ('new', f'{MN}:ElectrumMnemonic.generate_new')],
     ['ElectrumMnemonic.*'])

prop('C30', 'Values compare equal exactly when they stand for the same thing',
     'Two keys are equal exactly when they have the same secret or the same point, whatever form, coin or representation they came from; scripts and signatures equal anything binary with the same bytes; addresses and outputs are equal exactly when '
     'their kind and hash, keys or threshold are; transactions, inputs, outputs, headers and derivations exactly when all their fields are, also after a field was changed. Equality is symmetric and never raises for other values, inequality is its opposite, and equal values that have hashes have equal hashes and find each other in sets and dictionaries.',
     ['inputs', 'histories'], 'all pairs of values of all kinds, made in every way the library offers, and values changed between comparisons',
     'tests compare a few equal pairs per class; near-equal values, other classes, hashes and changes between comparisons are not explored',
     [KY, SC, SG, AD, TX, B32, CO], [('keys', f'{KY}:PublicKey.__eq__'), ('script', f'{SC}:Script.__eq__'), ('outputs', f'{AD}:P2MultiSig_Output.__eq__')],
     ['==, !=, hash() and set membership of PrivateKey, PublicKey, BIP32 keys, Script, Signature, addresses, outputs, Tx, TxInput, TxOutput, Header, BIP32Derivation'])

prop('C31', 'Printing a value shows exactly what it is and never a secret',
     'The printed form (str) of a private key, ordinary or BIP32, is the SHA-256 of its secret in hex, and no printed form or formatted container of it ever contains the secret, its WIF or its extended key. A public key prints as the hex of its own form, a BIP32 public key as its extended key string, an address as its text, '
     'a script as its hex, and the printed forms of headers and the representations of BIP32 keys, derivations, transactions, inputs and outputs show all their fields exactly (hashes in reversed hex).',
     ['inputs'], 'all keys, coins, forms, transactions and derivations',
     'tests check one representation of each class',
     [KY, B32, TX, AD, SC], [('private', f'{KY}:PrivateKey.__str__'), ('BIP32', f'{B32}:BIP32PrivateKey.__repr__'), ('transaction', f'{TX}:TxInput.__repr__')],
     ['str(), repr(), format() of keys, addresses, scripts, transactions, derivations'])

prop('C32', 'Difficulty and log2 work are exact to double precision',
     'The difficulty of compact bits, or of a header with those bits, is Bitcoin mainnet\'s maximum target divided by their target for every coin, with ValueError for invalid bits; '
     'the log2 work of a chain, also as its description shows it, is the base-2 logarithm of its total work at that time, however it has grown. Both are accurate to double precision.',
     ['inputs', 'histories'], 'all valid bits with a positive target, all coins, and all chains, asked after every connected header',
     'tests compute one difficulty and no logarithm',
     [CO, CH], [('difficulty', f'{CO}:Coin.bits_to_difficulty'), ('logarithm', f'{CH}:Chain.log2_work')],
     ['Header.difficulty', 'Coin.bits_to_difficulty', 'Chain.log2_work', 'Chain.desc'])

prop('C33', 'A headers file opened with another checkpoint shows the same headers from there',
     'Opening a headers file with another checkpoint than before keeps the file as it is when it holds that header at that height: the headers above it are rebuilt into chains with the same ancestry, order and heights and with work counted from the given prior work, those below it become the headers set before the checkpoint, '
     'and opening with the earlier checkpoint again shows what was there before. When a stored header does not descend from the new checkpoint, opening raises MissingHeader and changes nothing. When the file does not hold that header at that height it is replaced by a fresh one holding just the checkpoint.',
     ['histories', 'configurations'], 'every history of connects, sets and openings with any sequence of higher and lower checkpoints, on the chain, off it and absent',
     'tests always reopen with the checkpoint the file was written with',
     [CH], [('open', f'{CH}:_HeaderStorage._open_file'), ('rebuild', f'{CH}:Headers._read_headers'), ('base chain', f'{CH}:Chain.from_checkpoint')],
     ['Headers.from_file', 'Headers.chains/lookup/header_at_height/chainwork_to_height after it', 'file contents'])

prop('C34', 'A header that cannot be stored leaves the headers as they were',
     'When the operating system refuses to open, grow or map the headers file while a header is connected, connect raises OSError and the headers are as if it had not been called: the count, chains, tips, work, lookups, heights and stored bytes are as before and still readable, '
     'headers that need no room are accepted or refused as ever, and the same header connects once the cause is gone. Opening a headers file that is refused in this way raises OSError and leaves the file as it was; when creating one is refused, a later opening gives the checkpoint alone.',
     ['histories', 'faults'], 'every history of connects, sets and openings with a refusal of any kind at any of them',
     'tests never make the system refuse anything',
     [CH], [('growth', f'{CH}:_HeaderStorage._set_raw_header'), ('open', f'{CH}:_HeaderStorage._open_file'), ('connect', f'{CH}:Headers.connect')],
     ['Headers.connect/from_file under limits on file size and open files', 'Headers.chains/lookup/header_at_height after it', 'file contents'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))

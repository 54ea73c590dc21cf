#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the checks do not use it)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'bitforge/'
P = []


def p(id, title, statement, over, text, why, files, mech, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[B + f for f in files],
                                mechanism=[dict(name=n, where=B + w) for n, w in mech])), note))


I = ['inputs']
IP = ['inputs', 'programs']
IH = ['inputs', 'histories']
EC = 'Curve operations are an abstract group with exact field facts (see DESIGN.md); '
HA = 'hash functions are uninterpreted functions with real output sizes; '

p('C01', 'A private key survives every export and import unchanged',
  'Exporting a private key to WIF, bytes or hexadecimal and importing it again gives the same secret, network and compression, and the WIF text is the standard one (network prefix, 32-byte big-endian secret, 01 if compressed, Base58Check). '
  'Any other text or byte string is refused with one of the library\'s key errors: nothing that is not a well-formed encoding of a secret in range is ever imported, and no foreign exception escapes.',
  I, 'all secrets 1..n-1, both networks, both compressions; all WIF payloads of 0, 1, 4, 32..36 bytes; all byte strings of 0..64 bytes of the tested lengths',
  'The tests round-trip a handful of fixed keys and a few malformed strings; the space is 2^256 secrets and every malformed payload.',
  ['privkey.py', 'encoding.py', 'networks.py'], [('WIF import/export', 'privkey.py'), ('Base58Check', 'encoding.py')], HA)
p('C02', 'Secrets are in range, and generated ones come from the system RNG whole',
  'A private key can only be built with a secret from 1 to the group order minus one and a known network; anything else is refused. '
  'Without a secret, every key makes its own draw from the operating system\'s secure random source, the secret is always in range, and no randomness is discarded (distinct draws give distinct secrets, both ends of the range are reachable).',
  ['inputs', 'fault_sequences'], 'all integers from -2^257 to 2^257; every value the random source can return; any network name of 0..9 characters',
  'Tests try 0, n and a few values, and cannot observe where randomness comes from or that all secrets are reachable.',
  ['privkey.py', 'networks.py'], [('secret validation', 'privkey.py'), ('random secret', 'privkey.py')], 'The random source is a stub that returns arbitrary values of its contract. ')
p('C03', 'Base58Check is lossless and refuses every corrupted text',
  'Encoding any payload in Base58Check and decoding it gives the payload back, and the text is the standard one (leading zero bytes as 1s, four-byte double-SHA256 checksum). '
  'Decoding accepts a text exactly when it consists of alphabet characters and its last four bytes are the checksum of the rest, each payload has a single text, and every other text is refused with the library\'s own errors.',
  I, 'all payloads of 0..8 bytes (also to 78), all texts of 0..8 characters (also to 52), any foreign character',
  'Tests decode a few fixed addresses; leading-zero counts, checksum bytes and foreign characters are unbounded.',
  ['encoding.py', 'utils/encoding.py'], [('encode_base58h/decode_base58h', 'encoding.py'), ('base 58 conversion', 'utils/encoding.py')], HA)
p('C04', 'Addresses round-trip, and only well-formed ones are accepted',
  'An address exported as text, bytes or hexadecimal and imported again has the same hash, network and type, and its text is the standard version byte plus 20-byte hash in Base58Check. '
  'An address is accepted exactly when it carries 20 bytes of hash and a version byte of a known network and type; anything else is refused with one of the library\'s address errors.',
  I, 'all 20-byte hashes, both networks, both types; all payloads of 0, 1, 20, 21, 22, 25 bytes; all base58 texts of 33..34 characters',
  'Tests cover a dozen fixed addresses out of 2^160 per network and type.',
  ['address.py', 'encoding.py', 'networks.py'], [('parsing and versions', 'address.py')], HA)
p('C05', 'Integer and varint encodings are exact, minimal and never truncate',
  'Fixed-width and natural-width integer encodings, in both byte orders, decode to the number that was encoded; a number that does not fit its width is refused rather than truncated. '
  'Variable-length integers use the protocol\'s shortest form, reading one back consumes exactly its bytes, and data that ends too early is reported as such.',
  I, 'all integers -2..256^k+1 for widths 1, 2, 4, 8, 32; all integers to 2^72; all varints -2..2^64+1; all byte strings of 0..9 bytes',
  'Tests encode about ten values; the width boundaries and both byte orders multiply.',
  ['encoding.py', 'tools.py'], [('encode_int, encode_varint', 'encoding.py'), ('Buffer.read_varint', 'tools.py')], '')
p('C06', 'Public keys survive SEC encoding, compressed and uncompressed',
  'The public key of every private key exported to SEC bytes or hexadecimal and imported again is the same point with the same compression on the same network; the encoding is 02/03 (parity) plus x, or 04 plus x and y, big endian. '
  'A key and its negation never share an encoding.',
  I, 'all secrets, both compressions, both networks', 'Tests use a few fixed points; parity and leading zeros of coordinates are the rare cases.',
  ['pubkey.py', 'utils/encoding.py', 'utils/ecdsa.py'], [('SEC encoding', 'utils/encoding.py'), ('decompression', 'utils/ecdsa.py')], EC)
p('C07', 'Only points of the curve, in SEC form, are accepted as public keys',
  'A public key is accepted exactly when it is a pair of field elements on the curve, or the well-formed SEC encoding of one, of the right length and prefix. '
  'Every other pair, byte string or text is refused with one of the library\'s key errors.',
  I, 'all integer pairs from -2 to 2^257; all byte strings of 0, 1, 2, 32..34, 64..66 bytes', 'Tests try a few invalid encodings; invalid-curve inputs are everything else.',
  ['pubkey.py', 'utils/encoding.py', 'utils/ecdsa.py'], [('validity', 'utils/ecdsa.py'), ('parsing', 'pubkey.py')], EC)
p('C08', 'Addresses of keys and scripts are the hashes the protocol defines',
  'The address of a key is RIPEMD160(SHA256(SEC encoding)) with the key\'s own compression and network, and the address of a script is the same hash of its serialized bytes with script type. '
  'All hash helpers compute the composition their name says over all of the data.',
  I, 'all secrets, both compressions and networks; scripts of one push of 0..76 bytes (also 600) and an opcode; any data of 0..33 bytes',
  'Tests compare fixed vectors.', ['address.py', 'privkey.py', 'pubkey.py', 'encoding.py', 'utils/encoding.py', 'script/script.py'],
  [('hash helpers', 'encoding.py'), ('address of a script', 'address.py')], EC + HA)
p('C09', 'Script numbers are sign-magnitude little endian, minimal and size-limited',
  'Encoding any integer as a script number gives the unique minimal sign-magnitude little-endian form, and decoding it gives the integer back. '
  'Decoding any byte string gives its sign-magnitude value, except that strings longer than the size limit, or non-minimal ones when minimality is asked for, are refused.',
  I, 'all integers of at most 40 bits (also 128); all byte strings of 0..6 bytes, limits 4 and 5', 'Tests list about thirty values around byte boundaries.',
  ['encoding.py'], [('encode_script_number, decode_script_number', 'encoding.py')], '')
p('C10', 'Buffers hand out exactly the bytes asked for; hexadecimal is lossless',
  'Reading from a buffer returns the next bytes in order and removes exactly those; asking for more than remain is an error that leaves the buffer as it was. '
  'Hexadecimal encoding is two lowercase digits per byte and decodes back; text that is not hexadecimal is refused with the library\'s own error.',
  IH, 'all buffers of 0..5 bytes with any read amounts, followed by further reads and writes; all texts of 0..6 characters', 'Tests read a few fixed buffers.',
  ['tools.py', 'encoding.py'], [('Buffer.read', 'tools.py'), ('encode_hex, decode_hex', 'encoding.py')], '')
p('C11', 'Parsing a script and serializing it gives back the same bytes',
  'Every byte string that parses as a script serializes to itself, with every push keeping its opcode, length field and data. '
  'A push that promises more data than there is makes the whole script invalid with the library\'s own error, and scripts are immutable values: equal instructions mean equal, equally hashed scripts.',
  I, 'all byte strings of 0..3 bytes (also 5); all pushes of every kind with data at the size boundaries; all length fields of 1, 2 and 4 bytes; every truncation',
  'Tests cover some dozens of scripts.', ['script/script.py', 'script/instruction.py', 'tools.py', 'encoding.py'], [('from_bytes, to_bytes', 'script/script.py'), ('Instruction', 'script/instruction.py')], '')
p('C12', 'The text form of a script is lossless, and only proper text is accepted',
  'Writing a script made of named opcodes and pushes as text and reading the text gives the same script, whatever the pushed data. '
  'Text with unknown words, wrong push sizes, missing or bad data is refused with the library\'s own errors.',
  I, 'all named opcodes alone and in pairs; pushes of every kind, any data of the boundary lengths; all single words of 1..5 visible characters',
  'Tests parse some dozens of texts.', ['script/script.py', 'script/instruction.py', 'script/opcode.py'], [('from_string, to_string', 'script/script.py')], 'Opcodes without a name, and text outside ASCII, are outside the claim. ')
p('C13', 'Data pushes use the smallest opcode and carry exactly their data',
  'Pushing data chooses the smallest opcode that can carry its length and serializes opcode, length and data exactly; an instruction whose opcode cannot carry its data, or carries data without being a push, cannot be built. '
  'A push is reported as minimal exactly when no shorter way of pushing the same data exists.',
  I, 'any data at lengths around every boundary (0, 1, 75, 76, 255, 256, 65535 and 65536 thorough); all lengths -2..2^32+1; all opcode numbers',
  'Tests check a few lengths.', ['script/instruction.py', 'script/opcode.py', 'script/script.py'], [('push choice', 'script/opcode.py'), ('minimality', 'script/instruction.py')], 'An empty push can only be written as the number 0. ')
p('C14', 'Scripts are classified by their exact form; standard scripts are exact',
  'A script is recognized as pay-to-pubkey, pay-to-script, multisig or data output or input exactly when its instructions have that form, whichever way it was built, and the parts reported (keys, hashes, signatures, required number, redeem script, data) are those in the script. '
  'The standard scripts that the library builds consist of exactly the instructions of their form, with the given parts in order.',
  IP, 'all sequences of 0..4 opcodes with one-byte or empty pushes of any kind (thorough: 5); all variants of the standard forms with up to two opcodes changed; any parts for the constructors, 1..3 keys (also 15; thorough: 16)',
  'Tests classify about forty scripts; a template that accepts a near miss is invisible to them.',
  ['script/script.py', 'script/instruction.py', 'script/opcode.py'], [('classification', 'script/script.py'), ('compile', 'script/script.py')], EC + HA)
p('C15', 'Opcodes keep their numbers, names and kinds',
  'Each opcode number 0..255 makes one opcode with its protocol name, kind (push, number, other), order and byte form, each name gives its number back, and numbers -1..16 map to the opcodes that push them. '
  'Anything outside is refused with the library\'s own error.',
  I, 'all integers -2..257; all protocol names', 'Tests look at a few opcodes.', ['script/opcode.py'], [('Opcode', 'script/opcode.py')], '')
p('C16', 'Stack opcodes rearrange the stack as the protocol says',
  'Each stack opcode (including pick, roll, the alternate stack, depth and size) leaves exactly the elements the protocol defines in the defined order, and a script that needs more elements than there are fails. '
  'The alternate stack does not outlive a script.',
  IP, 'every stack opcode on 0..7 elements of any contents; all pairs of stack opcodes (also triples); any pick and roll index of 0..2 bytes (also 5)',
  'Tests run one vector per opcode.', ['script/interpreter.py'], [('stack opcodes', 'script/interpreter.py')], '')
p('C17', 'Arithmetic opcodes compute on 4-byte numbers exactly',
  'Each arithmetic and comparison opcode gives the exact result, in minimal form, for all operands of up to four bytes; longer operands, missing operands, and non-minimal operands when minimality is asked for make the script fail. '
  'Results that overflow four bytes stay on the stack as bytes but cannot be used as numbers again.',
  IP, 'all operands of 0..5 bytes per operand', 'Tests run a few numeric vectors; boundaries, negative zero and sign handling are the rare cases.',
  ['script/interpreter.py', 'encoding.py'], [('arithmetic opcodes', 'script/interpreter.py')], '')
p('C18', 'Conditionals execute exactly the branches the protocol says',
  'IF, NOTIF, ELSE and ENDIF, nested or repeated, execute exactly the branches selected by the elements they consume; unbalanced conditionals, and conditionals open across scripts, fail. '
  'Instructions in a branch that is not taken have no effect, except that disabled opcodes and reserved conditionals fail anyway; VERIFY and RETURN fail exactly as defined.',
  IP, 'every program of four (thorough: five) of IF, NOTIF, ELSE, ENDIF, push, VERIFY over any conditions; every opcode number in a branch not taken',
  'Tests run fixed programs.', ['script/interpreter.py'], [('conditional opcodes and execution mask', 'script/interpreter.py')], '')
p('C19', 'Consensus limits hold and bad opcodes always fail',
  'A script of more than 10000 bytes, an element of more than 520 bytes, more than 201 operations (multisig keys included) in a script, or more than 1000 elements on both stacks at any moment fails; anything within the limits does not fail for that reason. '
  'Disabled opcodes fail even in a branch that is not taken; reserved and unknown opcodes fail when executed.',
  IP, 'sizes just below, at and above each limit, any contents; every opcode number',
  'Tests do not reach most limits, and check a few bad opcodes.', ['script/interpreter.py', 'script/opcode.py'], [('limits', 'script/interpreter.py')], '')
p('C20', 'Verifying scripts always gives a boolean and leaves no trace',
  'Verification of any input and output script with any flags ends with true or false, never with an exception, and changes neither script. '
  'An interpreter used before gives the same answers as a new one.',
  ['inputs', 'programs', 'histories'], 'all output scripts of one opcode, and of two with the second out of 16 (thorough: any two), any flags, on 0..4 elements of any contents; all scripts parsed from 1..2 bytes (thorough: 3)',
  'Tests run scripts that are meant to work; crashes live in combinations they do not contain.', ['script/interpreter.py', 'encoding.py'], [('verify', 'script/interpreter.py')], HA)
p('C21', 'A script is accepted exactly when it ends with a true element',
  'Verification accepts exactly when both scripts run without failure and the top element left is true: some byte is not zero, other than a final sign bit. '
  'Conditionals, VERIFY and IFDUP use the same notion of truth, and an empty stack is never accepted.',
  IP, 'any top element of 0..4 bytes (also 16); the known finding is listed in known_findings.json', 'Tests try a few elements, and pin one wrong answer.',
  ['script/interpreter.py'], [('cast_to_bool', 'script/interpreter.py'), ('verify', 'script/interpreter.py')], 'Known finding: see known_findings.json. ')
p('C22', 'Pay-to-script outputs run the redeem script, and only those',
  'With P2SH verification on, an output that is exactly HASH160, 20 bytes, EQUAL is accepted exactly when the last push of a push-only input hashes to them and the script it contains accepts the remaining elements, starting with fresh state. '
  'Without it, or for any other output script, the redeem script is not run.',
  IP, 'redeem scripts of every 0..2 opcodes and every 0..3 bytes, any elements and hashes', 'Tests have a couple of P2SH vectors.',
  ['script/interpreter.py', 'script/script.py'], [('P2SH evaluation', 'script/interpreter.py')], HA)
p('C23', 'CHECKLOCKTIMEVERIFY enforces the lock time exactly as BIP 65 says',
  'With its flag, the opcode fails exactly when the operand is missing, negative, too long, of the other kind than the transaction\'s lock time, greater than it, or the input is final; otherwise it changes nothing. '
  'Without its flag it does nothing.',
  I, 'any operand of 0, 1, 4, 5, 6 bytes, any 32-bit lock time and sequence number, every input index of 3', 'Tests never run it against a transaction.',
  ['script/interpreter.py', 'transaction/transaction.py'], [('OP_CHECKLOCKTIMEVERIFY', 'script/interpreter.py')], '')
p('C24', 'Signature opcodes fail closed',
  'No script is ever accepted because of a signature that was not checked: with missing operands, impossible counts, malformed, wrong or unverifiable signatures or keys, signature opcodes fail or push false. '
  'A multisig check that asks for no signatures consumes exactly its operands, and requires the extra one to be empty if asked to.',
  IP, 'any signature and key bytes of the tested sizes, m of n to 3, any counts of up to 2 bytes; pay-to-pubkey spends with any secrets', 'Tests do not exercise signature opcodes.',
  ['script/interpreter.py', 'signature.py'], [('OP_CHECKSIG, OP_CHECKMULTISIG', 'script/interpreter.py')], 'The library does not implement signature verification in scripts; only failing closed is claimed. ')
p('C25', 'Push-only, minimal-data and upgradable-NOP flags do what they say',
  'With the minimal-data flag a script fails exactly when it executes a push that is not the shortest; with the push-only flag exactly when the input script holds an opcode above 16; with the upgradable-NOP flag exactly when it executes NOP1..NOP10. '
  'Without the flags none of these matter.',
  ['inputs', 'programs', 'configurations'], 'pushes of every kind at each size boundary with any data; every 1..2 opcodes of input script; every NOP, executed and not', 'Tests cover a few combinations.',
  ['script/interpreter.py', 'script/instruction.py', 'script/script.py'], [('flags', 'script/interpreter.py')], '')
p('C26', 'Hash and equality opcodes compute what their names say',
  'RIPEMD160, SHA1, SHA256, HASH160 and HASH256 replace the top element by exactly that hash of it, and EQUAL and EQUALVERIFY tell elements apart by all of their bytes.',
  IP, 'any element of 0, 1, 20, 33 bytes; any two elements of 0..3 bytes (also 75)', 'Tests run single vectors.', ['script/interpreter.py', 'encoding.py'], [('hash opcodes', 'script/interpreter.py')], HA)
p('C27', 'Transactions survive the wire format unchanged',
  'A transaction, input or output serialized to bytes or hexadecimal is the protocol\'s wire form, and parsing it gives back equal fields, scripts and order. '
  'Numbers that do not fit their field are refused rather than truncated, and data cut short anywhere is refused with the library\'s own error.',
  I, 'any ids, indexes, amounts, sequence numbers, lock times and script contents; 1..3 inputs and outputs (also 253); every truncation point',
  'Tests have a few fixed transactions.', ['transaction/transaction.py', 'transaction/input.py', 'transaction/output.py', 'tools.py', 'encoding.py'],
  [('to_bytes, from_bytes', 'transaction/transaction.py'), ('Input', 'transaction/input.py'), ('Output', 'transaction/output.py')], HA)
p('C28', 'Transaction ids are the double hash of the whole transaction',
  'The id of a transaction is the byte-reversed double SHA256 of its wire form in hexadecimal, usable as the id an input refers to. '
  'Transactions that differ in any field have different wire forms, so the id commits to all of it.',
  I, 'any transaction of 1..2 inputs and outputs; any pair of transactions of the same shape', 'Tests compare one fixed id.', ['transaction/transaction.py', 'encoding.py'], [('get_id', 'transaction/transaction.py')], HA)
p('C29', 'Signatures commit to the transaction, the right input and the right script',
  'Signing an input puts into its script signatures by exactly the given keys, each a valid low-S signature with its hash type of the protocol\'s signature payload: the transaction with that input\'s script replaced by the one being spent and the others emptied. '
  'All else in the transaction stays as it was, for pay-to-pubkey, multisig and pay-to-script inputs, whatever signature type is asked for, and in whatever order inputs are signed.',
  IH, 'any secrets, ids, amounts, sequence numbers and lock times; 1..3 inputs; m of n to 2 of 3; any order of signing; every signature type of a byte (those other than ALL are a known finding)', 'Tests compare one fixed signed transaction; which bytes the signature covers is invisible to a round trip.',
  ['transaction/transaction.py', 'transaction/input.py', 'privkey.py'], [('sign', 'transaction/transaction.py'), ('signing payload', 'transaction/input.py')], EC + HA + 'ECDSA is its ideal functionality. ')
p('C30', 'Inputs can only be signed by the keys that they need',
  'An input says it can be signed by a set of keys exactly when they are the distinct keys, and as many of them, as the script it spends requires; signing with others is refused. '
  'Inputs read from bytes are of the kind their script shows, and inputs to be signed hold the script they spend.',
  I, 'any secrets, compressed or not; any selection with repetition of m of n keys; any index', 'Tests sign with the right keys only.', ['transaction/input.py', 'transaction/transaction.py'], [('can_sign', 'transaction/input.py')], EC + HA)
p('C31', 'Outputs pay exactly the amount to exactly the given destination',
  'Address, script, multisig and data outputs carry the given amount (zero for data) and the standard script that pays to exactly the given address (of a key or of a script), redeem script, keys or data. '
  'Outputs read from bytes or built from a script are of the kind their script shows, and data above 80 bytes is refused.',
  I, 'any key, network, amount; redeem scripts of the tested forms; 1..3 keys (also 15); any data of 1..100 bytes', 'Tests build one output of each kind.', ['transaction/output.py', 'script/script.py', 'address.py'], [('Output kinds', 'transaction/output.py')], EC + HA)
p('C32', 'Transactions are validated immutable values',
  'A transaction cannot be built with a lock time outside 32 bits, without inputs or outputs, or with parts of the wrong kind. '
  'Once built it cannot change, not even through the lists it was built from, and equal fields make equal transactions with equal hashes.',
  IH, 'all lock times -2..2^33; 0..2 inputs and outputs of right and wrong kinds', 'Tests try a few invalid arguments.', ['transaction/transaction.py', 'transaction/input.py', 'transaction/output.py'], [('validation', 'transaction/transaction.py')], '')
p('C33', 'Extended keys survive serialization; malformed ones are refused',
  'Extended private and public keys serialize to the BIP 32 layout and read back with every field unchanged, and the public form keeps chain code, depth, index, parent and network. '
  'Texts of the wrong length, version, padding or with keys out of range are refused, and fields that do not fit are refused, not truncated.',
  I, 'all secrets, chain codes, depths, indexes, fingerprints, both networks; every malformed variant of the tested kinds', 'Tests use the BIP 32 vectors for some fields.', ['hdprivkey.py', 'hdpubkey.py'], [('to_string, from_string', 'hdprivkey.py'), ('to_string, from_string', 'hdpubkey.py')], EC + HA)
p('C34', 'Child keys are those BIP 32 defines, and public derivation agrees',
  'The master key of a seed and the children of any extended key, normal and hardened, have the key, chain code, depth, index and parent fingerprint BIP 32 defines. '
  'Deriving a normal child from the public key gives the public key of the derived private key; indexes out of range, hardened public derivation and short seeds are refused.',
  I, 'all secrets, chain codes and indexes; seeds of 0..64 bytes of the tested lengths; arbitrary randomness for generated seeds', 'Tests have no derivation vectors that pass.', ['hdprivkey.py', 'hdpubkey.py'], [('derive', 'hdprivkey.py'), ('derive', 'hdpubkey.py')], EC + HA + 'HMAC outputs at or beyond the group order are outside the claim. ')
p('C43', 'Message signatures are valid for their key and digest, and for no other',
  'A signature made with a private key is in low-S form with a fresh nonce and verifies under its own key and digest. '
  'It does not verify for any other key or digest.',
  I, 'all secrets and 32-byte digests', 'Tests sign one message.', ['privkey.py'], [('sign, verify', 'privkey.py')], 'ECDSA of the ecdsa package is its ideal functionality; malformed DER is outside the claim. ')

try:
    from props_more import add
    add(p, I, IP, IH, EC, HA)
except ImportError:
    pass

P.sort(key=lambda x: x[0]['id'])
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for d, _ in P:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
checks = []
for d, note in P:
    checks.append({
        'property': d['id'],
        'quick_cmd': 'python3-vt check.py %s --tier quick' % d['id'],
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % d['id'],
        'technique': 'symbolic execution of the real Python source into SMT (z3), bounded; counterexamples replayed on CPython',
        'level': 'model_checking',
        'level_note': ('Holds for every value within the bounds listed in the evidence (%s); nothing is claimed outside them. %s'
                       'Trusted: the symbolic interpreter in engine/ (validated by replaying witnesses on the real code) and z3.') % (d['quantifier']['text'], note)})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && test -x /opt/venv/bin/python', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo. Repairs of genuine defects are listed in known_findings.json.'},
          open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)

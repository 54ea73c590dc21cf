"""Properties C35..C44 (see props.py)."""


def add(p, I, IP, IH, EC, HA):
    toy = 'Decided on small curves (primes to 23; the formulas do not depend on the curve), plus fixed points of the real one. '
    p('C35', 'Point arithmetic is the group law of the curve',
      'Adding, doubling, negating and multiplying points gives the point the group law defines, for all points including infinity, opposite points, equal points and points of order two, and for all multipliers including zero and those beyond the order. '
      'Coordinates are always reduced, points that are not on the curve cannot be built, and points compare equal exactly when they are the same point.',
      I, 'all pairs of points and all multipliers on curves over the primes 5..23; fixed points of secp256k1', 'Tests check a few sums on one toy curve and multiples of one generator; the special cases (infinity, opposite, order two) are rare.',
      ['utils/ellipticcurve.py', 'utils/numbertheory.py'], [('Point.__add__, double, __mul__', 'utils/ellipticcurve.py'), ('inverse_mod', 'utils/numbertheory.py')],
      toy + 'inverse_mod is replaced by its contract, which is decided separately. ')
    p('C36', 'ECDSA in utils signs, verifies and recovers as the standard says',
      'A signature made by utils.ecdsa for a secret and a digest verifies under its public pair, and verification accepts exactly the pairs (r, s) in range that satisfy the ECDSA equation: zero, out-of-range or altered values are refused without raising. '
      'Recovery from a signature gives public pairs for which it verifies and includes the signer\'s; a point is found for x exactly when there is one, with the asked parity; nonces are those of RFC 6979.',
      I, 'all secrets, digests, nonces, signatures and public pairs on toy groups; all secrets and digests of 32 bytes for the nonce', 'Tests sign and verify a few fixed values; boundary values of r and s and nonces that need a second try are never sampled.',
      ['utils/ecdsa.py', 'utils/ellipticcurve.py', 'utils/numbertheory.py'], [('sign, verify', 'utils/ecdsa.py'), ('public_pair_for_x', 'utils/ecdsa.py'), ('deterministic_generate_k', 'utils/ecdsa.py')],
      toy + HA)
    p('C37', 'Modular inverses, square roots and integer-bytes helpers are exact',
      'The modular inverse times its argument is one modulo m for every argument coprime to m, and it is reduced; the modular square root of a square is a root of it. '
      'The integer and byte helpers of utils.intbytes convert without loss in both byte orders, and refuse what does not fit.',
      I, 'all arguments modulo ten moduli 2..64 (inverse; thorough: to 97) and nine primes 3..41 (roots; also to 257); all integers and byte strings of the tested widths (1, 2, 4, 5, 32 bytes)', 'Tests have no direct cases for them.',
      ['utils/numbertheory.py', 'utils/intbytes.py'], [('inverse_mod, modular_sqrt', 'utils/numbertheory.py'), ('conversions', 'utils/intbytes.py')], '')
    p('C38', 'Strict DER signatures are told from all others',
      'validate_signature says true exactly for the byte strings that are a strictly DER-encoded pair of positive integers followed by a hash type, as BIP 66 defines them: right lengths everywhere, no negative numbers, no needless padding, 9 to 73 bytes. '
      'For every other byte string it says false, and it never raises.',
      I, 'all byte strings of 0..15, 70..75 and 128 bytes (also 0..76 and lengths to 300); canonical encodings of all pairs of the tested lengths', 'Tests do not call it on more than a couple of signatures; the malformed space is exponential.',
      ['signature.py'], [('validate_signature', 'signature.py')], '')
    p('C39', 'Amounts keep every satoshi through every unit',
      'An amount given in satoshis reads back exactly and comes back as the same number of satoshis from its value in bits, millibitcoins or bitcoins; an amount given in any unit becomes the nearest number of satoshis. '
      'Zero is an amount, giving none is refused, and prices at a rate convert forth and back without losing a satoshi.',
      I, 'all integers -21e14..21e14 satoshis; all doubles of 0..21e6 BTC in each unit; six rates', 'Tests convert four values; rounding of doubles depends on every bit of the amount.',
      ['unit.py'], [('Unit', 'unit.py')], 'Doubles are rationals with the IEEE rounding error bound of each operation. ')
    p('C40', 'Payment URIs carry address, amount and texts unchanged',
      'A URI built from an address, amount, message, label, payment URL and extra parameters, written as text and parsed again, has the same values, no others appear, and the amount is written as a plain decimal. '
      'Texts without a valid address or with an amount that is not a finite number are refused, and is_valid tells exactly that, without ever raising.',
      I, 'all printable ASCII texts of 1..3 characters per field (also 6), all amounts of 0..21e14 satoshis, all addresses; all texts of 0..3 characters after the scheme (also 5)', 'Tests parse a dozen fixed URIs; reserved characters in texts and small amounts are not among them.',
      ['uri.py', 'unit.py', 'address.py'], [('to_uri, parse', 'uri.py')], 'urllib.parse is modelled by its documented behaviour on ASCII text. ')
    p('C41', 'Keys, addresses and parts are sound values; errors always print',
      'Two private keys, addresses, instructions, inputs or outputs are equal exactly when all their fields are, equal ones have equal hashes, fields cannot be assigned, and all of them can be printed. '
      'Every error of the library can be raised with any value of its kind and printed: its text is the documented message with the values filled in, and it keeps its cause.',
      I, 'all fields of two objects of each kind; every error class of the library with any text or bytes of two characters, integer or opcode', 'Tests compare and print a few objects.',
      ['errors.py', 'privkey.py', 'address.py', 'script/instruction.py', 'transaction/input.py', 'transaction/output.py'], [('BitforgeError', 'errors.py'), ('named tuples', 'privkey.py')], '')
    p('C42', 'Networks have the protocol\'s constants and are found by them',
      'The live and test networks have the protocol\'s version bytes, extended key versions, magic numbers and ports, and are immutable. '
      'Looking a network up by name or by any of its numbers gives that network exactly when one has it; otherwise the library\'s own error is raised, or nothing is returned when asked so.',
      I, 'all integers -2..2^33 for each numeric attribute; all texts of 0, 1, 6..8 characters as names', 'Tests look up a couple of values.',
      ['networks.py'], [('find', 'networks.py')], '')
    p('C44', 'The encoding helpers in utils agree with the formats and reject others',
      'The lower-level helpers for WIF, SEC, hash160, Base58 and addresses produce the standard encodings and read them back, for both networks and compressions. '
      'Their validity predicates are true exactly for well-formed encodings of an allowed prefix, and everything else is refused with EncodingError.',
      I, 'all secrets, hashes and public keys; all WIF payloads of 0, 1, 21, 32..35, 40 bytes; all address payloads of 0, 1, 20..22, 34 bytes; all texts of 1..3 characters', 'Tests do not cover these helpers directly.',
      ['utils/encoding.py'], [('WIF, SEC and address helpers', 'utils/encoding.py')], EC + HA)

"""Histories: what a call returns does not depend on the calls before it.

Each unit runs harness functions of other units one after the other on one loaded copy of the package, with the
inputs named in `shared` common to all steps (the rest is independent): whatever is kept from one call to the next
(a cache with too small a key, a changed default, a shared buffer) shows in the next step's assertions.
"""
from harness.api import again
from harness import codec, keys, script, tx, hd, misc, interp

NETS = (0, 1)
BOOLS = (True, False)
KINDS = [dict(net=n, c=c) for n in NETS for c in BOOLS]


def pairs(fn, ps, other=None):
    """fn on any two different sets of parameters"""
    return [[(fn, a), (other or fn, b)] for a in ps for b in ps if a != b]


def each(fn, gn, ps, qs=None):
    return [[(fn, a), (gn, b)] for a in ps for b in (qs or ps)]


def twice(fn, **params):
    return [[(fn, params), (fn, params)]]


# --- keys and addresses

again('C01', 'wif_history', 'PrivateKey to/from WIF, bytes, hex: one secret, any two of the four kinds of key, one after the other.',
      pairs(keys.privkey_roundtrip, KINDS) + pairs(keys.privkey_wif_format, KINDS), shared=('secret',), cost=12)
again('C01', 'parse_history', 'PrivateKey.from_bytes, from_wif: one byte string after another.',
      twice(keys.privkey_from_bytes, n=32) + [[(keys.privkey_from_wif, dict(n=4)), (keys.privkey_from_wif, dict(n=34))]], cost=12)
again('C01', 'parse_history_same', 'PrivateKey.from_bytes, from_wif: the same byte string or text twice, with other arguments.',
      twice(keys.privkey_from_bytes, n=32) + twice(keys.privkey_from_wif, n=33) + twice(keys.privkey_from_wif, n=34), shared=('d',), cost=12)
again('C02', 'network_history', 'PrivateKey: domain and network of one key after another.',
      [[(keys.privkey_domain, {}), (keys.privkey_domain, {})], [(keys.privkey_network, {}), (keys.privkey_network, {})]])
A = [dict(net=n, t=t) for n in NETS for t in ('PublicKey', 'Script')]
again('C04', 'address_history', 'Address to/from text, bytes, hex: one hash, any two of the four kinds of address, one after the other.',
      pairs(keys.address_roundtrip, A), shared=('p',), cost=2)
again('C06', 'pubkey_history', 'PublicKey to/from SEC: one secret, each compression after the other, networks any.',
      pairs(keys.pubkey_roundtrip, [dict(c=True), dict(c=False)]) + twice(keys.pubkey_roundtrip, c=True) + twice(keys.pubkey_roundtrip, c=False), shared=('secret',), cost=2)
again('C07', 'parse_history', 'PublicKey.from_bytes: one byte string after another, and the same twice.',
      twice(keys.pubkey_parse, n=65) + [[(keys.pubkey_parse, dict(n=33)), (keys.pubkey_parse, dict(n=65))]])
again('C07', 'parse_history_same', 'PublicKey.from_bytes: the same byte string twice.', twice(keys.pubkey_parse, n=33) + twice(keys.pubkey_parse, n=65), shared=('b',))
again('C08', 'address_history', 'Addresses of keys: one secret, each compression after the other, networks any; addresses of scripts, one after another.',
      pairs(keys.address_of_key, [dict(c=True), dict(c=False)]) + twice(keys.address_of_key, c=True), shared=('secret',))
again('C08', 'script_history', 'Addresses of scripts: one script, networks any.', twice(keys.address_of_script, n=1) + twice(keys.address_of_script, n=75), shared=('d', 'op'))
again('C08', 'hash_history', 'Hashes: one byte string after another, of the same length.', twice(keys.hash_functions, n=5) + twice(keys.hash_functions, n=33))
again('C43', 'sign_history', 'PrivateKey.sign: one digest, two secrets; one secret, two digests; the same twice.', twice(keys.sign_valid), shared=('digest',))
again('C43', 'sign_history_key', 'PrivateKey.sign: one secret, two digests.', twice(keys.sign_valid), shared=('secret',))
again('C43', 'sign_history_same', 'PrivateKey.sign: the same twice.', twice(keys.sign_valid), shared=('secret', 'digest'))
again('C43', 'verify_history', 'PrivateKey.verify of another key or digest, after a valid one.', [[(keys.sign_valid, {}), (keys.verify_other, {})]], shared=('secret', 'digest'))

# --- codecs

again('C03', 'base58_history', 'base58: one byte string or text after another.',
      twice(codec.base58check_roundtrip, n=4) + twice(codec.base58check_decode, n=6) +
      [[(codec.base58check_roundtrip, dict(n=a)), (codec.base58check_reference, dict(n=b))] for a, b in ((1, 2), (3, 3))])
again('C05', 'integers_history', 'Integers to bytes: one number, each width and byte order after the other.',
      pairs(codec.fixed_width_roundtrip, [dict(k=k, big=b) for k in (1, 4, 8) for b in BOOLS]) + pairs(codec.decode_value, [dict(n=n, big=b) for n in (2, 5) for b in BOOLS]),
      shared=('b', 'd'))
again('C05', 'varint_history', 'Variable-length integers: one after another.', twice(codec.varint_encode) + [[(codec.varint_decode, dict(n=a)), (codec.varint_decode, dict(n=b))] for a, b in ((3, 3), (9, 2))])
again('C09', 'number_history', 'Script numbers: one after another, the same bytes with one limit after the other.',
      twice(codec.script_number_roundtrip, bits=40) + [[(codec.script_number_decode, dict(n=n, size=s)), (codec.script_number_decode, dict(n=n, size=9 - s))] for n in (1, 5) for s in (4, 5)], shared=('b', 'd'))
again('C10', 'buffer_history', 'Buffers and hexadecimal: one after another.',
      twice(codec.buffer_read, n=3) + twice(codec.hex_decode, n=2) + twice(codec.hex_roundtrip, n=3))

# --- scripts

P = [dict(p=1, n=1), dict(p=76, n=1), dict(p=77, n=3), dict(p=75, n=75), dict(p=76, n=76)]
again('C11', 'script_history', 'Scripts to/from bytes: one after another.',
      twice(script.script_bytes_roundtrip, n=2) + [[(script.script_bytes_roundtrip, dict(n=2)), (script.script_push_roundtrip, b)] for b in P] +
      [[(script.script_push_roundtrip, a), (script.script_push_roundtrip, b)] for a in P for b in P] +
      [[(script.script_truncated, dict(p=2, n=2, m=1)), (script.script_push_roundtrip, b)] for b in P], cost=2)
again('C12', 'text_history', 'Scripts to/from text: one after another.',
      [[(script.script_text_push, a), (script.script_text_push, b)] for a in P[:3] for b in P[:3]], cost=2)
again('C13', 'push_history', 'Smallest pushes: one after another.',
      [[(script.push_data, dict(n=a)), (script.push_data, dict(n=b))] for a in (1, 75, 76, 256) for b in (1, 75, 76, 256)] +
      [[(script.minimal_push, a), (script.minimal_push, b)] for a in P for b in P])
again('C14', 'standard_history', 'Standard scripts: one after another, of the same and of other kinds.',
      [[a, b] for a in ((script.p2pkh_out, {}), (script.p2sh_out, dict(n=1)), (script.p2pkh_in, dict(c=True, n=9)), (script.p2sh_in, dict(n=2, k=1)), (script.op_return_out, dict(n=75)))
       for b in ((script.p2pkh_out, {}), (script.p2sh_out, dict(n=1)), (script.p2pkh_in, dict(c=False, n=9)), (script.p2sh_in, dict(n=1, k=1)), (script.op_return_out, dict(n=75)))] +
      [[(script.multisig_redeem, dict(n=2, c=a)), (script.multisig_redeem, dict(n=2, c=b))] for a in BOOLS for b in BOOLS], shared=('secret', 's0', 's1'), cost=2)
again('C15', 'opcode_history', 'Opcodes: one after another.', twice(script.opcode_for_number), cost=2)

# --- transactions

KI = ('push', 'p2pkh', 'empty')
again('C27', 'input_history', 'Inputs to/from bytes: two of the same output, other fields any.',
      [[(tx.input_roundtrip, dict(kind=a)), (tx.input_roundtrip, dict(kind=b))] for a in KI for b in KI], shared=('id', 'd'), cost=2)
again('C27', 'output_history', 'Outputs to/from bytes: two with the same amount, or the same script.',
      [[(tx.output_roundtrip, dict(kind=a)), (tx.output_roundtrip, dict(kind=b))] for a in KI for b in KI], shared=('a',), cost=2)
again('C27', 'output_history_script', 'Outputs to/from bytes: two with the same script.', twice(tx.output_roundtrip, kind='p2pkh') + twice(tx.output_roundtrip, kind='ops'), shared=('d', 'o0', 'o1'))
PARTS = ('i0id', 'i0n', 'i0q', 'i0d', 'i1id', 'i1n', 'i1q', 'i1d', 'i0k', 'u0a', 'u0d', 'u1a', 'u1d')
TX = [[(tx.transaction_roundtrip, dict(n=1, m=1, wide='')), (tx.transaction_roundtrip, dict(n=1, m=1, wide=''))]]
again('C27', 'transaction_history', 'Transactions to/from bytes: two with the same inputs and outputs, version and lock time any.', TX, shared=PARTS, cost=4)
again('C27', 'transaction_history_outputs', 'Transactions to/from bytes: two with the same outputs, version and lock time.', TX, shared=('u0a', 'u0d', 'lock', 'version'), cost=4)
ID = [[(tx.tx_id, dict(n=1, m=1, wide='')), (tx.tx_id, dict(n=1, m=1, wide=''))]]
again('C28', 'id_history', 'Ids: two transactions with the same inputs and outputs, version and lock time any.', ID, shared=PARTS, cost=4)
again('C28', 'id_history_outputs', 'Ids: two transactions with the same inputs, version and lock time, outputs any.', ID, shared=[x for x in PARTS if x[0] == 'i'] + ['lock', 'version'], cost=4)
again('C28', 'id_history_inputs', 'Ids: two transactions with the same outputs, version and lock time, inputs any.', ID, shared=[x for x in PARTS if x[0] == 'u'] + ['lock', 'version'], cost=4)
again('C28', 'id_history_script', 'Ids: two transactions that differ in the first input\'s script at most.', ID, shared=[x for x in PARTS if x != 'i0d'] + ['lock', 'version'], cost=4)
S1 = dict(n=1, i=0, c=True)
S2 = dict(n=1, i=0, c=False)
SK = ('s', 'i0id', 'i0n', 'i0q', 'u0a', 'u0d', 'u1a', 'u1d', 'lock', 'version')
for k, sh in (('key', ('s',)), ('but_key', SK[1:]), ('but_id', SK[:1] + SK[2:]), ('but_index', SK[:2] + SK[3:]), ('but_outputs', SK[:4] + SK[8:]), ('but_lock', SK[:8])):
    again('C29', 'sign_history_' + k, 'Signing: two transactions, one after the other, that have the same %s.' % ', '.join(sh),
          [[(tx.sign_address, a), (tx.sign_address, b)] for a, b in ((S1, S1), (S1, S2))], shared=sh, cost=3)
again('C29', 'sign_history_kinds', 'Signing: inputs of one kind after those of another.',
      [[a, b] for a in ((tx.sign_script, dict(k='push')), (tx.sign_multisig, dict(n=2, m=2))) for b in ((tx.sign_script, dict(k='ops')), (tx.sign_multisig, dict(n=2, m=1)), (tx.sign_address, S1))],
      shared=('id', 'n', 'q', 's0'), cost=3)
again('C30', 'conditions_history', 'What can be signed: one key, each compression after the other; counts of multisig inputs, one after another.',
      [[(tx.can_sign_address, dict(c=c, d=d)), (tx.can_sign_address, dict(c=not c, d=e))] for c in BOOLS for d in BOOLS for e in BOOLS] +
      [[(tx.can_sign_multisig, a), (tx.can_sign_multisig, b)] for a, b in ((dict(n=2, m=1, count=1), dict(n=2, m=2, count=1)), (dict(n=2, m=2, count=2), dict(n=1, m=1, count=2)))], shared=('s', 's0', 's1'))
again('C31', 'output_history', 'Outputs of every kind: one after another.',
      [[(tx.address_output, {}), (tx.address_output, {})], [(tx.any_address_output, {}), (tx.any_address_output, {})]] +
      [[(tx.data_output, dict(n=a)), (tx.data_output, dict(n=b))] for a in (1, 75, 80) for b in (1, 80)] +
      [[(tx.script_output, dict(k=a)), (tx.script_output, dict(k=b))] for a in ('empty', 'push') for b in ('ops', 'push')] +
      [[(tx.multisig_output, dict(n=a)), (tx.multisig_output, dict(n=b))] for a in (1, 2) for b in (1, 2)])
again('C32', 'parts_history', 'Transactions built from lists: one after another.',
      [[(tx.parts, dict(n=1, m=1)), (tx.parts, dict(n=a, m=b))] for a, b in ((0, 0), (1, 1), (2, 2))] + twice(tx.lock_time_range))

# --- extended keys

F = ('secret', 'chain', 'depth', 'index', 'parent')
for k, sh in (('net', F), ('secret', ('secret',)), ('chain', ('secret', 'chain')), ('depth', tuple(x for x in F if x != 'depth')), ('index', tuple(x for x in F if x != 'index'))):
    ns = [(0, 1)] if k == 'net' else [(0, 0)]
    again('C33', 'string_history_' + k, 'Extended keys to/from text: two that have the same %s.' % ', '.join(sh),
          [[(f, dict(net=a)), (g, dict(net=b))] for a, b in ns for f in (hd.hd_private_to_string, hd.hd_private_from_string, hd.hd_public_strings, hd.hd_public_of_private)
           for g in (hd.hd_private_to_string, hd.hd_private_from_string, hd.hd_public_strings, hd.hd_public_of_private) if f == g or k == 'net'], shared=sh, cost=4)
again('C34', 'derive_history_child', 'Derivation: one extended key, the same child, both networks.',
      [[(hd.derive_private, dict(net=a, hard=x)), (hd.derive_private, dict(net=1 - a, hard=x))] for a in NETS for x in BOOLS] +
      [[(hd.derive_public, dict(net=a)), (hd.derive_public, dict(net=1 - a))] for a in NETS], shared=F + ('child',), cost=4)
again('C34', 'derive_history', 'Derivation: one extended key, any two children.',
      [[(hd.derive_private, dict(net=0, hard=x)), (hd.derive_private, dict(net=0, hard=y))] for x in BOOLS for y in BOOLS] +
      [[(hd.derive_public, dict(net=0)), (hd.derive_public, dict(net=0))], [(hd.derive_private, dict(net=0, hard=False)), (hd.derive_public, dict(net=0))]], shared=F, cost=4)
again('C34', 'derive_history_chain', 'Derivation: two extended keys that have the same secret and child.',
      [[(hd.derive_private, dict(net=0, hard=x)), (hd.derive_private, dict(net=0, hard=x))] for x in BOOLS] + [[(hd.derive_public, dict(net=0)), (hd.derive_public, dict(net=0))]], shared=('secret', 'child'), cost=4)
again('C34', 'derive_history_secret', 'Derivation: two extended keys that have the same chain code, depth, index, parent and child.',
      [[(hd.derive_private, dict(net=0, hard=x)), (hd.derive_private, dict(net=0, hard=x))] for x in (False,)] + [[(hd.derive_public, dict(net=0)), (hd.derive_public, dict(net=0))]], shared=F[1:] + ('child',), cost=4)
again('C34', 'seed_history', 'Master keys: one seed after another.', twice(hd.from_seed, n=32) + [[(hd.from_seed, dict(n=64)), (hd.from_seed, dict(n=33))]])

# --- helpers, addresses in links

again('C39', 'unit_history', 'Amounts: one unit after another.', [[(misc.unit_whole, dict(u=a)), (misc.unit_whole, dict(u=b))] for a in ('bits', 'mbtc', 'btc') for b in ('bits', 'mbtc', 'btc')])
again('C40', 'link_history', 'Links: one after another, with other fields.',
      [[(misc.text_fields, dict(f=a, n=1)), (misc.text_fields, dict(f=b, n=1))] for a in ('message', 'label', 'r', 'extra') for b in ('message', 'label', 'r', 'extra')] +
      [[(misc.all_fields, {}), (misc.text_fields, dict(f='label', n=1))], [(misc.extra_names, dict(n=1)), (misc.text_fields, dict(f='message', n=1))]], cost=2)
again('C41', 'text_history', 'Equality and printing: one value after another.',
      [[(misc.value_equality, dict(what=a)), (misc.value_equality, dict(what=a))] for a in ('Address', 'Output', 'Instruction')] + pairs(misc.address_text, A), shared=('p',), cost=2)
NA = ('pubkeyhash', 'wif_prefix', 'hd_private_key', 'port')
again('C42', 'lookup_history', 'Networks by number: one number after another, the same number for two attributes.',
      [[(misc.network_by_number, dict(a=a)), (misc.network_by_number, dict(a=b))] for a in NA for b in NA] + twice(misc.network_by_name, n=7))
again('C44', 'helper_history', 'Helpers: one secret, each kind of text after the other.',
      pairs(misc.helper_wif, [dict(c=c, net=n) for c in BOOLS for n in NETS]) + [x for x in pairs(misc.helper_public_address, [dict(c=c, pre=p) for c in BOOLS for p in (0, 0x6f)]) if x[0][1]['pre'] or x[1][1]['pre']] +
      pairs(misc.helper_address, [dict(pre=p) for p in (0, 0x6f)]) + pairs(misc.helper_public_pair, [dict(c=c) for c in BOOLS]), shared=('secret', 's', 'p'), cost=5)

# --- the interpreter

again('C26', 'hash_history', 'Hashing opcodes: one after another on inputs of the same length.',
      [[(interp.hashes, dict(op=a, n=20)), (interp.hashes, dict(op=b, n=20))] for a in interp.HASHES for b in interp.HASHES])
again('C17', 'arithmetic_history', 'Arithmetic: one opcode after another.',
      [[(interp.unary, dict(op=139, n=1, f=0)), (interp.unary, dict(op=o, n=1, f=0))] for o in interp.UNARY] + [[(interp.binary, dict(op=148, n=1, m=1)), (interp.binary, dict(op=o, n=1, m=1))] for o in interp.BINARY])
again('C18', 'flow_history', 'Branches: one script after another.',
      [[(interp.nested, dict(a=99, b=100, e=e)), (interp.nested, dict(a=a, b=99, e=3 - e))] for a in (99, 100) for e in range(4)])
again('C22', 'p2sh_history', 'Pay-to-script: one redeem script after another.',
      [[(interp.p2sh_run, dict(n=0)), (interp.p2sh_run, dict(n=1))], [(interp.p2sh_run, dict(n=1)), (interp.p2sh_run, dict(n=0))], [(interp.p2sh_bytes, dict(n=2)), (interp.p2sh_bytes, dict(n=2))], [(interp.p2sh_only, {}), (interp.p2sh_run, dict(n=1))]], cost=2)
again('C23', 'lock_time_history', 'CHECKLOCKTIMEVERIFY: one after another, flags on and off.',
      [[(interp.lock_time, dict(n=4, f=f)), (interp.lock_time, dict(n=4, f=g))] for f in (interp.CLTV, 0) for g in (interp.CLTV, 0, interp.NOPS)] )
again('C25', 'flag_history', 'Encoding flags: one script after another.', [[(interp.minimal_pushes, a), (interp.minimal_pushes, b)] for a in P for b in P[:2]])

"""Transactions, inputs, outputs: wire form, ids, signing."""
from harness.api import unit
from harness.codec import be, le
from harness.keys import N
from harness.script import push_bytes, smallest_push, classes, pub
from harness.interp import script, Push

M32 = 2 ** 32 - 1


def u32(h, name, wide=()):
    """a 32-bit number: any if wide, else any of full width (its bytes are all used); widths multiply paths"""
    return h.int(name, 0 if name in wide else 2 ** 24, M32)


def u64(h, name, wide=()):
    return h.int(name, 0 if name in wide else 2 ** 56, 2 ** 64 - 1)


def varint(n):
    if n < 253:
        return bytes([n])
    return bytes([253]) + le(n, 2) if n < 65536 else bytes([254]) + le(n, 4)


def hexa(h, b):
    return h.mods['bitforge.encoding'].encode_hex(b).decode('utf-8')


SCRIPTS = ('empty', 'ops', 'push', 'p2pkh', 'p2pkh in', 'p2sh', 'p2sh in', 'return', 'multisig', 'long', 'longer')


def some_script(h, kind, p=''):
    """(script, its bytes) with symbolic contents"""
    if kind == 'empty':
        items = []
    elif kind == 'ops':
        items = [h.int(p + 'o0', 79, 255), h.int(p + 'o1', 79, 255)]
    elif kind == 'push':
        items = [h.bytes(p + 'd', 5), 81]
    elif kind == 'p2pkh':
        items = [118, 169, h.bytes(p + 'd', 20), 136, 172]
    elif kind == 'p2pkh in':
        items = [h.bytes(p + 'd', 71), h.bytes(p + 'k', 33)]
    elif kind == 'p2sh':
        items = [169, h.bytes(p + 'd', 20), 135]
    elif kind == 'p2sh in':
        items = [0, h.bytes(p + 'd', 71), h.bytes(p + 'k', 4)]
    elif kind == 'return':
        items = [106, h.bytes(p + 'd', 40)]
    elif kind == 'multisig':
        items = [81, h.bytes(p + 'd', 33), h.bytes(p + 'k', 33), 82, 174]
    elif kind == 'long':
        items = [h.bytes(p + 'd', 200), h.bytes(p + 'k', 50)]      # 253 bytes
    else:
        items = [h.bytes(p + 'd', 260)]
    raw = b''
    for x in items:
        raw = raw + (bytes([x]) if isinstance(x, int) else push_bytes(smallest_push(len(x)), x))
    return script(h, items), raw


def some_input(h, kind, p='', wide=()):
    i = h.bytes(p + 'id', 32)
    n = u32(h, p + 'n', wide)
    q = u32(h, p + 'q', wide)
    s, raw = some_script(h, kind, p)
    x = h.bf.Input(hexa(h, i), n, s, q)
    return x, i[::-1] + le(n, 4) + varint(len(raw)) + raw + le(q, 4)


def some_output(h, kind, p='', wide=()):
    a = u64(h, p + 'a', wide)
    s, raw = some_script(h, kind, p)
    return h.bf.Output(a, s), le(a, 8) + varint(len(raw)) + raw


# --- C27 wire form

@unit('C27', cases=[dict(kind=k) for k in SCRIPTS])
def input_roundtrip(h, kind):
    """Input.to_bytes/from_bytes/from_hex: every id, index, sequence number, and scripts of every standard form with any contents."""
    x, raw = some_input(h, kind, '', ('n', 'q'))
    h.check(x.to_bytes() == raw, 'wire form')
    h.check(x.to_hex() == hexa(h, raw), 'hexadecimal')
    for y in (h.bf.Input.from_bytes(raw), h.bf.Input.from_hex(hexa(h, raw))):
        h.check(y.tx_id == x.tx_id, 'id')
        h.check(y.txo_index == x.txo_index and y.seq_number == x.seq_number, 'numbers')
        h.check(y.script.instructions == x.script.instructions, 'script')
        h.check(y.to_bytes() == raw, 'round trip')


@unit('C27', cases=[dict(kind=k) for k in SCRIPTS])
def output_roundtrip(h, kind):
    """Output.to_bytes/from_bytes/from_hex: every amount of 64 bits, scripts of every standard form with any contents."""
    x, raw = some_output(h, kind, '', ('a',))
    h.check(x.to_bytes() == raw, 'wire form')
    h.check(x.to_hex() == hexa(h, raw), 'hexadecimal')
    for y in (h.bf.Output.from_bytes(raw), h.bf.Output.from_hex(hexa(h, raw))):
        h.check(y.amount == x.amount and y.script.instructions == x.script.instructions, 'fields')
        h.check(y.to_bytes() == raw, 'round trip')


@unit('C27', cases=[dict(n=n, m=m, wide=w) for n, m in ((1, 1), (1, 2), (2, 1)) for w in ('version', 'lock', 'i0n', 'i0q', 'u0a')] +
      [dict(n=3, m=3, wide=w) for w in ('version', 'lock', 'i2n', 'i1q', 'u2a')],
      more=[dict(n=n, m=m, wide='lock') for n, m in ((252, 1), (253, 1), (1, 252), (1, 253), (6, 6))],
      thorough=[dict(n=2, m=2, wide=w, wide2=v) for w in ('version', 'lock', 'i0n', 'i1q', 'u1a') for v in ('version', 'lock', 'i0q', 'i1n', 'u0a')])
def transaction_roundtrip(h, n, m, wide, wide2=None):
    """Transaction.to_bytes/from_bytes/from_hex: 1..3, 6, 252, 253 inputs and outputs; any contents; one number of any width (thorough: two), the others any of full width."""
    wide = (wide, wide2)
    T = h.bf.Transaction
    kinds = ('p2pkh in', 'ops', 'empty') if n < 9 else ('empty',)
    ins = [some_input(h, kinds[i % len(kinds)], 'i%d' % i, wide) for i in range(n)]
    kinds = ('p2pkh', 'p2sh', 'push') if m < 9 else ('empty',)
    outs = [some_output(h, kinds[i % len(kinds)], 'u%d' % i, wide) for i in range(m)]
    v = u32(h, 'version', wide)
    l = u32(h, 'lock', wide)
    t = T([x for x, _ in ins], [x for x, _ in outs], l, v)
    raw = le(v, 4) + varint(n) + b''.join([r for _, r in ins]) + varint(m) + b''.join([r for _, r in outs]) + le(l, 4)
    h.check(t.to_bytes() == raw, 'wire form')
    if n < 9 and m < 9:
        h.check(t.to_hex() == hexa(h, raw), 'hexadecimal')
    q = T.from_bytes(raw)
    h.check(q.version == v and q.lock_time == l, 'version and lock time')
    h.check(len(q.inputs) == n and len(q.outputs) == m, 'counts')
    for a, b in zip(t.inputs, q.inputs):
        h.check(a.tx_id == b.tx_id and a.txo_index == b.txo_index and a.seq_number == b.seq_number and
                a.script.instructions == b.script.instructions, 'inputs, in order')
    for a, b in zip(t.outputs, q.outputs):
        h.check(a.amount == b.amount and a.script.instructions == b.script.instructions, 'outputs, in order')
    h.check(q.to_bytes() == raw, 'round trip')
    if n < 9 and m < 9:
        h.check(T.from_hex(hexa(h, raw)).to_bytes() == raw, 'round trip')


@unit('C27', cases=[dict(what=w) for w in ('index', 'seq', 'amount', 'version', 'lock')])
def field_ranges(h, what):
    """Numbers that do not fit their field on the wire are refused, never truncated: every integer around and beyond the range."""
    T, S, I, U = h.bf.Transaction, h.bf.Script, h.bf.Input, h.bf.Output
    top = 2 ** 64 if what == 'amount' else 2 ** 32
    v = h.int('v', -3, top * 2)
    kw = {what: v}

    def build(index=0, seq=0, amount=0, version=1, lock=0):
        return T([I('ab' * 32, index, S(), seq)], [U(amount, S())], lock, version).to_bytes()
    b, e = h.attempt(build, **kw)
    if 0 <= v < top:
        h.check(e is None, 'fits')
    else:
        h.check(e is not None, 'does not fit')


@unit('C27', cases=[dict(k=k) for k in (0, 1, 3, 4, 5, 36, 37, 40, 41, 44, 45, 46, 50, 54, 55, 58, 59)])
def truncated(h, k):
    """A transaction cut short anywhere in any of its fields is refused with a library error: any contents."""
    x, a = some_input(h, 'push')
    y, b = some_output(h, 'empty', 'u')
    raw = le(u32(h, 'version'), 4) + b'\x01' + a + b'\x01' + b + le(u32(h, 'lock'), 4)
    assert 60 < len(raw) <= 70
    t, e = h.attempt(h.bf.Transaction.from_bytes, raw[:k] if k < 50 else raw[:len(raw) - (60 - k)])
    h.check(isinstance(e, h.mods['bitforge.errors'].BitforgeError), 'refused')


@unit('C27')
def length_fields(h):
    """The script length field of an input: every value of its single byte form against 3 bytes of script."""
    i = h.bytes('id', 32)
    n = h.int('len', 0, 252)
    raw = i + le(7, 4) + bytes([n]) + h.bytes('s', 3, 97, 250) + le(9, 4)
    x, e = h.attempt(h.bf.Input.from_bytes, raw)
    if n == 3:
        h.check(e is None and x.to_bytes() == raw, 'exact')
    elif n > 3:
        h.check(e is not None, 'nothing is left for the sequence number')


@unit('C27')
def default_sequence(h):
    """Inputs without an explicit sequence number are final."""
    i = h.bytes('id', 32)
    x = h.bf.Input(hexa(h, i), h.int('n', 0, M32), h.bf.Script())
    h.check(x.seq_number == M32 and x.to_bytes()[-4:] == b'\xff\xff\xff\xff', 'final')
    t = h.bf.Transaction([x], [h.bf.Output(0, h.bf.Script())])
    h.check(t.version == 1 and t.lock_time == 0, 'defaults')


# --- C28 ids

@unit('C28', cases=[dict(n=n, m=m, wide=w) for n, m in ((1, 1), (2, 2)) for w in ('lock', 'i0n', 'u0a')])
def tx_id(h, n, m, wide):
    """Transaction.get_id: any transaction of 1 or 2 inputs and outputs: the reversed double SHA256 of the wire form, in hexadecimal; usable as an input's id."""
    T = h.bf.Transaction
    t = T([some_input(h, 'push', 'i%d' % i, (wide,))[0] for i in range(n)], [some_output(h, 'p2pkh', 'u%d' % i, (wide,))[0] for i in range(m)], u32(h, 'lock', (wide,)), u32(h, 'version'))
    d = h.hash('sha256', h.hash('sha256', t.to_bytes()))
    h.check(t.get_id_bytes() == d, 'double SHA256')
    h.check(t.get_id() == hexa(h, d[::-1]), 'reversed')
    x = h.bf.Input(t.get_id(), 0, h.bf.Script())
    h.check(x.to_bytes()[:32] == d, 'an input that spends it refers to the hash itself')
    h.check(h.bf.Input.from_bytes(x.to_bytes()).tx_id == t.get_id(), 'and reads it back')
    q = T.from_bytes(t.to_bytes())
    h.check(q.get_id() == t.get_id(), 'parsing keeps the id')


@unit('C28', cases=[dict(wide=w) for w in 'nqalv'])
def tx_id_distinct(h, wide):
    """Two transactions that differ in any number, id or amount have different wire forms: one number of any width in each, the others any of full width."""
    T, I, U, S = h.bf.Transaction, h.bf.Input, h.bf.Output, h.bf.Script
    f = []
    for k in 'xy':
        w = (k + wide,)
        f.append([h.bytes(k + 'id', 32), u32(h, k + 'n', w), u32(h, k + 'q', w), u64(h, k + 'a', w), u32(h, k + 'l', w), u32(h, k + 'v', w)])
    a, b = [T([I(hexa(h, x[0]), x[1], S(), x[2])], [U(x[3], S())], x[4], x[5]) for x in f]
    if a.to_bytes() == b.to_bytes():
        for u, v in zip(f[0], f[1]):
            h.check(u == v, 'same fields')
        h.reach('equal')


# --- C29 signing

def signing_payload(h, tx, i, kind=1):
    """what a signature of input i commits to, per the protocol"""
    raw = le(tx.version, 4) + varint(len(tx.inputs))
    for j, x in enumerate(tx.inputs):
        s = x.script.to_bytes() if j == i else b''
        raw = raw + h.mods['bitforge.encoding'].decode_hex(x.tx_id)[::-1] + le(x.txo_index, 4) + varint(len(s)) + s + le(x.seq_number, 4)
    raw = raw + varint(len(tx.outputs))
    for x in tx.outputs:
        s = x.script.to_bytes()
        raw = raw + le(x.amount, 8) + varint(len(s)) + s
    raw = raw + le(tx.lock_time, 4) + le(kind, 4)
    return h.hash('sha256', h.hash('sha256', raw))


def key(h, name, c=True, net=None):
    return h.bf.PrivateKey(h.int(name, 1, 2 ** 128), net, c) if net is not None else h.bf.PrivateKey(h.int(name, 1, 2 ** 128), compressed=c)


def address_input(h, a, p, wide=()):
    A = h.mods['bitforge.transaction.input'].AddressInput
    i = h.bytes(p + 'id', 32)
    return A.create(hexa(h, i), u32(h, p + 'n', wide), a, u32(h, p + 'q', wide))


def unchanged(h, a, b, i, what):
    """everything but input i's script is the same"""
    h.check(b.version == a.version and b.lock_time == a.lock_time and b.outputs == a.outputs, what + ': version, lock time and outputs are kept')
    h.check(len(a.inputs) == len(b.inputs), what + ': inputs are kept')
    for j in range(len(a.inputs)):
        x, y = a.inputs[j], b.inputs[j]
        if j == i:
            h.check(x.tx_id == y.tx_id and x.txo_index == y.txo_index and x.seq_number == y.seq_number, what + ': the signed input spends the same output')
        else:
            h.check(x is y or x == y, what + ': other inputs are kept')


@unit('C29', cases=[dict(n=n, i=i, c=c) for n, i, c in ((1, 0, True), (1, 0, False), (2, 0, True), (2, 1, False), (3, 1, False), (3, 2, True))] +
      [dict(n=2, i=1, c=False, wide=w) for w in ('version', 'lock', 'i0n', 'i1n', 'i0q', 'i1q', 'u0a', 'u1a')], more=[dict(n=5, i=4, c=True)])
def sign_address(h, n, i, c, wide=''):
    """Transaction.sign of pay-to-pubkey inputs: any secrets, ids, scripts; 1..3 inputs; one number of any width, the others any of full width."""
    wide = (wide,)
    T = h.bf.Transaction
    k = key(h, 's', c)
    ins = [address_input(h, k.to_address() if j == i else h.bf.Address(h.bytes('p%d' % j, 20)), 'i%d' % j, wide) for j in range(n)]
    outs = [some_output(h, 'p2pkh', 'u0', wide)[0], some_output(h, 'push', 'u1', wide)[0]]
    t = T(ins, outs, u32(h, 'lock', wide), u32(h, 'version', wide))
    before = t.to_bytes()
    want = signing_payload(h, t, i)
    s = t.sign([k], i)
    h.check(t.to_bytes() == before, 'the original is untouched')
    unchanged(h, t, s, i, 'signing')
    sc = s.inputs[i].script
    h.check(type(sc) is classes(h)['PayToPubkeyIn'], 'standard form')
    h.check(sc.get_public_key() == k.to_public_key(), 'the key')
    sig = sc.get_signature()
    h.check(sig[-1:] == b'\x01', 'signature type')
    h.check(h.sig_valid(k.secret, sig[:-1], want), 'signs this transaction')
    h.check(h.sig_low_s(sig[:-1]), 'low S')
    h.check(len(sc.instructions) == 2, 'nothing else')


def typed_payload(h, tx, i, t, base, acp):
    """what a signature of type t (t & 0x1f == base if 2 or 3, t & 0x80 if acp) of input i commits to, per the protocol"""
    if base == 3 and i >= len(tx.outputs):
        return b'\x01' + b'\x00' * 31
    ins = [(j, x) for j, x in enumerate(tx.inputs) if j == i or not acp]
    raw = le(tx.version, 4) + varint(len(ins))
    for j, x in ins:
        s = x.script.to_bytes() if j == i else b''
        q = x.seq_number if j == i or base not in (2, 3) else 0
        raw = raw + h.mods['bitforge.encoding'].decode_hex(x.tx_id)[::-1] + le(x.txo_index, 4) + varint(len(s)) + s + le(q, 4)
    outs = [] if base == 2 else tx.outputs[:i + 1] if base == 3 else tx.outputs
    raw = raw + varint(len(outs))
    for j, x in enumerate(outs):
        s = x.script.to_bytes()
        if base == 3 and j < i:
            raw = raw + b'\xff' * 8 + b'\x00'
        else:
            raw = raw + le(x.amount, 8) + varint(len(s)) + s
    raw = raw + le(tx.lock_time, 4) + le(t, 4)
    return h.hash('sha256', h.hash('sha256', raw))


@unit('C29', cases=[dict(kind=k, i=i) for k in ('address', 'script', 'multisig') for i in (0, 1)], cost=2)
def sign_types(h, kind, i):
    """Transaction.sign with every signature type of a byte, inputs of every kind that can be signed, any secrets and fields: the signature carries the type and commits to it, in the form that type stands for."""
    T = h.bf.Transaction
    m = h.mods['bitforge.transaction.input']
    k = key(h, 's', True)
    t = h.int('type', 0, 255)
    if kind == 'address':
        x = address_input(h, k.to_address(), 'i')
    elif kind == 'script':
        x = m.ScriptInput.create(hexa(h, h.bytes('iid', 32)), u32(h, 'in'), some_script(h, 'ops', 'r')[0], u32(h, 'iq'))
    else:
        x = m.MultisigInput.create(hexa(h, h.bytes('iid', 32)), u32(h, 'in'), [k.to_public_key()], 1, u32(h, 'iq'))
    o = some_input(h, 'ops', 'o')[0]
    tx = T([x, o] if i == 0 else [o, x], [some_output(h, 'p2pkh', 'u0')[0], some_output(h, 'push', 'u1')[0]], u32(h, 'lock'))
    base = 2 if t & 0x1f == 2 else 3 if t & 0x1f == 3 else 1
    acp = t & 0x80 != 0
    want = typed_payload(h, tx, i, t, base, acp)
    today = typed_payload(h, tx, i, t, 1, False)
    s = tx.sign([k], i, t)
    unchanged(h, tx, s, i, 'signing')
    sc = s.inputs[i].script
    sigs = [sc.get_signature()] if kind == 'address' else sc.get_signatures()
    h.check(len(sigs) == 1, 'one signature')
    h.check(sigs[0][-1:] == bytes([t]), 'signature type')
    ok = h.sig_valid(k.secret, sigs[0][:-1], want)
    if base == 1 and not acp:
        h.check(ok, 'commits to the type and to everything')
    else:
        h.check(ok or h.sig_valid(k.secret, sigs[0][:-1], today), 'commits to the type')
        h.check(ok, 'commits to what the type says', known=('KF-signature-types', True))


@unit('C29', cases=[dict(order=o) for o in (0, 1)])
def sign_order(h, order):
    """Signing inputs one after another, in any order: every signature commits to the same transaction; any secrets and fields."""
    T = h.bf.Transaction
    ks = [key(h, 's%d' % j, False) for j in range(2)]
    t = T([address_input(h, k.to_address(), 'i%d' % j) for j, k in enumerate(ks)], [some_output(h, 'p2pkh', 'u0')[0]], u32(h, 'lock'))
    idx = [0, 1] if order == 0 else [1, 0]
    want = [signing_payload(h, t, i) for i in range(2)]
    s = t
    for i in idx:
        s = s.sign([ks[i]], i)
    for i in range(2):
        sig = s.inputs[i].script.get_signature()
        h.check(sig[-1:] == b'\x01' and h.sig_valid(ks[i].secret, sig[:-1], want[i]), 'every signature is valid')
        h.check(s.inputs[i].script.get_public_key() == ks[i].to_public_key(), 'by its own key')


@unit('C29', cases=[dict(n=n, m=m) for n, m in ((1, 1), (2, 2), (3, 2))], more=[dict(n=3, m=3), dict(n=15, m=2), dict(n=5, m=4), dict(n=7, m=5)])
def sign_multisig(h, n, m):
    """Transaction.sign of multisig inputs: m of n keys (of 4 and more: the first and the last), any secrets, ids and numbers, next to another input."""
    M = h.mods['bitforge.transaction.input'].MultisigInput
    T = h.bf.Transaction
    ks = [key(h, 's%d' % j) if n < 4 or j in (0, n - 1) else h.bf.PrivateKey(2 ** 200 + j) for j in range(n)]
    pubs = [k.to_public_key() for k in ks]
    x = M.create(hexa(h, h.bytes('id', 32)), u32(h, 'n'), pubs, m, u32(h, 'q'))
    redeem = x.script.to_bytes()
    t = T([some_input(h, 'p2pkh in', 'o')[0], x], [some_output(h, 'p2sh', 'u0')[0]], u32(h, 'lock'))
    want = signing_payload(h, t, 1)
    s = t.sign(ks[:m], 1)
    unchanged(h, t, s, 1, 'signing')
    sc = s.inputs[1].script
    h.check(type(sc) is classes(h)['PayToScriptIn'], 'standard form')
    h.check(sc.instructions[0].opcode.number == 0, 'with the extra element')
    h.check(sc.get_script().to_bytes() == redeem, 'the redeem script is embedded')
    sigs = sc.get_signatures()
    h.check(len(sigs) == m, 'one signature per key')
    for k, g in zip(ks, sigs):
        h.check(g[-1:] == b'\x01' and h.sig_valid(k.secret, g[:-1], want), 'every signature is valid')
        h.check(h.sig_low_s(g[:-1]), 'low S')


@unit('C29', cases=[dict(k=k) for k in ('ops', 'push')])
def sign_script(h, k):
    """Transaction.sign of pay-to-script inputs with any redeem script of the tested forms and 0..2 keys, any."""
    SI = h.mods['bitforge.transaction.input'].ScriptInput
    T = h.bf.Transaction
    r, raw = some_script(h, k, 'r')
    x = SI.create(hexa(h, h.bytes('id', 32)), u32(h, 'n'), r, u32(h, 'q'))
    t = T([x, some_input(h, 'ops', 'o')[0]], [some_output(h, 'p2sh', 'u0')[0]], u32(h, 'lock'))
    want = signing_payload(h, t, 0)
    ks = [key(h, 's%d' % j) for j in range(h.choose('keys', [1, 2]))]
    s = t.sign(ks, 0)
    unchanged(h, t, s, 0, 'signing')
    sc = s.inputs[0].script
    h.check(sc.get_script().to_bytes() == raw, 'the redeem script is embedded')
    for q, g in zip(ks, sc.get_signatures()):
        h.check(g[-1:] == b'\x01' and h.sig_valid(q.secret, g[:-1], want), 'every signature is valid')
    h.check(len(sc.get_signatures()) == len(ks), 'one per key')


# --- C30 preconditions

@unit('C30')
def sign_counts(h):
    """Pay-to-pubkey inputs are signed by exactly one key, plain inputs by none, indexes outside the transaction are refused: any secrets."""
    T = h.bf.Transaction
    k, q = key(h, 's'), key(h, 'r')
    m = h.mods['bitforge.transaction.input']
    t = T([address_input(h, k.to_address(), 'i'), some_input(h, 'ops', 'o')[0]], [some_output(h, 'p2pkh', 'u')[0]])
    before = t.to_bytes()
    for ks in ([], [k, q], [k, k], [k, q, k]):
        s, e = h.attempt(t.sign, ks, 0)
        h.check(isinstance(e, m.Input.InvalidSignatureCount), 'exactly one key')
    s, e = h.attempt(t.sign, [k], 1)
    h.check(isinstance(e, m.Input.UnknownSignatureMethod), 'unknown kind of input')
    for i in (2, 3, -1, -2, 100):
        s, e = h.attempt(t.sign, [k], i)
        h.check(isinstance(e, IndexError), 'no such input')
    h.check(t.to_bytes() == before, 'untouched')


@unit('C30', cases=[dict(c=c, d=d) for c in (True, False) for d in (True, False)])
def can_sign_address(h, c, d):
    """AddressInput.can_sign: any two secrets, compressed or not: exactly for the key that hashes to the address."""
    k, q = key(h, 's', c), key(h, 'r', d)
    x = address_input(h, k.to_address(), 'i')
    a = h.hash('ripemd160', h.hash('sha256', k.to_public_key().to_bytes()))
    b = h.hash('ripemd160', h.hash('sha256', q.to_public_key().to_bytes()))
    h.check(x.can_sign([k]), 'its own key')
    h.check(bool(x.can_sign([q])) == (a == b), 'another key')
    h.check(not x.can_sign([]) and not x.can_sign([k, k]) and not x.can_sign([k, q]), 'exactly one key')
    net = h.bf.networks.testnet
    h.check(x.can_sign([h.bf.PrivateKey(k.secret, net, c)]), 'whatever its network')


@unit('C30', cases=[dict(n=n, m=m, count=c) for n, m in ((1, 1), (2, 1), (2, 2), (3, 2)) for c in range(0, m + 2)],
      more=[dict(n=4, m=3, count=c) for c in (2, 3, 4)], cost=3)
def can_sign_multisig(h, n, m, count):
    """MultisigInput.can_sign: m of n fixed keys, any selection of 0..m+1 of them and of an unknown key, with repetition, of either network: true exactly when they are as many as required, distinct, and all known."""
    M = h.mods['bitforge.transaction.input'].MultisigInput
    ss = [3, 2 ** 200 + 7, 11, 2 ** 128 + 1, 5][:n + 1]
    x = M.create('ab' * 32, 0, [pub(h, s) for s in ss[:n]], m)
    sel = [h.choose('c%d' % j, list(range(n + 1))) for j in range(count)]
    net = h.choose('net', [h.bf.networks.livenet, h.bf.networks.testnet])
    want = count == m and len(set(sel)) == count and n not in sel
    h.check(bool(x.can_sign([h.bf.PrivateKey(ss[j], net) for j in sel])) == want, 'the required number of distinct keys')


@unit('C30', cases=[dict(c=c) for c in (True, False)])
def can_sign_multisig_any(h, c):
    """MultisigInput.can_sign: 1 of 1, any two secrets: exactly when their public keys are the same."""
    M = h.mods['bitforge.transaction.input'].MultisigInput
    k, q = key(h, 's', c), key(h, 'r', c)
    x = M.create('ab' * 32, 0, [k.to_public_key()], 1)
    h.check(x.can_sign([k]), 'its key')
    h.check(bool(x.can_sign([q])) == (k.to_public_key().to_bytes() == q.to_public_key().to_bytes()), 'another key')


@unit('C30')
def input_kinds(h):
    """Input.create: scripts of every standard form: pay-to-pubkey inputs become AddressInputs, pay-to-script inputs ScriptInputs, others plain; fields are kept."""
    m = h.mods['bitforge.transaction.input']
    kind = h.choose('kind', list(SCRIPTS[:9]))
    s, raw = some_script(h, kind)
    n, q = h.int('n', 0, M32), h.int('q', 0, M32)
    x = m.Input.create('cd' * 32, n, s, q)
    want = m.AddressInput if kind == 'p2pkh in' else m.ScriptInput if kind == 'p2sh in' else m.Input
    h.check(type(x) is want, 'its kind')
    h.check(x.tx_id == 'cd' * 32 and x.txo_index == n and x.seq_number == q and x.script.to_bytes() == raw, 'fields')


@unit('C30')
def placeholder(h):
    """Inputs to be signed hold the script they spend: the address's output script, the redeem script, the multisig script; any keys and numbers."""
    m = h.mods['bitforge.transaction.input']
    k = key(h, 's')
    n = h.int('n', 0, M32)
    x = m.AddressInput.create('cd' * 32, n, k.to_address())
    h.check(x.script.to_bytes() == bytes([118, 169, 20]) + k.to_address().phash + bytes([136, 172]), 'output script')
    h.check(x.tx_id == 'cd' * 32 and x.txo_index == n and x.seq_number == M32, 'fields')
    r, raw = some_script(h, 'ops')
    y = m.ScriptInput.create('cd' * 32, n, r)
    h.check(y.script.to_bytes() == raw and y.txo_index == n and y.seq_number == M32, 'redeem script')
    p = k.to_public_key()
    z = m.MultisigInput.create('cd' * 32, n, [p, p], 1, 9)
    h.check(z.script.to_bytes() == bytes([81]) + push_bytes(33, p.to_bytes()) * 2 + bytes([82, 174]) and z.seq_number == 9, 'multisig script')


# --- C31 outputs

@unit('C31', cases=[dict(kind=k) for k in SCRIPTS])
def output_kinds(h, kind):
    """Output.create and Output.from_bytes: any amount, scripts of every standard form: its kind, amount and script."""
    m = h.mods['bitforge.transaction.output']
    x, raw = some_output(h, kind, '', ('a',))
    want = {'p2pkh': m.AddressOutput, 'p2sh': m.ScriptOutput, 'return': m.DataOutput}.get(kind, m.Output)
    if kind == 'ops':
        h.assume(x.script.instructions[0].opcode.number != 106)
    for y in (m.Output.create(x.amount, x.script), m.Output.from_bytes(raw)):
        h.check(type(y) is want, 'its kind')
        h.check(y.amount == x.amount and y.script.to_bytes() == x.script.to_bytes(), 'amount and script')


@unit('C31')
def address_output(h):
    """AddressOutput: any key, network and amount: pays to exactly that hash; the spending input recognizes the key."""
    m = h.mods['bitforge.transaction.output']
    k = key(h, 's', h.choose('c', [True, False]), h.choose('net', [h.bf.networks.livenet, h.bf.networks.testnet]))
    a = h.int('amount', 0, 2 ** 64 - 1)
    x = m.AddressOutput.create(a, k.to_address())
    hs = h.hash('ripemd160', h.hash('sha256', k.to_public_key().to_bytes()))
    h.check(x.amount == a and x.script.to_bytes() == bytes([118, 169, 20]) + hs + bytes([136, 172]), 'pay to this hash')
    i = h.mods['bitforge.transaction.input'].AddressInput.create('00' * 32, 0, k.to_address())
    h.check(i.script == x.script and i.can_sign([k]), 'the input that spends it')


@unit('C31')
def any_address_output(h):
    """AddressOutput: any hash, network, type of address and amount: the standard script of that type with exactly that hash; an address read from text pays alike."""
    m, ad = h.mods['bitforge.transaction.output'], h.mods['bitforge.address'].Address
    hs = h.bytes('h', 20)
    net = h.choose('net', [h.bf.networks.livenet, h.bf.networks.testnet])
    t = h.choose('type', [ad.Type.PublicKey, ad.Type.Script])
    a = h.int('amount', 0, 2 ** 64 - 1)
    want = bytes([118, 169, 20]) + hs + bytes([136, 172]) if t is ad.Type.PublicKey else bytes([169, 20]) + hs + bytes([135])
    for address in (ad(hs, net, t), ad.from_bytes(ad(hs, net, t).to_bytes())):
        x = m.AddressOutput.create(a, address)
        h.check(x.amount == a and x.script.to_bytes() == want, 'pays to that address')


@unit('C31', cases=[dict(k=k) for k in ('empty', 'ops', 'push', 'multisig', 'longer')])
def script_output(h, k):
    """ScriptOutput: any redeem script of the tested forms and amount: pays to the hash of that script."""
    m = h.mods['bitforge.transaction.output']
    r, raw = some_script(h, k)
    a = h.int('amount', 0, 2 ** 64 - 1)
    x = m.ScriptOutput.create(a, r)
    h.check(x.amount == a and x.script.to_bytes() == bytes([169, 20]) + h.hash('ripemd160', h.hash('sha256', raw)) + bytes([135]), 'pay to this script')


@unit('C31', cases=[dict(n=n) for n in (1, 2, 3)], more=[dict(n=15)])
def multisig_output(h, n):
    """MultisigOutput: 1..3 keys (also: 15), any required number: pays to the hash of the redeem script that the input is signed for; keys in order."""
    m = h.mods['bitforge.transaction.output']
    ps = [pub(h, h.int('s%d' % i, 1, 2 ** 128)) for i in range(n)]
    k = h.choose('m', list(range(1, n + 1)))
    x = m.MultisigOutput.create(77, ps, k)
    redeem = bytes([80 + k])
    for p in ps:
        redeem = redeem + push_bytes(33, p.to_bytes())
    redeem = redeem + bytes([80 + n, 174])
    h.check(x.script.to_bytes() == bytes([169, 20]) + h.hash('ripemd160', h.hash('sha256', redeem)) + bytes([135]), 'pay to this script')
    h.check(isinstance(x, m.ScriptOutput) and x.amount == 77, 'kind and amount')
    i = h.mods['bitforge.transaction.input'].MultisigInput.create('00' * 32, 0, ps, k)
    h.check(i.script.to_bytes() == redeem, 'the input that spends it')


@unit('C31', cases=[dict(n=n) for n in (1, 2, 75, 76, 80, 81, 100)])
def data_output(h, n):
    """DataOutput: any data of 1, 2, 75, 76, 80, 81, 100 bytes: carried whole with amount zero, or refused above 80."""
    m = h.mods['bitforge.transaction.output']
    d = h.bytes('d', n)
    x, e = h.attempt(m.DataOutput.create, d)
    if n > 80:
        h.check(isinstance(e, m.DataOutput.TooMuchData), 'too much')
    else:
        h.check(e is None and x.amount == 0 and x.script.get_data() == d, 'carried')
        h.check(x.script.to_bytes() == bytes([106]) + push_bytes(smallest_push(n), d), 'wire form')


# --- C32 validation and immutability

@unit('C32')
def lock_time_range(h):
    """Transaction: every lock time -2..2^33: refused outside 0..2^32-1."""
    T, S = h.bf.Transaction, h.bf.Script
    l = h.int('lock', -2, 2 ** 33)
    t, e = h.attempt(T, [h.bf.Input('00' * 32, 0, S())], [h.bf.Output(1, S())], l)
    if 0 <= l <= M32:
        h.check(e is None and t.lock_time == l, 'accepted')
    else:
        h.check(isinstance(e, T.InvalidLockTime), 'refused')


@unit('C32', cases=[dict(n=n, m=m) for n in (0, 1, 2) for m in (0, 1, 2)])
def parts(h, n, m):
    """Transaction: 0..2 inputs and outputs, one of them possibly of the wrong kind, anywhere: refused."""
    T, S = h.bf.Transaction, h.bf.Script
    I = lambda: h.bf.Input('00' * 32, h.int('n%d' % len(made), 0, M32), S())
    made = []
    for i in range(n):
        made.append(I())
    outs = [h.bf.Output(h.int('a%d' % i, 0, M32), S()) for i in range(m)]
    bad = h.choose('bad', [None] + ['i%d' % i for i in range(n)] + ['o%d' % i for i in range(m)])
    what = h.choose('what', [None, 'text', 5])
    ins, us = list(made), list(outs)
    if bad is not None and bad[0] == 'i':
        ins[int(bad[1])] = outs[0] if outs and what is None else what
    elif bad is not None:
        us[int(bad[1])] = made[0] if made and what is None else what
    t, e = h.attempt(T, ins, us)
    if n == 0:
        h.check(isinstance(e, T.NoInputs), 'no inputs')
    elif bad is not None and bad[0] == 'i':
        h.check(isinstance(e, T.NotAnInput), 'not an input')
    elif m == 0:
        h.check(isinstance(e, T.NoOutputs), 'no outputs')
    elif bad is not None:
        h.check(isinstance(e, T.NotAnOutput), 'not an output')
    else:
        h.check(e is None and t.inputs == tuple(made) and t.outputs == tuple(outs), 'kept, in order')


@unit('C32')
def immutable(h):
    """Transactions, inputs and outputs are values: changing the lists they were built from changes nothing, fields cannot be set, equal fields are equal and hash equal."""
    T, S = h.bf.Transaction, h.bf.Script
    ins = [some_input(h, 'empty', 'i')[0]]
    outs = [some_output(h, 'empty', 'u')[0]]
    l = u32(h, 'lock')
    t = T(ins, outs, l)
    before = t.to_bytes()
    q = T(list(ins), iter(outs), l)
    ins.append(some_input(h, 'empty', 'j')[0])
    outs.append(some_output(h, 'empty', 'w')[0])
    h.check(len(t.inputs) == 1 and len(t.outputs) == 1 and t.to_bytes() == before, 'a copy')
    h.check(t == q, 'equal')
    for o, names in ((t, ('inputs', 'outputs', 'lock_time', 'version')), (t.inputs[0], ('tx_id', 'txo_index', 'script', 'seq_number')), (t.outputs[0], ('amount', 'script'))):
        for n in names:
            v, e = h.attempt(setattr, o, n, 1)
            h.check(isinstance(e, AttributeError), 'fields cannot be set')
    r = t.replace_inputs(ins)
    h.check(len(r.inputs) == 2 and r.outputs == t.outputs and r.lock_time == l and r.version == t.version, 'replacing inputs makes another transaction')
    h.check(len(t.inputs) == 1, 'and leaves this one')
    s = script(h, [h.int('op', 97, 255)])
    x = t.inputs[0]
    y = x.replace_script(s)
    h.check(y.script == s and y.tx_id == x.tx_id and y.txo_index == x.txo_index and y.seq_number == x.seq_number, 'replacing a script')
    h.check(x.script.to_bytes() == b'' and y.remove_script().script.to_bytes() == b'' and y.script == s, 'leaves the others')


@unit('C32')
def hashable(h):
    """Equal transactions have equal hashes (concrete fields; equality: any lock times)."""
    T, S = h.bf.Transaction, h.bf.Script
    mk = lambda l: T([h.bf.Input('00' * 32, 0, S())], [h.bf.Output(1, S())], l)
    a, b = h.int('a', 0, M32), h.int('b', 0, M32)
    h.check((mk(a) == mk(b)) == (a == b), 'equal exactly when the fields are')
    h.check(hash(mk(5)) == hash(mk(5)) and len({mk(5), mk(5), mk(6)}) == 2, 'hash')

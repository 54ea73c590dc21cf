#!/usr/bin/env python3
"""Fills the "fixed" list of known_findings.json from the fix: commits of /repo (run by hand)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {
 'negative indexes with hardened': 'C34', 'ignored the byte before the private key': 'C33', 'deterministic nonces': 'C36',
 'utils.ecdsa.verify() raised': 'C36', 'utils.ecdsa.sign() returned r': 'C36', 'intbytes.from_bytes': 'C37', 'modular_sqrt': 'C37',
 'text form of an empty Script': 'C12', 'opcodes without a name': 'C15', 'decode_base58h() leaked': 'C03', 'decode_hex() leaked': 'C10',
 'URI without an address': 'C40', 'URI.is_valid() raised': 'C40', 'Unit truncated': 'C39', 'counted the same key several': 'C30',
 'never recognized keys of other networks': 'C30', 'MultisigOutputs were not': 'C31', 'negative index returned an unsigned': 'C30',
 'get_id() couldn': 'C28', 'PrivateKey.verify() hashed': 'C43', 'coordinates out of the field': 'C07', 'public keys of the wrong length': 'C07',
 'validate_signature() raised': 'C38', 'HDPublicKey.from_string() accepted': 'C33', 'HDPrivateKey.from_string() accepted': 'C33',
 'derived hardened indexes': 'C34', 'HDPublicKey.derive() ignored': 'C34', 'HDPrivateKey.derive() ignored': 'C34',
 'HDPublicKey.to_string() mixed': 'C33', 'HDPrivateKey.to_string() mixed': 'C33', 'stack size limit': 'C19',
 'never compared lock times': 'C23', 'enforced only without its flag': 'C23', 'P2SH verification': 'C22', 'minimal push check': 'C13',
 'classifying 4 or more': 'C14', 'comparing an Instruction': 'C11', 'parsed Scripts were unhashable': 'C11',
 'keys and addresses were unhashable': 'C41', 'errors had no message': 'C41', 'OP_WITHIN': 'C17', 'OP_ABS': 'C17', 'OP_DROP': 'C16',
 'script numbers of exactly': 'C09', 'hash160() called': 'C08', 'append the signature type': 'C29', 'Input.create() raised': 'C30',
 'deserialize tx_id': 'C27', 'from Transaction.to_bytes()': 'C27', 'from Output.to_bytes()': 'C27', 'from Input.to_bytes()': 'C27',
 'serialize PUSHDATA': 'C11', 'refuse to encode integers': 'C05', 'encode zero and multi-byte': 'C05',
 'unreduced': 'C35',
}
MORE = os.path.join(V, 'tools', 'fixed_more.json')
if os.path.exists(MORE):
    M.update(json.load(open(MORE)))
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    k = [v for m, v in M.items() if m in s]
    assert len(k) == 1, (s, k)
    out.append('fixed: property=%s %s %s' % (k[0], h, s[5:]))
p = os.path.join(V, 'known_findings.json')
d = json.load(open(p))
d['fixed'] = out
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
print(len(out))

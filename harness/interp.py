"""The script interpreter: every opcode against a reference evaluator written from the protocol."""
from harness.api import unit
from harness.codec import sn_value, sn_minimal, sn_encode
from harness.script import push_bytes, smallest_push

P2SH, NULLDUMMY, SIGPUSHONLY, MINIMALDATA, NOPS, CLTV = 1, 1 << 4, 1 << 5, 1 << 6, 1 << 7, 1 << 9
DISABLED = (126, 127, 128, 129, 131, 132, 133, 134, 141, 142, 149, 150, 151, 152, 153)
UPGRADABLE = (176, 178, 179, 180, 181, 182, 183, 184, 185)
UNARY = (139, 140, 143, 144, 145, 146)
BINARY = (147, 148, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164)
HASHES = (166, 167, 168, 169, 170)


class Push(object):
    """a push with a given opcode"""

    def __init__(self, op, data):
        self.op = op
        self.data = data


def item(h, x):
    O, I = h.bf.Opcode, h.bf.Instruction
    if isinstance(x, Push):
        return I(O(x.op), x.data)
    if isinstance(x, int):
        return I(O(x))
    if len(x) == 0:
        return I(O(0))
    return I(O(smallest_push(len(x))), x)


def script(h, items):
    return h.bf.Script([item(h, x) for x in items])


def run(h, sig, pub, flags=0, tx=None, nin=0, vm=None):
    vm = vm or h.mods['bitforge.script.interpreter'].Interpreter()
    v, e = h.attempt(vm.verify, script(h, sig), script(h, pub), tx, nin, flags)
    h.check(e is None, 'verification never raises')
    h.check(v is True or v is False, 'and gives a boolean')
    return v


def truth(b):
    """whether an element is true: some byte is not zero, negative zero excepted"""
    n = len(b)
    for i in range(n):
        if b[i] != 0:
            if i == n - 1 and b[i] == 0x80:
                return False
            return True
    return False


def shadowed(b):
    """elements the known finding misjudges"""
    return len(b) > 1 and b[0] == 0 and truth(b)


class Failed(Exception):
    pass


class Ref(object):
    """evaluates a list of items the way the protocol says; `fail` reasons are not distinguished"""

    def __init__(self, h, flags=0, lock=0, seq=0xffffffff):
        self.h = h
        self.flags = flags
        self.lock = lock
        self.seq = seq
        self.stack = []

    def bool(self, b):
        self.h.assume(not shadowed(b))
        return truth(b)

    def num(self, b, limit=4):
        if len(b) > limit:
            raise Failed
        if self.flags & MINIMALDATA and not sn_minimal(b):
            raise Failed
        return sn_value(b)

    def need(self, n):
        if len(self.stack) < n:
            raise Failed

    def run(self, items):
        self.alt = []
        self.cond = []
        self.count = 0
        try:
            for x in items:
                self.step(x)
                if len(self.stack) + len(self.alt) > 1000:
                    raise Failed
            if self.cond:
                raise Failed
        except Failed:
            return False
        return True

    def push(self, *xs):
        for x in xs:
            self.stack.append(x)

    def put(self, b):
        self.push(b'\x01' if b else b'')

    def step(self, x):
        s = self.stack
        live = all(self.cond)
        if isinstance(x, Push):
            op, data = x.op, x.data
        elif isinstance(x, int):
            op, data = x, b''
        else:
            op, data = (smallest_push(len(x)) if len(x) else 0), x
        if op > 96:
            self.count += 1
            if self.count > 201:
                raise Failed
        if len(data) > 520 or op in DISABLED:
            raise Failed
        if not live and not 99 <= op <= 104:
            return
        if op <= 78:
            if self.flags & MINIMALDATA and op > 0:
                n = len(data)
                if n == 0 or (n == 1 and (1 <= data[0] <= 16 or data[0] == 0x81)) or op != smallest_push(n):
                    raise Failed
            self.push(data)
        elif op == 79:
            self.push(b'\x81')
        elif 81 <= op <= 96:
            self.push(bytes([op - 80]))
        elif op == 97:
            pass
        elif op == 177:
            if not self.flags & CLTV:
                if self.flags & NOPS:
                    raise Failed
                return
            self.need(1)
            n = self.num(s[-1], 5)
            if n < 0 or (n < 500000000) != (self.lock < 500000000) or n > self.lock or self.seq == 0xffffffff:
                raise Failed
        elif op in UPGRADABLE:
            if self.flags & NOPS:
                raise Failed
        elif op in (99, 100):
            v = False
            if live:
                self.need(1)
                v = self.bool(s.pop())
                if op == 100:
                    v = not v
            self.cond.append(v)
        elif op == 103:
            if not self.cond:
                raise Failed
            self.cond[-1] = not self.cond[-1]
        elif op == 104:
            if not self.cond:
                raise Failed
            self.cond.pop()
        elif op == 105:
            self.need(1)
            if not self.bool(s.pop()):
                raise Failed
        elif op == 107:
            self.need(1)
            self.alt.append(s.pop())
        elif op == 108:
            if not self.alt:
                raise Failed
            self.push(self.alt.pop())
        elif op in STACK:
            k, order = STACK[op]
            self.need(k)
            top = [s.pop() for i in range(k)][::-1]
            self.push(*[top[i] for i in order])
        elif op == 115:
            self.need(1)
            if self.bool(s[-1]):
                self.push(s[-1])
        elif op == 116:
            self.push(sn_encode(len(s)))
        elif op in (121, 122):
            self.need(2)
            n = self.num(s.pop())
            for i in range(len(s)):
                if n == i:
                    x = s[-1 - i]
                    if op == 122:
                        del s[-1 - i]
                    self.push(x)
                    return
            raise Failed
        elif op == 130:
            self.need(1)
            self.push(sn_encode(len(s[-1])))
        elif op in (135, 136):
            self.need(2)
            eq = s.pop() == s.pop()
            if op == 135:
                self.put(eq)
            elif not eq:
                raise Failed
        elif op in UNARY:
            self.need(1)
            n = self.num(s.pop())
            self.push(sn_encode({139: n + 1, 140: n - 1, 143: -n, 144: n if n >= 0 else -n, 145: 1 if n == 0 else 0, 146: 0 if n == 0 else 1}[op]))
        elif op in BINARY:
            self.need(2)
            b = self.num(s[-1])
            a = self.num(s[-2])
            s.pop()
            s.pop()
            if op in (147, 148, 163, 164):
                self.push(sn_encode(a + b if op == 147 else a - b if op == 148 else (a if a < b else b) if op == 163 else (a if a > b else b)))
                return
            if op == 154:
                r = a != 0 and b != 0
            elif op == 155:
                r = a != 0 or b != 0
            elif op in (156, 157):
                r = a == b
            elif op == 158:
                r = a != b
            elif op == 159:
                r = a < b
            elif op == 160:
                r = a > b
            elif op == 161:
                r = a <= b
            else:
                r = a >= b
            if op != 157:
                self.put(r)
            elif not r:
                raise Failed
        elif op == 165:
            self.need(3)
            c = self.num(s[-1])
            b = self.num(s[-2])
            a = self.num(s[-3])
            del s[-3:]
            self.put(b <= a and a < c)
        elif op in HASHES:
            self.need(1)
            x = s.pop()
            H = self.h.hash
            if op == 166:
                x = H('ripemd160', x)
            elif op == 167:
                x = H('sha1', x)
            elif op == 168:
                x = H('sha256', x)
            elif op == 169:
                x = H('ripemd160', H('sha256', x))
            else:
                x = H('sha256', H('sha256', x))
            self.push(x)
        elif op == 171:
            pass
        elif op in (174, 175):
            self.need(1)
            n = self.num(s[-1])
            if n < 0 or n > 20:
                raise Failed
            self.count += n
            if self.count > 201:
                raise Failed
            n = pin(n, 0, 20)
            self.need(n + 2)
            m = self.num(s[-n - 2])
            if m != 0:
                raise Failed                # no signature is ever accepted
            self.need(n + 3)
            d = s[-n - 3]
            del s[-n - 3:]
            if self.flags & NULLDUMMY and len(d) > 0:
                raise Failed
            if op == 174:
                self.put(True)
        else:
            raise Failed


def pin(n, lo, hi):
    for i in range(lo, hi + 1):
        if n == i:
            return i
    raise Failed


STACK = {
    109: (2, ()), 110: (2, (0, 1, 0, 1)), 111: (3, (0, 1, 2, 0, 1, 2)), 112: (4, (0, 1, 2, 3, 0, 1)), 113: (6, (2, 3, 4, 5, 0, 1)),
    114: (4, (2, 3, 0, 1)), 117: (1, ()), 118: (1, (0, 0)), 119: (2, (1,)), 120: (2, (0, 1, 0)), 123: (3, (1, 2, 0)), 124: (2, (1, 0)),
    125: (2, (1, 0, 1)),
}


def agrees(h, sig, ops, flags=0, lock=0, seq=0xffffffff, tx=None, nin=0):
    """verification agrees with the reference: fails when it fails, and leaves the same stack when it does not"""
    r = Ref(h, flags, lock, seq)
    if not (r.run(sig) and r.run(ops)):
        h.check(not run(h, sig, ops + [81], flags, tx, nin), 'fails')
        return False
    probe = []
    for x in r.stack[::-1]:
        if len(x) == 1 and flags & MINIMALDATA:
            if 1 <= x[0] <= 16:
                probe += [pin(x[0], 1, 16) + 80, 136]
            elif x[0] == 0x81:
                probe += [79, 136]
            else:
                probe += [x, 136]
        else:
            probe += [x, 136]
    h.check(run(h, sig, ops + probe + [116, 0, 135], flags, tx, nin), 'succeeds, with the expected stack')
    return True


def elements(h, n, sizes=(1, 2, 0, 3)):
    return [h.bytes('x%d' % i, sizes[i % len(sizes)]) for i in range(n)]


# --- C16 stack operations

@unit('C16', cases=[dict(op=o, d=d) for o in sorted(STACK) for d in list(range(0, 8)) + [9, 12, 13]], more=[dict(op=o, d=d) for o in sorted(STACK) for d in (8, 10, 11, 14, 20, 33)])
def stack_op(h, op, d):
    """Every stack opcode on stacks of 0..7, 9, 12 and 13 elements (also: 33) of 0..3 bytes, any contents."""
    agrees(h, elements(h, d), [op])


@unit('C16', cases=[dict(op=o, d=d) for o in sorted(STACK) for d in (3, 6)])
def stack_equal(h, op, d):
    """Every stack opcode on 3 and 6 elements of one byte, any contents, equal ones included."""
    agrees(h, elements(h, d, (1,)), [op])


@unit('C16', cases=[dict(op=o, n=n) for o in (121, 122) for n in range(0, 5)] + [dict(op=o, n=n, d=9) for o in (121, 122) for n in (3, 8)])
def pick_roll_equal(h, op, n, d=5):
    """PICK and ROLL among 5 elements of one byte (and 9), any contents, equal ones included: every index."""
    agrees(h, elements(h, d, (1,)) + [n + 80 if n else 0], [op])


@unit('C16', cases=[dict(op=o, d=d, n=n) for o in (121, 122) for d in range(0, 5) for n in (0, 1, 2)],
      more=[dict(op=o, d=d, n=n) for o in (121, 122) for d in (2, 7) for n in (3, 4, 5)])
def pick_roll(h, op, d, n):
    """PICK and ROLL: stacks of 0..4 elements (also: 7), any index of 0..2 bytes (also: 5)."""
    agrees(h, elements(h, d) + [h.bytes('n', n)], [op])


@unit('C16', cases=[dict(d=d, n=n) for d in range(0, 3) for n in (0, 1, 2)])
def ifdup(h, d, n):
    """IFDUP, DEPTH, SIZE: stacks of 0..3 elements, any top element of 0..2 bytes."""
    xs = elements(h, d) + [h.bytes('t', n)]
    agrees(h, xs, [115])
    agrees(h, xs, [116])
    agrees(h, xs, [130])
    agrees(h, xs[:d], [130] if d == 0 else [116])
    agrees(h, xs[:d], [115] if d == 0 else [116])


@unit('C16', cases=[dict(d=d) for d in (16, 17, 127, 128, 255, 256, 300)], more=[dict(d=519)])
def depth(h, d):
    """DEPTH and SIZE of large stacks and elements: 16..300 elements."""
    x = h.bytes('x', 1)
    h.check(run(h, [x] * (d // 2), [x] * (d - d // 2) + [116, sn_encode(d), 135]), 'DEPTH')
    agrees(h, [b'\x07' * d + x], [130])


@unit('C16', cases=[dict(d=d) for d in range(0, 4)])
def altstack(h, d):
    """TOALTSTACK and FROMALTSTACK: every sequence of three of them on 0..3 elements; the alternate stack does not outlive a script."""
    xs = elements(h, d)
    ops = [h.choose('o%d' % i, [107, 108]) for i in range(3)]
    agrees(h, xs, ops)
    agrees(h, xs + [107] * min(d, 1), [108])


OPS16 = sorted(STACK) + [107, 108, 116, 130]


@unit('C16', cases=[dict(op=o, d=d) for o in OPS16 for d in (2, 4)], more=[dict(op=o, d=d, n=2) for o in OPS16 for d in (3, 6)], cost=2)
def stack_programs(h, op, d, n=1):
    """Programs of two stack opcodes (also: three) on stacks of 2 and 4 elements (also: 3 and 6), any opcodes and contents."""
    agrees(h, elements(h, d), [op] + [h.choose('o%d' % i, OPS16) for i in range(n)])


# --- C17 arithmetic

def operand(h, name, n):
    return h.bytes(name, n)


@unit('C17', cases=[dict(op=o, n=n, f=f) for o in UNARY for n in (0, 1, 2, 4, 5) for f in (0, MINIMALDATA)],
      more=[dict(op=o, n=n, f=f) for o in UNARY for n in (3, 6, 9) for f in (0, MINIMALDATA)])
def unary(h, op, n, f):
    """1ADD, 1SUB, NEGATE, ABS, NOT, 0NOTEQUAL: any operand of 0, 1, 2, 4, 5 bytes, with and without minimal encoding."""
    xs = [b'\x09\x09', h.bytes('a', n)]
    if f and n == 1 and (1 <= xs[1][0] <= 16 or xs[1][0] == 0x81):
        xs[1] = 79 if xs[1][0] == 0x81 else pin(xs[1][0], 1, 16) + 80
    agrees(h, xs, [op], f)


@unit('C17', cases=[dict(op=o, n=n, m=m) for o in BINARY for n, m in ((0, 0), (1, 1), (1, 2), (4, 1), (2, 4), (5, 1), (1, 5))],
      more=[dict(op=o, n=n, m=m) for o in BINARY for n, m in ((0, 2), (3, 3), (4, 4), (1, 0))], cost=3)
def binary(h, op, n, m):
    """ADD, SUB, BOOLAND, BOOLOR, comparisons, MIN, MAX: any operands of 0..5 bytes."""
    agrees(h, [b'\x09\x09', h.bytes('a', n), h.bytes('b', m)], [op])


@unit('C17', cases=[dict(op=o, n=n, m=m) for o in (147, 148, 156, 157, 163) for n, m in ((2, 2), (1, 2), (2, 3))])
def binary_minimal(h, op, n, m):
    """Binary operators with minimal encoding required: any operands of 1..3 bytes (bytes with an opcode of their own excluded)."""
    a, b = h.bytes('a', n), h.bytes('b', m)
    if n == 1:
        h.assume(a[0] > 16 and a[0] != 0x81)
    agrees(h, [b'\x09\x09', a, b], [op], MINIMALDATA)


@unit('C17', cases=[dict(n=n, m=m, k=k, f=f) for n, m, k in ((1, 1, 1), (2, 1, 2), (0, 1, 1), (5, 1, 1), (1, 1, 5), (1, 5, 1)) for f in (0,)] +
      [dict(n=2, m=2, k=2, f=MINIMALDATA)], more=[dict(n=4, m=4, k=4, f=0)], cost=3)
def within(h, n, m, k, f):
    """WITHIN: any operands of 0..5 bytes."""
    agrees(h, [b'\x09', h.bytes('a', n), h.bytes('b', m), h.bytes('c', k)] if not f else [h.bytes('a', n), h.bytes('b', m), h.bytes('c', k)], [165], f)


@unit('C17', cases=[dict(op=o, d=d) for o in UNARY + BINARY + (165,) for d in range(0, 4)])
def too_few(h, op, d):
    """Every arithmetic opcode on stacks of 0..3 elements: fails exactly when operands are missing."""
    agrees(h, elements(h, d, (1,)), [op])


@unit('C17')
def number_opcodes(h):
    """0, 1NEGATE, 1..16: every one pushes its number, in minimal form."""
    op = h.choose('op', [0, 79] + list(range(81, 97)))
    n = 0 if op == 0 else op - 80
    agrees(h, [], [op], h.choose('f', [0, MINIMALDATA]))
    h.check(run(h, [op], [h.bytes('x', 0) + sn_encode(n), 135]), 'its encoding')


@unit('C17', cases=[dict(op=o) for o in (139, 147, 148)])
def overflow(h, op):
    """Results of 5 bytes can be compared as bytes, and not used as numbers: any operands of 4 bytes."""
    xs = [h.bytes('a', 4), h.bytes('b', 4)]
    r = Ref(h)
    r.run(xs + [op])
    x = r.stack[-1]
    if len(x) > 4:
        h.check(not run(h, xs, [op, 146]), 'too long for a number')
        h.check(not run(h, xs, [op, op, 81]), 'too long for a number')
        h.reach('overflow')
    h.check(run(h, xs, [op, x, 135]), 'the sum is right')


# --- C18 flow control

BODY = [99, 100, 103, 104, 82, 105]


@unit('C18', cases=[dict(a=a, b=b) for a in BODY for b in BODY], thorough=[dict(a=a, b=b, n=3) for a in BODY for b in BODY], cost=2, max_paths=200000)
def flow_programs(h, a, b, n=2):
    """Every program of 4 instructions (thorough: 5) out of IF, NOTIF, ELSE, ENDIF, a push, VERIFY, on a stack of three one-byte elements, any."""
    agrees(h, [h.bytes('x%d' % i, 1) for i in range(3)], [a, b] + [h.choose('o%d' % i, BODY) for i in range(n)])


@unit('C18', cases=[dict(a=a, b=b, e=e) for a in (99, 100) for b in (99, 100) for e in (0, 1, 2, 3)])
def nested(h, a, b, e):
    """Two nested conditionals with and without ELSE: any conditions of 2 bytes."""
    x, y = h.bytes('x', 2), h.bytes('y', 2)
    inner = [y, b, 83] + ([103, 84] if e & 1 else []) + [104]
    agrees(h, [x], [a, 82] + inner + ([103, 85] + inner + [86] if e & 2 else []) + [104, 87])


@unit('C18', cases=[dict(a=a, b=b, c=c, e=e) for a, b, c in ((99, 99, 99), (100, 99, 100), (99, 100, 99)) for e in range(8)])
def deep(h, a, b, c, e):
    """Three nested conditionals, each with and without ELSE: any conditions of one byte."""
    x, y, z = [h.bytes(k, 1) for k in 'xyz']
    third = [z, c, 84] + ([103, 85] if e & 1 else []) + [104]
    second = [y, b, 83] + third + ([103] + third + [86] if e & 2 else []) + [104]
    agrees(h, [x], [a, 82] + second + ([103, 87] + second if e & 4 else []) + [104, 88])


@unit('C18', cases=[dict(n=n) for n in (4, 5, 8, 16)], more=[dict(n=n) for n in (6, 7, 32, 90)])
def deep_else(h, n):
    """4, 5, 8 and 16 nested conditionals (also: 90), each entered through its ELSE but any one: the condition of one of them any; a branch inside one that is not taken stays unexecuted whatever its own ELSEs say."""
    at = h.choose('at', range(n) if n < 9 else [0, 1, n // 2, n - 1])
    without = h.choose('without', [-1] + list(range(n) if n < 9 else [0, n - 2, n - 1]))
    x = h.bytes('x', 1)
    ops = []
    for i in range(n):
        ops += ([] if i == at else [0 if i != without else 81]) + ([x] if i == at else []) + [99] + ([103] if i != without else [])
    agrees(h, [], ops + [84] + [104] * n + [85])


@unit('C18', cases=[dict(n=n) for n in (4, 8, 16)], more=[dict(n=n) for n in (32, 64)])
def deeper(h, n):
    """4, 8 and 16 nested conditionals (also: 64), the condition of one of them any, an ELSE in any one: whatever is inside a branch not taken stays unexecuted."""
    at = h.choose('at', [0, 1, n // 2, n - 1])
    other = h.choose('else', [0, 1, n // 2, n - 1])
    x = h.bytes('x', 1)
    ops = []
    for i in range(n):
        ops += [x if i == at else 81, 99 if i % 2 == 0 else 100, 82] if i == at else [81 if i % 2 == 0 else 0, 99 if i % 2 == 0 else 100]
    ops += [83]
    for i in range(n)[::-1]:
        ops += [103, 84, 104] if i == other else [104]
    agrees(h, [], ops + [85])


@unit('C18', cases=[dict(n=n) for n in (0, 1, 2)])
def verify_return(h, n):
    """VERIFY, RETURN, IF, NOTIF: any element of 0..2 bytes; an empty stack fails."""
    x = h.bytes('x', n)
    for op in (105, 106, 99, 100):
        agrees(h, [b'\x05', x], [op] + ([82, 103, 83, 104] if op in (99, 100) else []))
        agrees(h, [], [op] + ([104] if op in (99, 100) else []))


@unit('C18', cases=[dict(n=n) for n in (1, 2, 3)])
def many_else(h, n):
    """Repeated ELSE toggles execution: up to 3 of them, any condition."""
    x = h.bytes('x', 1)
    ops = [h.choose('c', [99, 100]), 82]
    for i in range(n):
        ops += [103, 83 + i]
    agrees(h, [x], ops + [104])


@unit('C18')
def no_carry(h):
    """A conditional left open in the input script is not closed by the output script: any condition."""
    x = h.bytes('x', 1)
    c = h.choose('c', [99, 100])
    h.check(not run(h, [x, c, 81], [104, 81]), 'unbalanced')
    h.check(not run(h, [81, x, c], [81, 104]), 'unbalanced')
    h.check(not run(h, [81], [x, c, 81]), 'unbalanced')
    h.check(not run(h, [81], [h.choose('o', [103, 104]), 81]), 'nothing to close')


@unit('C18')
def unexecuted(h):
    """Inside a branch that is not taken: every opcode number; only conditionals, disabled and reserved conditionals matter."""
    op = h.int('op', 79, 255)
    want = Ref(h).run([0, 99, op, 104, 81])
    h.check(run(h, [], [0, 99, op, 104, 81]) == want, 'not executed')
    h.check(not run(h, [], [0, 99, op, 104]), 'the stack is left empty')


@unit('C18', cases=[dict(p=p, n=n) for p, n in ((2, 2), (76, 1), (77, 300), (78, 0))])
def unexecuted_push(h, p, n):
    """Pushes inside a branch that is not taken are skipped, whatever the flags."""
    f = h.choose('f', [0, MINIMALDATA])
    d = Push(p, h.bytes('d', n))
    h.check(run(h, [], [81, 0, 99, d, 104], f), 'skipped')
    h.check(not run(h, [], [0, 99, d, 104], f), 'skipped')


# --- C19 limits, disabled and unknown opcodes

@unit('C19', cases=[dict(d=d, f=f) for d in (0, 3) for f in (0, NOPS | MINIMALDATA)], cost=3)
def any_opcode(h, d, f):
    """One opcode of every number that is not a push, on 0 and 3 elements: bad, reserved and disabled ones always fail (signature opcodes have their own check)."""
    op = h.choose('op', [0] + list(range(79, 256)))
    if op in (172, 173):
        h.stop()
    agrees(h, elements(h, d, (1,)) if not f else elements(h, d, (2,)), [op] if op not in (99, 100) else [op, 104], f)


@unit('C19', cases=[dict(where=w) for w in ('first', 'unexecuted', 'input')])
def disabled(h, where):
    """The 15 disabled opcodes fail a script anywhere: executed, in a branch not taken, and in the input script."""
    op = h.choose('op', DISABLED)
    xs = [h.bytes('a', 1), h.bytes('b', 1)]
    if where == 'first':
        h.check(not run(h, xs, [op, 81]), 'disabled')
    elif where == 'unexecuted':
        h.check(not run(h, xs, [0, 99, op, 104, 81]), 'disabled')
    else:
        h.check(not run(h, xs + [op], [81]), 'disabled')


@unit('C19', cases=[dict(n=n, kind=k) for n in (200, 201, 202) for k in ('nop', 'mixed', 'unexecuted', 'input')])
def op_count(h, n, kind):
    """200, 201 and 202 operations: nops, a mix with pushes and reserved numbers that do not count, branches not taken; each script has its own count."""
    x = h.bytes('x', 1)
    h.assume(x[0] != 0 and x[0] != 0x80)
    ok = n <= 201
    if kind == 'nop':
        h.check(run(h, [x], [97] * n) == ok, 'at most 201')
    elif kind == 'mixed':
        k = h.choose('k', [81, 96, 79, 0])
        h.check(run(h, [x], [k] * 50 + [117] * 50 + [97] * (n - 50)) == ok, 'pushes do not count')
    elif kind == 'unexecuted':
        h.check(run(h, [x], [0, 99] + [97] * (n - 2) + [80, 104]) == ok, 'not executed, and counted; a reserved opcode is not')
    else:
        h.check(run(h, [x] + [97] * n, [97] * 201) == ok, 'counts are per script')


@unit('C19', cases=[dict(k=k, n=n) for k in (0, 1, 20) for n in (180, 181, 200, 201)] + [dict(k=k, n=n) for k in (2, 10, 16, 19) for n in (201 - k, 202 - k)],
      more=[dict(k=k, n=n) for k in range(3, 19) for n in (201 - k, 202 - k)])
def multisig_count(h, k, n):
    """Each key of a multisig check counts as an operation: 0, 1, 20 keys after 180..201 operations."""
    x = h.bytes('x', 1)
    h.check(run(h, [x, 0] + [x] * k, [97] * (n - 1) + [k + 80 if 0 < k <= 16 else 0 if k == 0 else bytes([k]), 174]) == (n + k <= 201), 'at most 201')


@unit('C19', cases=[dict(k=k, r=r) for k, r in ((1, 100), (1, 101), (2, 67), (2, 68), (10, 18), (10, 19), (19, 10), (19, 11), (20, 9), (20, 10))])
def multisig_repeated(h, k, r):
    """The keys of every multisig check are counted, not only those of the last: up to 101 checks of 1..20 keys."""
    x = h.bytes('x', 1)
    one = [0, 0] + [x] * k + [k + 80 if k <= 16 else bytes([k]), 174]
    h.check(run(h, [], one * r) == (r * (k + 1) <= 201), 'at most 201')


@unit('C19', cases=[dict(n=n, where=w) for n in (519, 520, 521, 600) for w in ('input', 'output', 'unexecuted')])
def element_size(h, n, where):
    """Elements of 519, 520, 521, 600 bytes, any contents."""
    d = h.bytes('d', 3) + b'\x01' * (n - 4) + h.bytes('e', 1)
    h.assume(d[0] != 0)
    ok = n <= 520
    if where == 'input':
        h.check(run(h, [d], [97]) == ok, 'at most 520')
    elif where == 'output':
        h.check(run(h, [], [d]) == ok, 'at most 520')
    else:
        h.check(run(h, [], [81, 0, 99, d, 104]) == ok, 'even when not executed')


@unit('C19', cases=[dict(n=n, where=w) for n in (9999, 10000, 10001) for w in ('input', 'output')])
def script_size(h, n, where):
    """Scripts of 9999, 10000, 10001 bytes."""
    x = h.bytes('x', 1)
    h.assume(x[0] != 0 and x[0] != 0x80)
    items = []
    left = n
    while left > 523:
        items.append(b'\x05' * 500)
        left -= 503
    items += [b'\x05' * 60] * 3
    left -= 183
    items += [x] * (left // 2)
    if left % 2:
        items.append(81)
    h.check(len(script(h, items).to_bytes()) == n, 'size')
    h.check(run(h, items if where == 'input' else [], items if where == 'output' else [97]) == (n <= 10000), 'at most 10000')


@unit('C19', cases=[dict(n=n, where=w) for n in (10000, 10001, 10050) for w in ('input', 'output')])
def script_size_small(h, n, where):
    """Scripts of 10000, 10001 and 10050 bytes made of one-byte instructions in a branch that is not taken: the size alone decides."""
    op = h.choose('op', [81, 0, 79, 96])
    x = h.bytes('x', 1)
    h.assume(x[0] != 0 and x[0] != 0x80)
    items = [x, 0, 99] + [op] * (n - 5) + [104]
    h.check(run(h, items if where == 'input' else [], items if where == 'output' else [97]) == (n <= 10000), 'at most 10000')


@unit('C19', cases=[dict(n=n, kind=k) for n in (999, 1000, 1001) for k in ('output', 'both', 'alt', 'transient')])
def stack_size(h, n, kind):
    """999, 1000, 1001 elements on the stack, on both stacks, and for a moment only."""
    x = h.bytes('x', 1)
    h.assume(x[0] != 0 and x[0] != 0x80)
    ok = n <= 1000
    if kind == 'output':
        h.check(run(h, [], [x] * n) == ok, 'at most 1000')
    elif kind == 'both':
        h.check(run(h, [x] * 500, [x] * (n - 500)) == ok, 'at most 1000')
    elif kind == 'alt':
        h.check(run(h, [], [x, 107] * 10 + [x] * (n - 10)) == ok, 'both stacks together')
    else:
        h.check(run(h, [], [x] * n + [117, 117, 117]) == ok, 'at any point')


# --- C20 totality, isolation

SECOND = (99, 105, 107, 115, 118, 121, 122, 135, 136, 144, 147, 165, 169, 172, 174, 177)


@unit('C20', cases=[dict(d=d) for d in (0, 1, 2, 4)] + [dict(d=2, second=o) for o in SECOND],
      thorough=[dict(d=0, n=2), dict(d=1, n=2)] + [dict(d=4, second=o) for o in SECOND], cost=6, max_paths=200000)
def total(h, d, n=1, second=None):
    """verify: every output script of 1 opcode, or 2 with the second out of 16 (thorough: any 2), any flags, on 0..4 elements of any contents: a boolean, never an exception; scripts untouched."""
    vm = h.mods['bitforge.script.interpreter'].Interpreter()
    sig = script(h, elements(h, d, (1,)))
    ops = [h.int('o%d' % i, 79, 255) for i in range(n)] + ([second] if second else [])
    pub = script(h, ops)
    flags = h.choose('f', [0, P2SH | NULLDUMMY | MINIMALDATA | CLTV, 0x3ff])
    before = sig.instructions, pub.instructions
    v, e = h.attempt(vm.verify, sig, pub, None, 0, flags)
    h.check(e is None, 'never raises')
    h.check(v is True or v is False, 'a boolean')
    h.check((sig.instructions, pub.instructions) == before, 'scripts are untouched')


@unit('C20', cases=[dict(n=n) for n in (1, 2)], thorough=[dict(n=3)], max_paths=200000)
def total_bytes(h, n):
    """verify: scripts parsed from every byte string of 1..2 bytes (thorough: 3), no flags and all flags."""
    S = h.bf.Script
    s, e = h.attempt(S.from_bytes, h.bytes('b', n))
    if e is not None:
        h.stop()
    f = h.choose('f', [0, 0x3ff])
    for a, b in ((S(), s), (s, S.compile([81]))):
        v, e = h.attempt(h.mods['bitforge.script.interpreter'].Interpreter().verify, a, b, None, 0, f)
        h.check(e is None and (v is True or v is False), 'a boolean')


FIRST = ([81, 107, 99], [0] * 3, [81, 106], [97] * 150 + [81], [b'\x01' * 4, 103], [81, 171], [82, 82, 82, 107, 107], [0, 99], [0, 99, 81, 99], [81, 99, 81, 0, 100],
         [0, 0, 99, 103, 106], [81, 81, 99, 0, 99, 106], [81, 107, 126], [0, 99, 126], [81, 81, 171, 172], [81, 139, 140, 143, 144, 145, 146], [81, 81, 135, 0, 0, 135, 82, 83, 136],
         [81, 0, 154, 81, 155, 0, 156, 145, 105], [82, 82, 147, 118, 148, 0, 159, 169, 117, 0], [80], [b'\x00' * 521], [81, 0, 105], [0, 0, 0, 174, 0, 0, 174, 106])


@unit('C20', cases=[dict(k=k) for k in range(len(FIRST))], cost=2)
def reuse(h, k):
    """An interpreter used before gives the same answer as a new one: after scripts that leave stacks, branches, counts and failures behind, in the input or the output script."""
    x = h.bytes('x', 1)
    h.assume(x[0] != 0 and x[0] != 0x80)
    vm = h.mods['bitforge.script.interpreter'].Interpreter()
    w = h.choose('where', [0, 1, 2])
    run(h, FIRST[k] if w else [], FIRST[k] if w < 2 else [81], h.choose('f', [0, 0x3ff]), vm=vm)
    second = h.choose('second', [0, 1, 2, 3, 4, 5, 6, 7])
    if second == 0:
        h.check(run(h, [x], [116, 81, 136], vm=vm), 'starts with its own stack')
        h.check(run(h, [], [116, 0, 135], vm=vm), 'starts with an empty stack')
    elif second == 1:
        h.check(not run(h, [x], [108], vm=vm), 'starts with an empty alternate stack')
    elif second == 2:
        h.check(not run(h, [x], [104], vm=vm), 'starts outside conditionals')
    elif second == 3:
        h.check(run(h, [x], [97] * 201, vm=vm), 'starts counting again')
    elif second == 4:
        h.check(run(h, [x], [176, Push(76, x)], vm=vm), 'flags are those of this call')
    elif second == 5:
        h.check(run(h, [x], [], vm=vm), 'executes the input script')
        h.check(not run(h, [x], [106], vm=vm), 'executes the output script')
    elif second == 6:
        h.check(not run(h, [x], [171, 80], vm=vm) and not run(h, [], [], vm=vm), 'nothing is left on the stack')
    else:
        h.check(run(h, [], [x, x, 135], vm=vm) and not run(h, [], [x, x, 135, 145], vm=vm), 'truth values are still themselves')


@unit('C20', cases=[dict(k=k, f=f) for k in range(len(FIRST)) for f in (0, 0x3ff)])
def isolated(h, k, f):
    """What one interpreter did, another does not see: any operands; the values of true and false, comparisons, constants, arithmetic still are what they were."""
    x, y = h.bytes('x', 1), h.bytes('y', 1)
    run(h, [x, y], FIRST[k], f)
    same = x[0] == y[0]
    h.check(run(h, [x, y], [135]) == same, 'EQUAL')
    h.check(run(h, [x, y], [135, 81 if same else 0, 135]), 'EQUAL')
    h.check(run(h, [x, y], [135, 130, 81 if same else 0, 136]) == same, 'EQUAL')
    h.check(run(h, [], [81, b'\x01', 135]) and run(h, [], [0, b'', 135]) and run(h, [], [79, b'\x81', 135]), 'constants')
    h.check(run(h, [], [0, 145, b'\x01', 135]) and run(h, [], [81, 145, b'', 135]) and run(h, [], [0, 0, 156, b'\x01', 135]), 'arithmetic')
    h.check(not run(h, [], [0, 0, 105]) and not run(h, [], []) and not run(h, [], [0]), 'false')


ALTER = sorted(STACK) + list(UNARY + BINARY + HASHES) + [107, 116, 130, 115, 171]


@unit('C20', cases=[dict(op=o) for o in ALTER], cost=2)
def values_intact(h, op):
    """Truth values are the interpreter's own: any opcode that gets one (or two) as an operand, in the input script or the output script, leaves the truth values of later scripts alone."""
    make = h.choose('make', [[0], [0, 0], [81], [79], [81, 81, 135], [81, 82, 135], [0, 145], [81, 145], [81, 81, 156], [81, 82, 156]])
    second = h.choose('second', [139, 140, 143, 144, 145, 146, 147, 148, 118, 169])
    vm = h.mods['bitforge.script.interpreter'].Interpreter()
    run(h, [82, 82, 82] + make, make + [op, second], vm=vm)
    for again in (vm, None):
        h.check(run(h, [], [81, 81, 135, b'\x01', 135], vm=again), 'true')
        h.check(run(h, [], [81, 82, 135, b'', 135], vm=again), 'false')
        h.check(not run(h, [], [81, 82, 156], vm=again), 'false')
        h.check(not run(h, [], [0], vm=again) and run(h, [], [0, b'', 135], vm=again), 'empty')
        h.check(run(h, [], [81, b'\x01', 135], vm=again) and run(h, [], [79, b'\x81', 135], vm=again) and run(h, [], [96, b'\x10', 135], vm=again), 'constants')


@unit('C20', cases=[dict(n=n) for n in (1, 2)])
def elements_unchanged(h, n):
    """What a script does to an element does not change the script it came from: every stack, hash and arithmetic opcode, any contents."""
    x = h.bytes('x', n)
    y = h.bytes('y', n)
    sig, pub = script(h, [x, y]), script(h, [h.choose('op', OPS16 + list(UNARY + BINARY + HASHES))])
    before = sig.to_bytes()
    vm = h.mods['bitforge.script.interpreter'].Interpreter()
    a = vm.verify(sig, pub)
    b = vm.verify(sig, pub)
    h.check(a == b, 'same answer')
    h.check(sig.to_bytes() == before and sig.instructions[0].data == x and sig.instructions[1].data == y, 'unchanged')


# --- C21 acceptance

@unit('C21', cases=[dict(n=n) for n in range(0, 5)], more=[dict(n=n) for n in (5, 8, 16)])
def truthiness(h, n):
    """A script is accepted exactly when its last element is true: any element of 0..4 bytes (also: 16)."""
    x = h.bytes('x', n)
    want = truth(x)
    known = ('KF-cast-to-bool', shadowed(x))
    h.check(run(h, [x], [97]) == want, 'input script', known=known)
    h.check(run(h, [], [x]) == want, 'output script', known=known)
    h.check(run(h, [81], [x]) == want, 'only the last one counts', known=known)
    h.check(run(h, [0], [x]) == want, 'only the last one counts', known=known)


@unit('C21', cases=[dict(d=d, w=w) for d in (2, 3, 4, 7) for w in range(0, 3)], more=[dict(d=d, w=w) for d in (16, 100) for w in range(0, 3)])
def top_decides(h, d, w):
    """With 2, 3, 4, 7 elements of one byte left (also: 100), any contents, the last one decides alone, however many of them the input script left."""
    xs = elements(h, d, (1,))
    k = d if w == 0 else 0 if w == 1 else d // 2
    h.check(run(h, xs[:k], xs[k:] + [97]) == truth(xs[-1]), 'the last one')


@unit('C21', cases=[dict(n=n) for n in range(0, 4)])
def condition_truth(h, n):
    """IF, NOTIF, VERIFY, IFDUP take an element of 0..3 bytes as true exactly when acceptance does."""
    x = h.bytes('x', n)
    want = truth(x)
    known = ('KF-cast-to-bool', shadowed(x))
    h.check(run(h, [x], [99, 81, 103, 0, 104]) == want, 'IF', known=known)
    h.check(run(h, [x], [100, 0, 103, 81, 104]) == want, 'NOTIF', known=known)
    h.check(run(h, [81, x], [105]) == want, 'VERIFY', known=known)
    h.check(run(h, [x], [115, 116, 82, 135]) == want, 'IFDUP', known=known)


@unit('C21')
def nothing_left(h):
    """No element left, or a failing input script: never accepted."""
    x = h.bytes('x', 1)
    h.check(not run(h, [], []), 'empty scripts')
    h.check(not run(h, [], [97]), 'empty stack')
    h.check(not run(h, [x], [117]), 'empty stack')
    op = h.choose('op', [80, 106, 126, 108, 104, 105, 136])
    h.check(not run(h, [0, 81] if op == 136 else [0] if op == 105 else [op], [81]), 'a failing input script') if op not in (136, 105) else \
        h.check(not run(h, [0, 81, op] if op == 136 else [0, op], [81]), 'a failing input script')
    h.check(not run(h, [81, x], [b'\x01', b'\x02', 136]), 'a failing output script')


# --- C22 pay to script hash

def h160(h, b):
    return h.hash('ripemd160', h.hash('sha256', b))


@unit('C22', cases=[dict(n=n) for n in (0, 1, 2)], cost=2)
def p2sh_run(h, n):
    """Redeem scripts of every 0..2 opcodes, on one more element, any: accepted with the P2SH flag exactly when the script itself accepts; without, when the hash matches."""
    ops = [h.choose('o%d' % i, [0, 79, 81, 97, 105, 106, 107, 117, 118, 135, 139, 145, 176, 126, 99, 104, 186]) for i in range(n)]
    r = b''.join([item(h, o).to_bytes() for o in ops])
    x = h.bytes('x', 1)
    pub = [169, h160(h, r), 135]
    ref = Ref(h)
    ok = ref.run([x]) and ref.run(ops) and len(ref.stack) > 0 and ref.bool(ref.stack[-1])
    h.check(run(h, [x, r], pub, P2SH) == ok, 'the redeem script decides')
    h.check(run(h, [x, r], pub, 0), 'without the flag, the hash decides')
    h.check(not run(h, [x, r, 97], pub, P2SH), 'input scripts must only push')
    h.check(run(h, [x, r, 97], pub, 0), 'without the flag, they can do anything')
    h.check(not run(h, [x, 97, r], pub, P2SH), 'input scripts must only push')


@unit('C22', cases=[dict(n=n) for n in (0, 1, 2, 3)])
def p2sh_bytes(h, n):
    """Redeem scripts of every 0..3 bytes: those that are not a script are refused; any other hash is refused."""
    r = h.bytes('r', n)
    d = h.bytes('d', 20)
    s, e = h.attempt(h.bf.Script.from_bytes, r)
    if e is not None:
        h.check(not run(h, [81, r], [169, h160(h, r), 135], P2SH), 'not a script')
        h.reach('bad')
        return
    h.assume(d != h160(h, r))
    for f in (0, P2SH):
        h.check(not run(h, [81, r], [169, d, 135], f), 'another hash')


@unit('C22')
def p2sh_only(h):
    """Only HASH160 <20 bytes> EQUAL is pay-to-script: other scripts that check a hash are not followed by the redeem script."""
    x = h.bytes('x', 1)
    r = b'\x00'
    hs = h160(h, r)
    h.check(run(h, [x, r], [169, hs, 136, 81], P2SH), 'not the template')
    h.check(run(h, [x, r], [169, hs, 135, 97], P2SH), 'not the template')
    h.check(run(h, [x, r], [97, 169, hs, 135], P2SH), 'not the template')
    h.check(not run(h, [x, r], [169, hs, 135], P2SH), 'the template: the redeem script pushes false')
    h.check(not run(h, [], [169, hs, 135], P2SH), 'nothing pushed')
    h.check(not run(h, [b'\x51'], [169, h160(h, b'\x51'), 135], 0) == False, 'template')


@unit('C22')
def p2sh_fresh(h):
    """The redeem script starts with the input's other elements, with no alternate stack, branches or counts: any elements."""
    x, y = h.bytes('x', 1), h.bytes('y', 2)
    r = b''.join([item(h, o).to_bytes() for o in (116, 82, 136, y, 136, x, 135)])
    h.check(run(h, [x, y, r], [169, h160(h, r), 135], P2SH), 'the elements, in order')
    r = bytes([97] * 201 + [81])
    h.check(run(h, [r], [169, h160(h, r), 135], P2SH), 'its own count')
    r = bytes([97] * 202 + [81])
    h.check(not run(h, [r], [169, h160(h, r), 135], P2SH), 'the limit still applies')
    f = h.choose('f', [MINIMALDATA, NOPS])
    r = bytes([76, 1, 5]) if f == MINIMALDATA else bytes([176, 81])
    h.check(not run(h, [r], [169, h160(h, r), 135], P2SH | f), 'flags apply to it')
    h.check(run(h, [r], [169, h160(h, r), 135], P2SH), 'only if set')


# --- C23 lock times

def spending(h, lock, seqs):
    T, I, S = h.bf.Transaction, h.bf.Input, h.bf.Script
    return T([I('ab' * 32, i, S(), q) for i, q in enumerate(seqs)], [h.bf.Output(1, S())], lock_time=lock)


@unit('C23', cases=[dict(n=n, f=f) for n in (0, 1, 4, 5, 6) for f in (CLTV, 0, NOPS, CLTV | NOPS, CLTV | MINIMALDATA)],
      more=[dict(n=n, f=f) for n in (2, 3) for f in (CLTV, CLTV | MINIMALDATA)])
def lock_time(h, n, f):
    """CHECKLOCKTIMEVERIFY: any operand of 0, 1, 4, 5, 6 bytes, any lock time and sequence number of 32 bits, with and without its flag."""
    x = h.bytes('x', n)
    if f & MINIMALDATA and n == 1:
        h.assume(x[0] > 16 and x[0] != 0x81)
    lock = h.int('lock', 0, 2 ** 32 - 1)
    seq = h.int('seq', 0, 2 ** 32 - 1)
    agrees(h, [x], [177], f, lock, seq, spending(h, lock, [seq]), 0)


@unit('C23')
def lock_time_input(h):
    """CHECKLOCKTIMEVERIFY: the sequence number is that of the input being spent; every index of 3."""
    seqs = [h.int('s%d' % i, 0, 2 ** 32 - 1) for i in range(3)]
    nin = h.choose('nin', [0, 1, 2])
    lock = h.int('lock', 0, 2 ** 32 - 1)
    x = h.bytes('x', 4)
    agrees(h, [x], [177], CLTV, lock, seqs[nin], spending(h, lock, seqs), nin)


@unit('C23')
def lock_time_stack(h):
    """CHECKLOCKTIMEVERIFY: leaves the operand where it is; an empty stack fails; not enabled, it does nothing."""
    h.check(not run(h, [], [177, 81], CLTV, spending(h, 5, [0])), 'no operand')
    h.check(run(h, [], [177, 81], 0, spending(h, 5, [0])), 'does nothing')
    h.check(run(h, [], [81, 0, 99, 177, 104], CLTV | NOPS, spending(h, 5, [0])), 'not executed')


# --- C24 signature checks

@unit('C24', cases=[dict(n=n, m=m, f=f) for n, m in ((0, 0), (0, 33), (9, 33), (71, 33), (72, 65)) for f in (0, 0x1f)])
def checksig(h, n, m, f):
    """CHECKSIG and CHECKSIGVERIFY: any signature and key of the tested sizes, with no transaction: never accepted."""
    s, k = h.bytes('s', n), h.bytes('k', m)
    h.check(not run(h, [s, k], [172], f), 'never true')
    h.check(not run(h, [s, k], [173, 81], f), 'never passes')
    h.check(not run(h, [s], [k, 172], f), 'never true')


@unit('C24', cases=[dict(d=d) for d in (0, 1)])
def checksig_missing(h, d):
    """CHECKSIG(VERIFY) with missing operands fails."""
    xs = elements(h, d)
    h.check(not run(h, xs, [172]) and not run(h, xs, [173, 81]), 'missing operands')


@unit('C24', cases=[dict(kind=k) for k in ('wrong key', 'wrong hash', 'wrong transaction')])
def p2pkh_wrong(h, kind):
    """Pay-to-pubkey outputs: a signature by another key, a key with another hash, a signature of another transaction: any secrets: never accepted."""
    a, b = h.bf.PrivateKey(h.int('a', 1, 2 ** 128)), h.bf.PrivateKey(h.int('b', 1, 2 ** 128))
    d = h.bytes('d', 32)
    key = a.to_public_key().to_bytes()
    sig = (b if kind == 'wrong key' else a).sign(d) + b'\x01'
    hs = h160(h, key)
    if kind == 'wrong hash':
        w = h.bytes('w', 20)
        h.assume(w != hs)
        hs = w
    h.check(not run(h, [sig, key], [118, 169, hs, 136, 172], P2SH), 'refused')


@unit('C24', cases=[dict(n=n, m=m) for n in (1, 2, 3) for m in (1, 2, 3) if m <= n])
def multisig(h, n, m):
    """CHECKMULTISIG(VERIFY): m signatures of n keys, any bytes: never accepted."""
    ss, ks = [h.bytes('s%d' % i, 9) for i in range(m)], [h.bytes('k%d' % i, 33) for i in range(n)]
    h.check(not run(h, [0] + ss, [80 + m] + ks + [80 + n, 174]), 'never true')
    h.check(not run(h, [0] + ss, [80 + m] + ks + [80 + n, 175, 81]), 'never passes')


@unit('C24', cases=[dict(n=n, d=d, f=f) for n in range(0, 4) for d in (0, 1) for f in (0, NULLDUMMY)], more=[dict(n=n, d=d, f=0) for d in (0, 1) for n in (8, 15, 16, 17, 19, 20, 21, 22)])
def multisig_none(h, n, d, f):
    """CHECKMULTISIG(VERIFY) that asks for no signature: consumes the counts, the keys and one more element, which must be empty if asked: 0..3, 8, 15..17, 19..22 keys, any bytes."""
    ks = [h.bytes('k%d' % i, 1) for i in range(n)]
    op = h.choose('op', [174, 175])
    agrees(h, [b'\x07', h.bytes('dummy', d), 0] + ks, [80 + n if 0 < n < 17 else 0 if n == 0 else bytes([n]), op], f)


@unit('C24', cases=[dict(n=n, m=m, d=d) for n in (0, 1, 2) for m in (0, 1) for d in range(0, 4)], cost=2)
def multisig_counts(h, n, m, d):
    """CHECKMULTISIG: any number of keys and of signatures, in up to 2 bytes, on stacks of 2..6 elements: impossible counts fail."""
    xs = elements(h, d + d // 2, (1,))
    agrees(h, xs[:d] + [h.bytes('m', m)] + xs[d:] + [h.bytes('n', n)], [174])


# --- C25 encoding flags

@unit('C25', cases=[dict(p=p, n=n) for p, n in ((1, 1), (2, 2), (75, 75), (76, 0), (76, 1), (76, 75), (76, 76), (76, 255), (77, 0), (77, 1), (77, 255), (77, 256),
                                              (78, 0), (78, 1), (78, 256))])
def minimal_pushes(h, p, n):
    """Pushes of every kind and size boundary, any data: with the flag only the shortest form, without it any."""
    d = h.bytes('d', n)
    agrees(h, [Push(p, d)], [97], MINIMALDATA)
    agrees(h, [Push(p, d)], [97], 0)
    agrees(h, [], [Push(p, d)], MINIMALDATA)


@unit('C25', cases=[dict(n=n) for n in (1, 2)])
def push_only(h, n):
    """Push-only input scripts: every 1..2 opcodes that are no data pushes, and data pushes: with the flag, refused exactly when some opcode is above 16."""
    ops = [h.int('o', 79, 255)] + [h.choose('o%d' % i, [81, 96, 97, 117]) for i in range(1, n)]
    d = h.bytes('d', 2)
    want = all(o <= 96 for o in ops)
    f = h.choose('f', [0, P2SH | MINIMALDATA])
    v = run(h, ops + [d], [117, 81], SIGPUSHONLY | f)
    w = run(h, ops + [d], [117, 81], f)
    h.check(v == (w and want), 'only pushes')
    h.check(run(h, [81], ops, SIGPUSHONLY | f) == run(h, [81], ops, f), 'output scripts are not limited')


@unit('C25')
def upgradable(h):
    """NOP1..NOP10: with the flag, executing one fails; without, it does nothing; not executed, it never matters."""
    op = h.choose('op', UPGRADABLE + (177,))
    x = h.bytes('x', 2)
    f = h.choose('f', [0, NOPS, MINIMALDATA, NOPS | P2SH])
    agrees(h, [x], [op], f)
    agrees(h, [x], [0, 99, op, 104], f)
    agrees(h, [x], [97], f)


# --- C26 hashes and equality

@unit('C26', cases=[dict(op=o, n=n) for o in HASHES for n in (0, 1, 20, 33)], more=[dict(op=o, n=n) for o in HASHES for n in (64, 65, 520)])
def hashes(h, op, n):
    """RIPEMD160, SHA1, SHA256, HASH160, HASH256 of any element of 0, 1, 20, 33 bytes."""
    agrees(h, [b'\x05', h.bytes('x', n)], [op])
    agrees(h, [], [op])


@unit('C26', cases=[dict(n=n, m=m) for n in range(0, 4) for m in range(0, 4)], more=[dict(n=n, m=m) for n, m in ((20, 20), (33, 33), (20, 21), (75, 75))])
def equality(h, n, m):
    """EQUAL and EQUALVERIFY: any two elements of 0..3 bytes (also: 75): equal exactly when every byte is."""
    x, y = h.bytes('x', n), h.bytes('y', m)
    same = n == m and all([a == b for a, b in zip(x, y)])
    h.check(run(h, [x, y], [135]) == same, 'EQUAL')
    h.check(run(h, [x, y], [136, 81]) == same, 'EQUALVERIFY')
    agrees(h, [b'\x05', x, y], [135])
    agrees(h, [b'\x05', x, y], [136])
    agrees(h, [x], [h.choose('op', [135, 136])])


@unit('C26', cases=[dict(op=o) for o in HASHES])
def hash_chain(h, op):
    """Hash opcodes one after another, any element of 2 bytes and any second opcode."""
    agrees(h, [h.bytes('x', 2)], [op, h.choose('op', HASHES)])

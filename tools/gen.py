"""Seeded program generators, one per property (code -> specification direction).

A generator makes one script: a list of items for the harness.  The expected
behaviour is never computed here: the recorded execution is judged by TLC
against the specification."""
import random

M64 = 1 << 64


def L(s):
    return dict(op='line', t=list(s.encode('utf-8')))


def I(op):
    return dict(op=op)


def sgn(x):
    x %= M64
    return x - M64 if x >= M64 >> 1 else x


EDGE = [0, 1, -1, 2, -2, 3, 7, 8, 9, 10, 63, 64, 65, 127, 128, 255, 256, 1 << 31, (1 << 31) - 1, -(1 << 31),
        1 << 32, (1 << 32) - 1, (1 << 62), (1 << 63) - 1, -(1 << 63), (1 << 63) - 2, -(1 << 63) + 1,
        0x5555555555555555, -0x5555555555555556, 0x0102030405060708, -10, -7, -8, -64, 1000, -1000]


def value(r):
    k = r.randrange(10)
    if k < 4:
        return r.choice(EDGE)
    if k < 6:
        return r.randrange(-20, 21)
    if k < 7:
        return sgn((1 << r.randrange(64)) + r.choice([-1, 0, 1]))
    if k < 8:
        return sgn(-(1 << r.randrange(64)) + r.choice([-1, 0, 1]))
    return sgn(r.getrandbits(64))


def lit(r, v=None):
    v = value(r) if v is None else v
    k = r.randrange(8)
    if k == 0:
        return '$%x' % (v % M64)
    if k == 1:
        return '$%X' % (v % M64)
    if k == 2 and abs(v) < 1 << 20:
        return '%%%s' % format(v % M64, 'b')
    if k == 3:
        return '#%d' % v
    return str(v)


class Script(object):
    def __init__(self, handler='bye', mode='mock', files=False):
        self.s = dict(mode=mode, handler=handler, files=files, items=[])

    def line(self, *a):
        self.s['items'].append(L(' '.join(a)))

    def op(self, op):
        self.s['items'].append(I(op))

    def put(self, name, data):
        self.s['items'].append(dict(op='put', n=list(name.encode()), b=list(data)))

    def rm(self, name):
        self.s['items'].append(dict(op='rm', n=list(name.encode())))


# ------------------------------------------------------------------ C01
# word: (needs, leaves, library word?)
SHUF = {'dup': (1, 2), 'drop': (1, 0), 'swap': (2, 2), 'over': (2, 3), 'nip': (2, 1), 'rot': (3, 3), '-rot': (3, 3),
        '2dup': (2, 4), '2drop': (2, 0), '2swap': (4, 4), '2over': (4, 6), 'depth': (0, 1)}
SHUFL = {'tuck': (2, 3), '?dup': (1, 2)}
FSH = {'fdup': (1, 2), 'fdrop': (1, 0), 'fswap': (2, 2), 'fnip': (2, 1), 'fover': (2, 3), 'frot': (3, 3)}


def pad_to(r, d):
    """literals making the data stack d deep, all different"""
    return [str(r.choice([1000 + i, -1000 - i, sgn(r.getrandbits(64))])) for i in range(d)]


def shuffle_ops(r, n, d, f, rdep, compiled, base_r=0):
    """n random shuffling operations at data depth d, float depth f, return depth rdep"""
    out = []
    for _ in range(n):
        c = []
        for w, (a, b) in SHUF.items():
            if a <= d and d - a + b <= 64 and not (w == 'depth' and d > 60):
                c += [w] * 3
        if d <= 50 and f <= 54:
            for w, (a, b) in SHUFL.items():
                if a <= d and rdep <= 50:
                    c += [w] * 2
        for w, (a, b) in FSH.items():
            if a <= f and f - a + b <= 64:
                c += [w] * 2
        if 1 <= d < 64:
            c += ['pick'] * 3
        if f >= 1 and d < 64 and f < 64:
            c += ['fpick'] * 2
        if compiled:
            if d >= 1 and rdep < 63:
                c += ['>r'] * 3
            if d >= 2 and rdep < 62:
                c += ['2>r'] * 2
            if rdep > base_r and d < 64:
                c += ['r>'] * 2 + ['r@'] * 2
            if rdep > base_r + 1 and d < 63:
                c += ['2r>', '2r>', '2r@']
        if d < 60:
            c += ['lit']
        if f < 60:
            c += ['flit']
        w = r.choice(c) if c else 'noop'
        if w == 'lit':
            out.append(lit(r)); d += 1
        elif w == 'flit':
            out.append('%d.%de%d' % (r.randrange(0, 100), r.choice([0, 5, 25]), r.randrange(0, 5))); f += 1
        elif w == 'pick':
            out.append('%d pick' % r.randrange(0, d)); d += 1
        elif w == 'fpick':
            out.append('%d fpick' % r.randrange(0, f)); f += 1
        elif w in FSH:
            out.append(w); f += FSH[w][1] - FSH[w][0]
        elif w == '>r':
            out.append(w); d -= 1; rdep += 1
        elif w == '2>r':
            out.append(w); d -= 2; rdep += 2
        elif w == 'r>':
            out.append(w); d += 1; rdep -= 1
        elif w == '2r>':
            out.append(w); d += 2; rdep -= 2
        elif w == 'r@':
            out.append(w); d += 1
        elif w == '2r@':
            out.append(w); d += 2
        elif w == 'noop':
            out.append(w)
        elif w == '?dup':
            # keep the depth known: never zero
            out.append('1 or ?dup')
            d += 1
        else:
            a, b = SHUF.get(w) or SHUFL[w]
            out.append(w); d += b - a
        if r.random() < 0.12:
            out.append('~~' if compiled else '~')
    return out, d, f, rdep


def c01(r):
    s = Script()
    d = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 40, 58, 60, 61, 62, 63, 64])
    f = r.choice([0, 0, 1, 2, 3, 4, 10, 60, 62, 64])
    if d:
        s.line(*pad_to(r, d))
    if f:
        s.line(*['%d.5e' % (100 + i) for i in range(f)])
    for k in range(r.randrange(3, 7)):
        if r.random() < 0.5:
            ops, d, f, _ = shuffle_ops(r, r.randrange(4, 14), d, f, 0, False)
            s.line(*ops)
        else:
            pre = []
            k0 = r.choice([0, 0, 0, 0, 3, 12, 28, 30, 31, 32, 33, 46, 58, 60, 61])
            if k0 and d < 62:
                for j in range(k0):
                    if k0 - j > 1 and r.random() < 0.1:
                        continue
                    pre += [str(9000 + j), '>r']
            k0 = len(pre) // 2
            ops, d2, f2, rd = shuffle_ops(r, r.randrange(4, 16), d, f, 1 + k0, True, 1)
            ops = pre + ops
            while rd > 1 and d2 < 63:
                if rd > 2 and d2 < 62 and r.random() < 0.5:
                    ops.append('2r>'); rd -= 2; d2 += 2
                else:
                    ops.append('r>'); rd -= 1; d2 += 1
            while rd > 1:
                ops += ['drop', 'r>']; rd -= 1
            name = 'w%d' % k
            s.line(':', name, *(ops + [';']))
            s.line(name)
            d, f = d2, f2
        if d > 60 and r.random() < 0.4:
            s.line(*(['2drop'] * 10)); d -= 20
    return s.s


# ------------------------------------------------------------------ C02
UN = ['0<', '0=', '0>', '0<>', 'not', 'invert', '1+', '1-', 'abs', 'negate', '2*', '2/', 'cell+', 'cells', 'char+',
      'chars', 'aligned', '>char', 'floats', 'float+', 'faligned']
BI = ['=', '<', '>', '<>', 'and', 'or', 'xor', '+', '-', '*', '/', 'mod', '/mod', '<=', '>=', 'max', 'min', 'bounds']
NIL = ['true', 'false', 'max-n', 'max-u', 'bl']


def arith(r):
    """one arithmetic phrase, and whether it can fail"""
    k = r.randrange(12)
    if k < 3:
        return '%s %s' % (lit(r), r.choice(UN)), False
    if k < 8:
        w = r.choice(BI)
        a, b = value(r), value(r)
        q = r.randrange(6)
        if q == 0:
            b = a
        elif q == 1:
            b = sgn(a + r.choice([-1, 1]))
        elif q == 2:
            b = sgn(-a)
        if w in ('/', 'mod', '/mod') and b == 0 and r.random() < 0.8:
            b = r.choice([1, -1, 3, -3])
        return '%s %s %s' % (lit(r, a), lit(r, b), w), (w in ('/', 'mod', '/mod') and b == 0)
    if k < 10:
        n = r.choice(list(range(64)) + [0, 1, 62, 63, 64, 65, 127, 128, -1, -64, 1 << 32, 1 << 40])
        return '%s %s %s' % (lit(r), lit(r, n), r.choice(['lshift', 'rshift'])), False
    if k < 11:
        a = value(r)
        lo = r.choice([a, sgn(a - 1), sgn(a + 1), value(r)])
        hi = r.choice([a, sgn(a - 1), sgn(a + 1), value(r)])
        return '%s %s %s within' % (lit(r, a), lit(r, lo), lit(r, hi)), False
    if r.random() < 0.3:
        return '%s %s %s /string' % (lit(r), lit(r), lit(r)), False
    return r.choice(NIL), False


def c02(r):
    s = Script()
    for k in range(r.randrange(5, 9)):
        ph = [arith(r) for _ in range(r.randrange(2, 7))]
        txt = ' '.join(p for p, _ in ph)
        fail = any(x for _, x in ph)
        if r.random() < 0.45:
            s.line(': x%d %s ;' % (k, txt))
            s.line('x%d' % k)
        else:
            s.line(txt)
        if fail:
            s.op('reset')
        elif r.random() < 0.7:
            s.op('clear')
        if r.random() < 0.3:
            a, b = value(r), value(r)
            s.line(lit(r, a), lit(r, b), ': y%d %s ;' % (k, ' '.join(
                r.choice(['2dup ' + w + ' -rot' for w in BI if w not in ('/', 'mod', '/mod', 'bounds')])
                for _ in range(4))), 'y%d' % k)
            s.op('clear')
    return s.s


# ------------------------------------------------------------------ C03
def c03(r):
    s = Script(handler=r.choice(['bye', 'bye', 'noop']))
    PUSH = ['1', '-1', 'dup', 'over', '2dup', 'depth', 'true', 'here', '2over']
    POP = ['drop', '2drop', 'nip', '+', '-', 'swap', 'rot', '=', 'and', '1+', 'negate', 'invert']
    for k in range(r.randrange(4, 8)):
        q = r.randrange(10)
        if q < 4:
            # data stack near one of the limits, interpreted or compiled
            d = r.choice([0, 0, 0, 1, 2, 3, 60, 61, 62, 63, 63, 64, 64])
            s.line(*[str(i) for i in range(d)])
            near = 0 if d < 10 else 1
            ops = []
            for _ in range(r.randrange(1, 6)):
                w = r.choice((PUSH if (near == 1) != (r.random() < 0.35) else POP))
                ops.append(w)
            if r.random() < 0.5:
                s.line(': t%d %s ;' % (k, ' '.join(ops)))
                s.line('t%d ~' % k)
            else:
                s.line(' '.join(ops))
        elif q < 5:
            f = r.choice([0, 0, 1, 2, 62, 63, 64])
            s.line(*['%de' % i for i in range(f)])
            ops = [r.choice(['1e', 'fdup', 'fover', 'fdrop', 'f+', 'fnip', 'fswap', 'frot', 'fnegate', 'f*'])
                   for _ in range(r.randrange(1, 6))]
            if r.random() < 0.5:
                s.line(': t%d %s ;' % (k, ' '.join(ops)), 't%d' % k)
            else:
                s.line(' '.join(ops))
        elif q < 7:
            # return stack: transient overflow and underflow inside definitions
            n = r.choice([60, 61, 62, 63, 64, 65, 66, 70])
            m = r.choice(['>r', 'r', '2>r', 'nest'])
            if m == '>r':
                s.line(': t%d %d begin dup while dup >r 1- repeat drop %d begin dup while r> drop 1- repeat drop ;' % (k, n, n))
            elif m == '2>r':
                s.line(': t%d %d begin dup while dup dup 2>r 1- repeat drop %d begin dup while 2r> 2drop 1- repeat drop ;'
                       % (k, n // 2, n // 2))
            elif m == 'nest':
                s.line(': t%d dup if 1- recurse then ; ' % k)
                s.line(str(n))
            else:
                s.line(': t%d %s ;' % (k, r.choice(['r> drop', 'r> r> 2drop', 'r> r@ drop drop', '2r> 2drop', 'unloop',
                                                     'r> drop 1 >r', '2r@ 2drop', 'exit r>'])))
            s.line('t%d' % k)
        elif q < 8:
            n = r.choice([62, 63, 64, 65, 66])
            s.line(': t%d %s' % (k, ' '.join(['begin'] * n)))
            if r.random() < 0.5:
                s.line('[', ']')
            s.line(' '.join(['again'] * r.choice([n, n - 1, n + 1])), ';')
        else:
            # combinations: which exception comes first
            a = r.choice(['', 'drop', ' '.join(['1'] * 65)])
            b = r.choice(['', 'fdrop', ' '.join(['1e'] * 65)])
            c = r.choice(['', 'r> drop r> drop', '70 begin dup >r 1- dup 0= until drop 70 begin r> drop 1- dup 0= until drop'])
            parts = [x for x in (a, b, c) if x]
            r.shuffle(parts)
            s.line(': t%d %s ;' % (k, ' '.join(parts)))
            s.line('t%d' % k)
        s.op('reset')
        s.op('clear')
        if r.random() < 0.4:
            s.line('1 2 + ~ drop')
    return s.s


# ------------------------------------------------------------------ C04
class Prog(object):
    """random structured definitions; marks are printed digits/letters"""
    def __init__(self, r, depth):
        self.r, self.depth, self.n = r, depth, 0

    def mark(self):
        self.n += 1
        return '%d emit' % (97 + self.n % 26)

    def flag(self):
        return self.r.choice(['0', '1', '-1', 'dup 1 and', 'dup 3 <', 'dup 0=', 'true', 'false', '4 0=', 'depth 2 and', '8'])

    def seq(self, d, loop):
        return ' '.join(self.stmt(d, loop) for _ in range(self.r.randrange(0, 4)))

    def stmt(self, d, loop):
        r = self.r
        if d == 0 or r.random() < 0.25:
            return r.choice([self.mark(), self.mark(), '1+', '1-', self.mark(), 'noop', '~~', '2/'])
        k = r.randrange(9)
        if k == 0:
            return '%s if %s then' % (self.flag(), self.seq(d - 1, loop))
        if k == 1:
            return '%s if %s else %s then' % (self.flag(), self.seq(d - 1, loop), self.seq(d - 1, loop))
        n = r.randrange(0, 4)
        # loops count on their own cell, hidden on the return stack during the body
        if k == 2:
            return '%d >r begin %s %s r> 1- dup >r 0= until r> drop' % (n + 1, self.mark(), self.seq(d - 1, True))
        if k == 3:
            return '%d >r begin %s r@ while %s r> 1- >r repeat r> drop' % (n, self.seq(d - 1, True), self.seq(d - 1, True))
        if k == 4:
            return '%d >r begin %s r> 1- dup >r 0> while %s repeat %s r> drop' % (
                n, self.mark(), self.seq(d - 1, True), self.mark())
        if k in (5, 6):
            sel = r.choice(['dup 3 and', 'dup', '%d' % r.randrange(4), 'depth'])
            arms = ''
            for a in range(r.randrange(0, 4)):
                arms += ' %s of %s %s endof' % (r.choice(['%d' % r.randrange(4), 'dup', '2 dup', '3']).replace('2 dup', '2'),
                                               self.mark(), self.seq(d - 1, loop))
                if r.random() < 0.2:
                    arms += ' ' + self.mark()
            return '%s case%s %s endcase' % (sel, arms, r.choice(['', self.mark(), '1+', 'dup emit']))
        if k == 7 and not loop:
            return '%s if %s exit then' % (self.flag(), self.mark())
        return '%s if %s begin %s 1 until else %s then' % (self.flag(), self.mark(), self.seq(d - 1, loop), self.mark())


def c04(r):
    s = Script()
    for k in range(r.randrange(2, 5)):
        p = Prog(r, 3)
        name = 'p%d' % k
        if r.random() < 0.25:
            body = 'dup 0> if %s 1- %s else %s then' % (
                p.mark(), r.choice(['recurse', 'dup recurse drop', 'recurse ' + p.mark()]), p.mark())
            s.line(': %s %s ;' % (name, body))
        else:
            body = p.seq(3, False) + ' ' + p.stmt(3, False) + ' ' + p.seq(2, False)
            toks = (': %s %s ~~ ;' % (name, body)).split()
            while toks:      # several input lines
                n = r.randrange(6, 30)
                s.line(*toks[:n])
                toks = toks[n:]
        for v in r.sample([0, 1, 2, 3, 4, 5, -1, 7], 2):
            s.line('%d %s' % (v, name))
            s.line('.s')
            if r.random() < 0.6:
                s.op('clear')
        if r.random() < 0.3 and k:
            s.line(': q%d %s %s ;' % (k, 'p%d' % (k - 1), name), '2 q%d' % k)
    if r.random() < 0.5:
        # a flag is true unless all of its bits are zero; a selector is a whole cell
        a, b, c = (wide(r) for _ in range(3))
        s.line(': fl if 65 else 66 then emit ; : fu begin 67 emit until 68 emit ; : fw begin dup while 69 emit 2* repeat drop ;')
        s.line(': sel case %d of 70 emit endof %d of 71 emit endof dup emit endcase ;' % (a, b))
        for v in r.sample([a, b, c, 0, -1, wide(r), a ^ 1 << 32 if a >= 0 else a], 4):
            v = sgn(v)
            s.line('%d fl %d sel' % (v, v), '1 %d fu' % v, '%d fw' % (v if v & ((1 << 64) - 1) & ((1 << 40) - 1) == 0 else 1 << 60))
            s.op('clear')
    return s.s


def wide(r):
    """a number with few bits set, anywhere in the cell"""
    return sgn(sum(1 << r.randrange(64) for _ in range(r.randrange(1, 3))) + r.choice([0, 0, 0, 1, -1]))


# ------------------------------------------------------------------ C05
def c05(r):
    s = Script()
    E = [0, 1, -1, 2, 5, -5, (1 << 63) - 1, -(1 << 63), (1 << 63) - 2, -(1 << 63) + 1, 1 << 62, -(1 << 62)]
    STEP = [1, -1, 2, -2, 3, -3, 7, 0, 1 << 62, -(1 << 62), (1 << 63) - 1, -(1 << 63), 1 << 63, 100]
    for k in range(r.randrange(3, 6)):
        st = r.choice(E) if r.random() < 0.7 else value(r)
        lim = sgn(st + r.choice([0, 1, -1, 2, 3, 4, 5, -3, -5, 9])) if r.random() < 0.75 else r.choice(E)
        do = r.choice(['do', '?do', '?do'])
        if r.random() < 0.5:
            end, step = 'loop', None
        else:
            step = r.choice(STEP) if r.random() < 0.8 else value(r)
            end = '%d +loop' % sgn(step)
        cap = 'depth %d > if leave then' % r.choice([6, 9, 12])
        body = 'i'
        q = r.randrange(10)
        if q == 0:
            body = 'i i 3 and 2 = if leave then'
        elif q == 1:
            body = 'i dup 1 and if drop i negate then'
        elif q == 2:
            body = 'i i 1 and if i else leave then'
        elif q == 3:
            body = 'i %d = if unloop exit then i' % sgn(st + 2)
        elif q == 4:
            body = 'i 1 >r r> drop'
        pre = '%d %d' % (lim, st)
        inner = '%s %s %s %s' % (do, body, cap, end)
        kind = r.randrange(6)
        if kind == 0:    # nested, j
            a = r.randrange(1, 4)
            do2 = r.choice(['do', '?do'])
            txt = '%d 0 %s %d %d ?do i j depth 12 > if leave then %s loop %s' % (a, do2, r.randrange(0, 4), r.randrange(0, 3),
                                                       r.choice(['', 'i 1 = if leave then', 'j 1 = if leave then', '+']),
                                                       r.choice(['loop', '1 +loop', '2 +loop']))
        elif kind == 1:  # nested, inner arbitrary
            txt = '%d 0 do i %s %s loop' % (r.randrange(1, 3), pre, inner.replace('exit', 'unloop exit'))
        elif kind == 2:  # triple nesting
            txt = '2 0 do 3 1 do 2 0 do i j + loop j loop %s loop' % r.choice(['', 'i', 'i 0= if leave then'])
        elif kind == 3:  # leave inside case / begin
            txt = '%s %s begin i dup 1 and if drop leave then 1 until %s %s' % (pre, do, cap, end)
        elif kind == 4:  # called word inside loop body
            s.line(': g%d %d 0 ?do i loop ;' % (k, r.randrange(0, 3)))
            txt = '%s %s g%d i %s %s' % (pre, do, k, cap, end)
        else:
            txt = pre + ' ' + inner
        s.line(': l%d 77 >r %s r> ;' % (k, txt) if r.random() < 0.5 and 'exit' not in txt else ': l%d %s ;' % (k, txt))
        s.line('l%d ~' % k)
        s.op('reset')
        s.op('clear')
    return s.s


# ------------------------------------------------------------------ C06
CT = ['if', 'else', 'then', 'begin', 'while', 'repeat', 'until', 'again', 'do', '?do', 'loop', '+loop', 'case', 'of',
      'endof', 'endcase', 'leave', 'exit', '1', 'drop']


def nest(r, d, indo):
    """a well-formed sequence"""
    out = []
    for _ in range(r.randrange(0, 3)):
        if d == 0:
            out += [r.choice(['1', 'dup', 'drop', 'noop'] + (['leave'] if indo else []))]
            continue
        k = r.randrange(7)
        n = lambda x=indo: nest(r, d - 1, x)
        if k == 0:
            out += ['if'] + n() + ['then']
        elif k == 1:
            out += ['if'] + n() + ['else'] + n() + ['then']
        elif k == 2:
            out += ['begin'] + n() + [r.choice(['until', 'again'])]
        elif k == 3:
            out += ['begin'] + n() + ['while'] + n() + ['repeat']
        elif k == 4:
            out += [r.choice(['do', '?do'])] + n(True) + [r.choice(['loop', '+loop'])]
        elif k == 5:
            out += ['case'] + n()
            for _ in range(r.randrange(0, 3)):
                out += ['of'] + n() + ['endof'] + n()
            out += ['endcase']
        else:
            out += [r.choice(['1', 'dup', 'recurse', 'exit'])]
    return out


def c06(r):
    s = Script()
    s.line(': w 41 ; : v 42 ;')
    for k in range(r.randrange(3, 6)):
        t = nest(r, 3, False)
        m = r.randrange(8)
        if m == 0 and t:
            del t[r.randrange(len(t))]
        elif m == 1:
            t.insert(r.randrange(len(t) + 1), r.choice(CT))
        elif m == 2 and t:
            t[r.randrange(len(t))] = r.choice(CT)
        elif m == 3 and len(t) > 1:
            a, b = r.randrange(len(t)), r.randrange(len(t))
            t[a], t[b] = t[b], t[a]
        elif m == 4:
            t = [r.choice(CT) for _ in range(r.randrange(1, 7))]
        elif m == 5:
            t = t[:r.randrange(len(t) + 1)]
        elif m == 6 and r.random() < 0.5:
            # many open structures, closed or not
            op = r.choice([['if'], ['begin'], ['case'], ['do'], ['if', 'begin'], ['begin', 'while'], ['do', 'if'], ['case', 'of']])
            cl = {'if': 'then', 'begin': 'until', 'case': 'endcase', 'do': 'loop', 'while': 'repeat', 'of': 'endof'}
            n = r.choice([4, 8, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66])
            ops = (op * n)[:n]
            st = []
            t = []
            for x in ops:
                t.append(x)
                if x == 'while':
                    st.pop()
                st.append(x)
            if r.random() < 0.7:
                while st:
                    x = st.pop()
                    t.append(cl[x])
                k2 = r.choice([0, 0, 0, 1, 2])
                t = t[:len(t) - k2] + r.choice([[], [], ['then'], ['loop']])
        lab = r.random()
        if lab < 0.12:
            n = r.choice([1, 2, 3])
            t = ['[', str(n), ']', 'goto'] + t + r.choice([[], ['[', str(n), ']', 'label']])
        name = r.choice(['w', 'w', 'u', 'nw%d' % k])
        s.line(':', name, *(t + [';']))
        s.op('reset')
        s.op('clear')
        if lab < 0.12:
            s.line('0labels')
        # the name afterwards: tick and (for the old one) behaviour
        s.line("' %s" % name)
        s.op('reset')
        s.op('clear')
        if name == 'w' and (r.random() < 0.3):
            s.line('v .')
        s.line(': good%d 5 if 6 else 7 then 2 0 do i loop ; good%d ~' % (k, k))
        s.op('clear')
    return s.s


# ------------------------------------------------------------------ C07
def names(r):
    base = r.choice(['a', 'xyz', 'foo', 'ab', 'q', 'dup', 'w1', 'zz', '2dup2', 'n_', 'x' * 30])
    grp = [base]
    # full djb2 collisions: (c, d) ~ (c + 1, d - 33)
    pre = r.choice(['', 'k', 'word'])
    c = r.choice('abcdefmnp')
    d = r.choice('abcdefghij')
    grp += [pre + c + d, pre + chr(ord(c) + 1) + chr(ord(d) - 33)]
    grp += [chr(r.randrange(97, 123)) + chr(r.randrange(97, 123)) for _ in range(3)]
    grp += ['t%d' % r.randrange(200) for _ in range(3)]
    grp += [r.choice(['swap', 'star', 'if2', '1+', 'negate', '0x', 'é', 'äÖ'])]
    return [g for g in grp if g not in ('if', 'do', 'of')]


def rcase(r, n):
    return ''.join(ch.upper() if r.random() < 0.5 else ch.lower() for ch in n) if n.isascii() else n


def bucket(n):
    h = 5381
    for c in n.lower().encode():
        h = (h * 33 + c) & 0xffffffff
    return h % 64


def crowd(r, s):
    """many words in few buckets of the dictionary, with names of all lengths"""
    old = r.choice(['dup', 'swap', 'emit', 'if', 'cells', '1+', 'type', 'drop'])
    pre = ''.join(r.choice('abcxyz@é') for _ in range(r.choice([1, 2, 5, 20, 40])))
    ns = [n for n in (pre + '%x' % i for i in range(6000)) if bucket(n) == bucket(old)][:r.choice([12, 25, 45, 70])]
    s.line(': %s 65 emit ; : %s 66 emit ;' % (ns[0], ns[1]))
    for k in range(2, len(ns), 6):
        s.line(' '.join(': %s ;' % n for n in ns[k:k + 6]))
    s.line(ns[0], ns[1].upper() if ns[1].isascii() else ns[1], ns[-1])
    s.line({'if': ': tt if 1 then ; 0 tt'}.get(old, '67 68 %s depth .' % old))
    s.op('reset')
    s.op('clear')
    return ns


def c07(r):
    s = Script()
    N = names(r)
    if r.random() < 0.12:
        N = N + crowd(r, s)[-3:]
    users = []
    imm = set()
    comp = set()
    for k in range(r.randrange(8, 16)):
        n = r.choice(N)
        q = r.randrange(20)
        m = rcase(r, n)
        if q < 5:
            s.line(': %s %d ;' % (m, k))
            users.append(n); imm.discard(n); comp.discard(n)
        elif q < 6:
            s.line('%d constant %s' % (k * 11, m)); users.append(n); imm.discard(n); comp.discard(n)
        elif q < 7:
            s.line('create %s %d ,' % (m, k), m, '@ .'); users.append(n); imm.discard(n); comp.discard(n)
        elif q < 9 and users:
            u = r.choice(users)
            s.line(': use%d %s %s ;' % (k, rcase(r, u), rcase(r, r.choice(users))), 'use%d' % k)
            users.append('use%d' % k)
        elif q < 10 and users:
            s.line(': %s %d' % (m, k), rcase(r, r.choice(users)), m if n in users else '', ';', m)
            users.append(n); imm.discard(n); comp.discard(n)
        elif q < 11:
            s.line(': %s %d ; immediate : i%d %s 7 ; i%d' % (m, k, k, rcase(r, n), k)); users.append(n); imm.add(n)
        elif q < 12:
            s.line(': %s %d ; compile-only' % (m, k)); users.append(n)
            s.line(rcase(r, n))
            s.op('reset')
            s.line(': j%d %s ; j%d' % (k, n, k))
        elif q < 13 and users:
            u = r.choice(users)
            s.line(': po%d postpone %s ; immediate : pp%d po%d ; pp%d' % (k, rcase(r, u), k, k, k))
            s.op('reset')
        elif q < 14 and users:
            s.line("' %s execute" % rcase(r, r.choice(users)))
        elif q < 15 and users:
            s.line(": te%d ['] %s execute ; te%d" % (k, rcase(r, r.choice(users)), k))
        elif q < 16:
            s.line(rcase(r, n))
            s.op('reset')
        elif q < 17:
            s.line(r.choice(['if', 'exit', '>r', 'do', 'postpone', "[']", 'recurse', 'leave', ';', 'literal', '."', 'i',
                             'nosuchword', "' nosuch", ': z%d nosuch ;' % k, ": z%d postpone nosuch ;" % k,
                             ": z%d ['] nosuch ;" % k, "postpone", "'", 'char', 'create', ':', 'constant']))
            s.op('reset')
            s.op('clear')
        elif q < 18:
            s.line(': %s' % m, '1 2 +', '[ %s' % rcase(r, n), '] drop ;')
            s.op('reset')
            s.op('clear')
        elif q < 19 and users:
            s.line("%s' %s compile, 5 ] ; %s" % (': cc%d [ ' % k, rcase(r, r.choice(users)), 'cc%d' % k) if False else
                   ": mk%d ['] %s compile, ; immediate : use%d mk%d ; use%d" % (k, rcase(r, r.choice(users)), k, k, k))
            s.op('reset')
        else:
            s.line(' '.join(rcase(r, x) for x in r.sample(['DUP', 'swap', 'Over', '2DROP', 'DEPTH'], 2)), 'depth .')
            s.op('reset')
            s.op('clear')
        if r.random() < 0.25:
            s.op('clear')
    s.line('words') if r.random() < 0.1 else None
    return s.s


def bucket(n):
    """inputs only: names that meet in the same chain of a 64-way hash table"""
    h = 5381
    for c in n.lower().encode():
        h = (h * 33 + c) & 0xffffffff
    return h % 64


CHAINS = {}
for _a in 'abcdefghijklmnopqrstuvwxyz':
    for _b in 'abcdefghijklmnopqrstuvwxyz0123456789':
        CHAINS.setdefault(bucket(_a + _b), []).append(_a + _b)


# ------------------------------------------------------------------ C08
def c08(r):
    s = Script()
    N = ['a', 'b', 'xa', 'y@', 'dup', 'foo', 'kb', 'lA', 'over']
    marks = []
    bulk = r.random() < 0.4
    probes = []
    for k in range(r.randrange(8, 18)):
        q = r.randrange(12)
        n = r.choice(N)
        if bulk and r.random() < 0.3:
            many = r.sample(CHAINS[r.choice([0, 63, 31, 62])], 7) if r.random() < 0.6 else ['%s%s' % (r.choice('pqrstuvwxyz'), r.choice('ABCDEFGHIJKLMNOP0123456789')) for _ in range(r.randrange(10, 45))]
            s.line(' '.join(': %s %d ;' % (x, 1000 + j) for j, x in enumerate(many)))
            probes += many
            continue
        if bulk and r.random() < 0.2:
            s.line('%d allot here 1 ,' % r.choice([1, 8, 500, 4000, 4096, 5000, 9000]))
            s.op('clear')
            continue
        if q < 4:
            s.line(r.choice([': %s %d ;', '%d constant %s', ': %s dup %d + ;']) % ((n, k) if True else 0)
                   if False else r.choice([': %s %d ;' % (n, 100 + k), '%d constant %s' % (100 + k, n),
                                           'create %s %d , %d ,' % (n, k, k + 1),
                                           'variable %s %d %s !' % (n, k, n),
                                           ': %s create %d , does> @ ; %s inst%d' % (n, k, n, k)]))
        elif q < 6:
            m = 'm%d' % len(marks) if r.random() < 0.8 else r.choice(N)
            s.line('marker %s' % m)
            marks.append(m)
        elif q < 8 and marks:
            s.line(r.choice(marks))
            s.op('reset')
        elif q < 10:
            s.line(rcase(r, n))
            s.op('reset')
            s.line('.s')
            s.op('clear')
        elif q < 11:
            s.line(': use%d %s ;' % (k, n), 'use%d' % k)
            s.op('reset')
            s.op('clear')
        else:
            s.line('here', "' %s" % n, r.choice(['', 'execute']))
            s.op('reset')
            s.op('clear')
    if bulk and marks:
        s.line(r.choice(marks[:3]))
        s.op('reset')
        s.line('here')
    for n in r.sample(N, 4) + r.sample(probes, min(len(probes), 20)):
        s.line(n)
        s.op('reset')
    return s.s


# ------------------------------------------------------------------ C09
def c09(r):
    s = Script()
    inst = []
    definers = []
    if r.random() < 0.25:
        # behaviours given one after the other, in any order
        ps = r.sample(['does> @ 1+', 'does> @ 2 + dup', 'does> dup @ 1+ over !', 'does> 5 swap', 'create 3 , does> @ 4', 'does>'], 3)
        for k, p in enumerate(ps):
            s.line(': gi%d %s ;' % (k, p))
        for k in range(r.randrange(2, 5)):
            js = [r.randrange(3) for _ in range(r.randrange(0, 4))]
            s.line('create yy%d 10 , %s' % (k, ' '.join('gi%d' % j + (' zz%d' % k if ps[j].startswith('create') else '') for j in js)))
            s.op('reset')
            s.op('clear')
            s.line('yy%d yy%d yy%d' % (k, r.randrange(k + 1), k))
            s.op('reset')
            s.op('clear')
    for k in range(r.randrange(10, 20)):
        q = r.randrange(22)
        if q < 2:
            s.line('%s constant c%d' % (lit(r), k)); inst.append(('c', 'c%d' % k))
        elif q < 4:
            s.line('variable v%d' % k); inst.append(('v', 'v%d' % k))
        elif q < 5:
            s.line('%s %s 2constant d%d' % (lit(r), lit(r), k)); inst.append(('cc', 'd%d' % k))
        elif q < 6:
            s.line('2variable e%d' % k); inst.append(('vv', 'e%d' % k))
        elif q < 7:
            s.line('%d.5e fconstant fc%d' % (k, k)); inst.append(('f', 'fc%d' % k))
        elif q < 8:
            s.line('fvariable fv%d' % k); inst.append(('fv', 'fv%d' % k))
        elif q < 9:
            nb = r.randrange(1, 9)
            s.line('create a%d %s' % (k, ' '.join('%d c,' % r.randrange(256) for _ in range(nb))))
            s.line('align') if r.random() < 0.4 else None
            inst.append(('b%d' % nb, 'a%d' % k))
        elif q < 10:
            s.line('0 %d +field g%da %d +field g%db constant g%dn' % (r.randrange(1, 9), k, r.randrange(1, 17), k, k))
            inst.append(('fld', 'g%da' % k)); inst.append(('fld', 'g%db' % k)); inst.append(('c', 'g%dn' % k))
        elif q < 11:
            s.line('defer h%d' % k); inst.append(('def', 'h%d' % k))
        elif q < 13:
            body = r.choice(['create , does> @', 'create , , does> dup @ swap cell+ @', 'create , does> dup @ 1+ dup rot !',
                             'create dup , does> @ swap', 'create c, does> c@', 'create here 3 cells allot swap over ! drop does> swap cells +',
                             'create , does> @ execute', 'create f, does> f@'])
            s.line(': mk%d %s ;' % (k, body))
            definers.append(('mk%d' % k, body))
        elif q < 16 and definers:
            d, body = r.choice(definers)
            n = 'i%d' % k
            if 'execute' in body:
                s.line("' %s %s %s" % (r.choice(['dup', 'depth', 'drop', 'noop', '1+']), d, n))
            elif 'f,' in body:
                s.line('%d.25e %s %s' % (k, d, n))
            else:
                s.line('%s %s %s %s' % (lit(r), lit(r), d, n))
            inst.append(('does', n))
            s.line('5 6 %s' % n)
            s.op('clear')
        elif q < 17:
            s.line('%d allot' % r.randrange(0, 12))
        elif inst:
            t, n = r.choice(inst)
            t2, n2 = r.choice(inst)
            if t == 'v':
                s.line('%s %s ! %s @' % (lit(r), n, n), n, r.choice(['on', 'off', '@ drop', '5 swap +!']), n, '@')
            elif t == 'vv':
                s.line('%s %s %s 2! %s 2@ %s @' % (lit(r), lit(r), n, n, n))
            elif t == 'fv':
                s.line('%d.75e %s f! %s f@ %s' % (r.randrange(99), n, n, n))
            elif t[0] == 'b':
                s.line('%s c@ %s %d + dup c@ swap %d swap c!' % (n, n, r.randrange(int(t[1:])), r.randrange(256)), n, 'c@')
            elif t == 'fld':
                s.line('100', n, 'here', n)
            elif t == 'def':
                s.line("' %s ' %s defer!" % (r.choice(['dup', 'depth', n2 if t2 in ('c', 'cc', 'v') else 'bl', 'true']), n))
                s.line('3', n, "' %s defer@ ' bl =" % n)
            else:
                s.line('7 8', n)
            if r.random() < 0.5:
                s.line(': z%d 7 8 %s ; z%d' % (k, n, k))
            s.line('.s')
            s.op('reset')
            s.op('clear')
    for t, n in r.sample(inst, min(len(inst), 5)):
        s.line('1 2', n)
        s.op('reset')
        s.op('clear')
    return s.s


# ------------------------------------------------------------------ C10
def badaddr(r):
    """address phrases outside or at the edge of the data space; cap is 64 KiB"""
    return r.choice(['0', '1', '-1', '-8', '7', 'max-n', 'max-n 1+', '-16', 'base 16 -', 'base 1000000 +', '100000', 'base 8 -',
                     'base 9 -', 'base 1 -', '-1000000', str(sgn(1 << 63)), str(1 << 32)])


def c10(r):
    s = Script()
    s.line('create buf 64 allot : fresh buf 64 0 fill ; fresh : show buf 24 0 do dup i + c@ swap loop drop ;'
           if False else 'create buf 64 allot  buf 64 0 fill')
    s.line('variable cap  base 8 - cap !')
    for k in range(r.randrange(8, 16)):
        q = r.randrange(24)
        o, o2, n = r.randrange(56), r.randrange(56), r.randrange(0, 20)
        if q < 3:
            s.line('%s buf %d + !' % (lit(r), r.choice([o, 8 * (o // 8)])), 'buf %d + @ buf %d + @' % (o, o2))
        elif q < 5:
            s.line('%s buf %d + c!' % (lit(r), o), 'buf %d + c@ buf %d + @' % (o, 8 * (o // 8)))
        elif q < 8:
            a = r.randrange(0, 40)
            b = r.choice([a, a + 1, a - 1, a + n // 2, a - n // 2, r.randrange(40)])
            b = min(40, max(0, b))
            s.line('buf %d + buf %d + %d move' % (a, b, n), 'buf %d + @ buf %d + @ buf %d + c@' % (a, b, min(63, b + n)))
        elif q < 9:
            s.line('buf %d + %d %d fill' % (o, r.choice([0, 1, 2, 7, 8, -1]) if o < 48 else 1, r.randrange(-3, 300)), 'buf 8 + @ buf %d + @' % o)
        elif q < 10:
            s.line('%d.5e buf %d + f! buf %d + f@' % (k, r.randrange(48), r.randrange(48)))
        elif q < 11:
            s.line('%s %s buf %d + 2! buf %d + 2@' % (lit(r), lit(r), r.randrange(40), r.randrange(40)))
        elif q < 12:
            s.line('%s buf %d + +! buf %d + @' % (lit(r), 8 * r.randrange(6), 8 * r.randrange(6)))
        elif q < 13:
            s.line('here %s here over -' % r.choice(['1 c,', '5 ,', '%d allot' % r.randrange(-0, 40), 'align', '3 c, align',
                                                       '1 2 2,', '1e f,', 'falign', '7 allot align', '0 allot', '16 allot -16 allot',
                                                       '3 allot -2 allot', "' dup compile,".replace('compile,', ',')]), 'drop')
            s.line('here 1- c@ drop')
        elif q < 14:
            s.line('buf %d + %s buf %d + @' % (o, r.choice(['on', 'off']), o) if o % 8 == 0 else 'buf 8 + count')
        elif q < 15:
            s.line(': q%d s" %s" buf over over c! 1+ swap move ; q%d buf count type' % (k, 'abcdefghij'[:r.randrange(10)], k))
        elif q < 19:
            a = badaddr(r)
            w = r.choice(['%s @', '%s c@', '5 %s !', '5 %s c!', '%s 2@', '1 2 %s 2!', '5 %s +!', '%s f@', '1e %s f!',
                          '%s count', '%s on', '%s ?', '%s 10 5 fill', '%s 5 type', '%s -1 type', 'buf %s 8 move',
                          '%s buf 8 move', '%s buf 8 + 9 move'])
            s.line(w % a)
            s.op('reset')
        elif q < 20:
            # exact upper limit
            off = r.choice([0, 1, 7, 8, 9, 15, 16])
            s.line('cap @ 65536 + %d - %s' % (off, r.choice(['@ drop', 'c@ drop', 'dup @ swap !', '1 type', '8 type', '9 type', 'f@ fdrop',
                                                                '1 5 fill', 'dup 8 move'])))
            s.op('reset')
        elif q < 21:
            n = r.choice(['-1', 'max-n', 'max-n 1+', '65536', '100000', '-8'])
            s.line('buf buf 8 + %s move' % n)
            s.op('reset')
            s.line('buf %s type' % n)
            s.op('reset')
        elif q < 22:
            s.line('here %s allot here over -' % r.choice(['max-n', 'max-n 1+', '-100000', '100000', '-1000000000', '10']))
            s.op('reset')
        elif q < 23:
            s.line('create t%d %d allot %d , t%d aligned @ here' % (k, r.randrange(0, 9), k, k))
        else:
            s.line('base 2 dump' if False else 'buf %d dump' % r.choice([0, 1, 8, 9, 16]))
        if r.random() < 0.6:
            s.op('clear')
    s.op('reset')
    s.op('clear')
    s.line('buf @ buf 8 + @ buf 16 + @ buf 24 + @ buf 32 + @ buf 40 + @ buf 48 + @ buf 56 + @')
    return s.s


# ------------------------------------------------------------------ C11
FAULT = ['r> drop', 'r> r> r>', 'r> 2r>', 'abort', '1 0 /', '1 0 mod', '5 0 /mod', 'drop', 'fdrop', 'nosuch', 'exit', 'if', '-1 @', '0 -1 !', '-1 c@', '0 suspend',
         '9 resume', "' nosuch", 'char', '0 source-id! 77 source-id!', '-1 execute', '99999 execute', '3 base ! 5 .',
         ': bad if ;', ': bad then', ': bad nosuch ;', '1 2 3 -1 move', 'postpone', '0 0 label' if False else ': bad 0 goto ;',
         '1 ( unterminated', '1000000 >body', '77 close-source', 'max-n allot', '2 3 4 nosuch 5 6', '1e 2e nosuch 3e']
CFAULT = ['abort', '1 0 /', '2drop drop drop drop drop drop drop drop', '-1 @', '0 -1 !', '-1 execute', '0 suspend', '1 0 mod', '-1 c@', 'fdrop fdrop fdrop',
          '1000000 >body', '77 close-source', '?stacks abort']


def c11(r):
    s = Script(handler=r.choice(['bye', 'bye', 'bye', 'noop']))
    if r.random() < 0.35:
        s.line('variable hits  0 hits !  : h %s ;' % r.choice(['1 hits +!', '7 hits !', '1 hits +! error .', 'hits @ 1+ hits !']))
        s.line("' h handler!") if r.random() < 0.0 else None
    s.line('1 2 3 1e 2e : ok 11 22 ; variable v 5 v !')
    s.line(': ovf 64 0 do i s>f loop ; : ovd 64 0 do i loop ; : ovr %s ; : ovc %s ;' % (' '.join(['dup >r'] * 66), 'if ' * 3 + 'then ' * 3))
    for k in range(r.randrange(3, 7)):
        q = r.randrange(7)
        if q < 2:
            s.line('4 5', r.choice(FAULT), '6 7 v @ 1+ v !')
        elif q < 4:
            s.line(': f%d 8 9 v @ 1+ v ! %s v @ 1+ v ! 10 ;' % (k, r.choice(CFAULT)))
            s.line('3 f%d 12 13 9 v !' % k)
        elif q < 5:
            c = r.choice(CFAULT)
            s.line(': g%d %s ; : h%d 3 0 do i g%d loop 5 ; : m%d 1 h%d 2 ;' % (k, c, k, k, k, k))
            s.line('m%d 7 8 ~' % k)
        elif q < 6:
            w = r.choice(['ovf', 'ovd', '7 ovr', ': deep ' + r.choice(['if ', 'begin ', 'case ', '3 0 do ']) * r.choice([33, 64, 65, 70])])
            s.line(w, r.choice(['', '3e fdrop', '9 drop', 'then']))
            s.op('reset')
            if r.random() < 0.9:
                s.op('clear')
                s.line(r.choice(['1e fdup fswap fdrop fdrop ~', '1 dup swap drop drop ~', '2e fnegate ~', ': z 1 >r r> ; z ~',
                                 ': z%d 0 if 1 else 2 then ; z%d ~' % (k, k), '1e 2e f+ f.']))
        else:
            s.line(': n%d 1 2 + [ 4 5 %s 6' % (k, r.choice(['abort', 'nosuch', '1 0 /', '-1 @', 'drop drop drop drop drop drop drop drop'])))
        if r.random() < 0.5:
            s.line('error .')
        if r.random() < 0.85:
            s.op('reset')
            if r.random() < 0.6:
                s.op('clear')
        if r.random() < 0.3:
            s.line(r.choice(['.backtrace', ': tb%d .backtrace ; tb%d' % (k, k), ': tb%d 2 0 do .backtrace loop ; : tc%d 5 >r tb%d r> drop .backtrace ; tc%d' % (k, k, k, k)]))
        s.line('v @ ok ~')
        s.line(r.choice(['.s', ': again%d 3 0 do i loop ; again%d' % (k, k), '1 2 + .', 'depth .', '1e f. .s']))
        if r.random() < 0.4:
            s.op('reset')
            s.op('clear')
    return s.s


# ------------------------------------------------------------------ C12
def c12(r):
    s = Script()
    for k in range(r.randrange(6, 12)):
        q = r.randrange(12)
        v = value(r)
        if q < 3:
            b = r.choice([2, 8, 10, 16])
            s.line('decimal %s dup %d base ! %s' % (lit(r, v), b, r.choice(
                ['. .', '%s .r 0 .r' % format(r.choice([0, 1, 5, 10, 12]), {2: 'b', 8: 'o', 10: 'd', 16: 'x'}[b]), '. h.', 'h. .',
                 '-1 .r -1 .r' if b > 2 else '. .', '. %s h.r' % format(r.randrange(0, 20), {2: 'b', 8: 'o', 10: 'd', 16: 'x'}[b])])))
            s.line('decimal base @ .')
        elif q < 6:
            # read back in a base
            b = r.choice([2, 3, 5, 7, 8, 9, 10, 11, 12, 15, 16])
            dg = '0123456789abcdef'[:b] + '0123456789ABCDEF'[:b]
            edge = '0123456789abcdefgABCDEFGz'[:]
            t = ''.join(r.choice(dg) for _ in range(r.choice([1, 2, 3, 8, 16, 17, 20, 33, 64, 65])))
            t = r.choice(['', '', '-', '+', '--', '+-', '']) + t
            t = r.choice(['', '', '$', '%', '#', '-$', '$-', '&', '%-', '#+', '']) + t
            if r.random() < 0.3:
                p = r.randrange(len(t) + 1)
                t = t[:p] + r.choice(edge + "-+$%#.e'") + t[p:]
            s.line('decimal %d base !' % b, t)
            s.op('reset')
            s.line('decimal')
        elif q < 9:
            alpha = "$#%-+'019afAFgG.eE5"
            t = ''.join(r.choice(alpha) for _ in range(r.randrange(1, 6)))
            s.line(t)
            s.op('reset')
            if r.random() < 0.4:
                s.line(': n%d %s ; n%d' % (k, t, k))
                s.op('reset')
        elif q < 10:
            s.line("'%s'" % r.choice("abAZ0'~! \"(".replace(' ', '')), "hex '%s' decimal" % r.choice('azf9'))
        elif q < 11:
            i = r.choice(['0', '1', '12', '123456', '9007199254740993', '4503599627370497', '0.5', '1.25', '3.0', '10.75', '.5'])
            e = r.choice(['e', 'E', 'e0', 'e1', 'e-1', 'e+2', 'e5', 'e-2', 'e10', 'e22', 'e-', 'e+', 'ee', 'e1.'])
            s.line(r.choice(['', '-', '+', '']) + i + e, 'f.')
            s.op('reset')
        else:
            s.line('%s ? %s' % (r.choice(['base', 'load-line#', '#tib']), ' '.join('%d spaces' % r.randrange(-2, 5) for _ in range(2))))
        if r.random() < 0.5:
            s.op('clear')
    return s.s


# ------------------------------------------------------------------ C13
def c13(r):
    s = Script()
    WS = [' ', '  ', '\t', ' \t ', '\r', ' \n ', '   ']
    U = ['a', 'bc', 'ä', '日本', 'x"y', ')', '"', 'é"', '(x', '𝄞', 'A', "'", ';', '\\', '\u00a0', '\u2003', 'ab)c', '\u0085']

    def w():
        return r.choice(WS)

    def txt(n=4):
        return ''.join(r.choice(U + WS[:3]) for _ in range(r.randrange(0, n)))
    for k in range(r.randrange(6, 12)):
        q = r.randrange(20)
        if q < 2:
            s.line(''.join(r.choice([w(), '1', '23', 'dup', 'drop', w()]) for _ in range(r.randrange(0, 9))))
        elif q < 4:
            s.line('1 %s(%s%s%s 2' % (w().strip('\n') or ' ', r.choice([' ', '\t', '']), txt(6), r.choice([')', ') ', ')3', '', ' ) '])))
        elif q < 5:
            s.line('5 \\%s%s' % (r.choice([' ', '\t', '']), txt(5)), r.choice(['', '6']))
        elif q < 6:
            s.line('5 \\ %s\n 6 7' % txt(3).replace('\n', ''))
        elif q < 8:
            s.line(': s%d s"%s%s%s type ; s%d' % (k, r.choice([' ', '  ', '']), txt(5).replace('"', ''), r.choice(['"', '" ', '', ' "']), k))
        elif q < 9:
            s.line(': t%d ."%s%s%s 5 ; t%d' % (k, r.choice([' ', '  ', '\t']), txt(5).replace('"', ''), r.choice(['"', '', ' "']), k))
        elif q < 10:
            s.line('.(%s%s%s 8' % (r.choice([' ', '', '  ']), txt(5).replace(')', ''), r.choice([')', ') ', '', ')x'])))
        elif q < 12:
            s.line('char%s%s 1' % (w(), r.choice(U + ['']))) if r.random() < 0.6 else \
                s.line(': c%d [char]%s%s 1 ; c%d' % (k, w(), r.choice(U + ['']), k))
        elif q < 14:
            d = r.choice(['32', '41', '34', '98', '228', '26085', '0', '-1', '10', '119070', '9'])
            s.line('%s parse%s~ source-idx .token %s' % (d, r.choice([' ', '  ', '\t']) + txt(5), r.choice(['', ' 5'])))
        elif q < 16:
            d = r.choice(['32', '41', '34', '98', '228', '97', '9'])
            c = chr(int(d))
            s.line('%s word%s%s count type source-idx' % (d, r.choice([' ', '   ', ' bb ', ' ää']), txt(4) + r.choice([' ', ')', '"', 'b', c])))
            s.op('reset')
            s.op('clear')
            d = r.choice(['228', '26085', '119070', '98', '41'])
            c = chr(int(d))
            s.line(': sw%d 32 _skip %s word count type source-idx ;' % (k, d))
            s.line('sw%d %s%s%s%s 5' % (k, r.choice(['', ' ', '   ']), c * r.randrange(0, 5), txt(3).replace(chr(10), ''), r.choice(['', c, c + 'x', c * 3])))
        elif q < 17:
            s.line('%s _skip %s~ source-idx' % (r.choice(['32', '228', '97', '41', '26085']), r.choice(['   ', 'aa ', 'ää ', ')) ', '', 'ääää', '日日 '])))
        elif q < 18:
            n = r.randrange(0, 30)
            s.line('%d source-idx! %s' % (r.choice([n, n, 100, -1]), txt(4)) if r.random() < 0.5
                   else ': pp%d %d source-idx! parse-word token-empty? source-idx ; immediate pp%d %s' % (k, r.choice([40, 41, 42, 43, 44, 45, 46, 1000]), k, txt(4)))
        elif q < 19:
            s.line('parse-word%s%s .token here !token here count type' % (w(), txt(3)))
        else:
            s.line(r.choice(['', ' ', '\t\t', '\r\n', txt(6), '"', 's"', '( ', '\\', '.(', ': x s"', ': y ."', "'", '.( )', '( )', '()', '( a)b']))
        s.op('reset')
        s.op('clear')
        if r.random() < 0.3:
            s.line('1 .')
            s.op('clear')
    return s.s


# ------------------------------------------------------------------ C14 / C15
def task_body(r, t, k, fac):
    """a background task program"""
    out = []
    n = 0
    for _ in range(r.randrange(1, 6)):
        q = r.randrange(14)
        if q < 4:
            out.append('%d emit' % (97 + (t * 5 + n) % 26)); n += 1
        elif q < 7:
            out.append('pause')
        elif q < 8:
            out.append('%d' % (t * 100 + n))
        elif q < 9:
            out.append('3 0 do i pause loop' if r.random() < 0.5 else '2 0 do %d emit pause loop' % (65 + t))
        elif q < 10 and fac:
            out.append('fa get %d emit pause %d emit fa release' % (48 + t, 48 + t))
        elif q < 11 and fac:
            out.append('%d ms %d emit' % (r.randrange(0, 4), 105 + t))
        elif q < 12:
            out.append('%d %s' % (r.randrange(2, 6), r.choice(['suspend', 'resume'])))
        elif q < 13:
            out.append('me emit')
        else:
            out.append('1 >r pause r> drop')
    out.append(r.choice(['begin pause again', 'stop', 'begin pause again', 'begin %d emit pause again' % (75 + t), 'nod',
                         'begin stop %d emit again' % (80 + t)]))
    return ' '.join(out)


def c14(r, fac=False):
    s = Script()
    s.line('variable fa 0 fa !  variable fb 0 fb !')
    ts = r.sample([2, 3, 4, 5], r.randrange(1, 5))
    for t in ts:
        s.line(': t%d %d activate %s ;' % (t, t, task_body(r, t, 0, fac)))
    s.line(': pp 0 do pause loop ; : tk 0 do tick pause loop ;')
    if r.random() < 0.15:
        # activated again and again, whatever it has left on its stacks
        t = r.choice(ts)
        s.line(': ra %d activate %s begin %s pause again ;' % (t, r.choice(['7 >r', '1 2 2>r', '7 >r', '1e', '7']),
                                                             r.choice(['?stacks', '?stacks me emit'])) if r.random() < 0.7 else
               ': rb 5 0 do i 60 + emit ?stacks pause loop ; : ra %d activate begin rb again ;' % t)
        s.line(': rep 0 do ra pause loop ; %d rep' % r.choice([3, 20, 40, 70]))
        s.op('reset')
    for t in ts:
        s.line('t%d' % t if r.random() < 0.8 else 't%d 5 . ' % t)
    # the terminal pauses inside a definition
    for k in range(r.randrange(2, 6)):
        q = r.randrange(12)
        if q < 5:
            s.line('%d pp' % r.randrange(1, 6))
        elif q < 6:
            s.line(': x%d %s ; x%d' % (k, ' '.join(r.choice(['pause', '33 emit', 'pause', '5', 'me .']) for _ in range(5)), k))
        elif q < 7:
            s.line('%d %s' % (r.choice([2, 3, 4, 5, 5, 2, 1, 0, 6, -1]), r.choice(['resume', 'resume', 'suspend']) if r.random() < 0.9 else 'resume'))
            s.op('reset')
            s.line(': wake 1 resume ; 1 resume')
        elif q < 8:
            s.line('%d halt' % r.choice(ts))
        elif q < 9:
            s.line('t%d' % r.choice(ts))
        elif q < 10:
            s.line(': a%d %s activate pause ; a%d' % (k, r.choice(['0', '6', '-1', '99', 'max-n 1+']), k))
            s.op('reset')
        elif q < 11 and fac:
            s.line(r.choice(['%d tk' % r.randrange(1, 6), 'fa get 1 . 2 pp fa release', 'fa @ .', 'fa release fa @ .', ': w%d %d ms 87 emit ; w%d' % (k, 0, k),
                             ': k%d %d begin tick pause 1- dup 0= until drop ; k%d' % (k, r.randrange(1, 5), k)]))
        else:
            s.line('me . depth . %d' % k)
    s.op('home')
    s.op('reset')
    s.line('me . fa @ .')
    return s.s


def clock(r, s):
    """start at a time whose milli- or microseconds soon need another bit"""
    if s['mode'] == 'mock':
        s['t0'] = 1000000 * (r.choice([4294968, 2147484, 65536, 4194305, 1000]) - r.randrange(0, 12))
    else:
        b = r.choice([31, 32, 33, 40, 24, 48, 53])
        ms = r.choice([1 << b, (1 << b) // 1000 + 1, 1700000000000 if b > 32 else 4294968]) - r.randrange(0, 12)
        s['t0'] = min(1000000 * ms, 1 << 63) + r.choice([0, 0, 999999, 1500, r.randrange(1000000)])
    return s


def c15(r):
    q = r.randrange(10)
    if q == 0:
        return clock(r, c14(r, True))
    if q == 1:
        return c15shell(r)
    return c14(r, True)


def c15shell(r):
    s = Script(handler='(abort)', mode='shell')
    clock(r, s.s)
    s.line(': tt 5 activate begin tick pause again ;')
    s.line('variable fa 0 fa ! : cs fa get 40 emit dup ms 41 emit fa release drop ;')
    for t in (2, 3, 4):
        s.line(': t%d %d activate %s ;' % (t, t, ' '.join(r.choice(['%d ms %d emit' % (r.randrange(0, 6), 64 + t), 'mtime .', 'utime .', 'pause', '%d cs' % r.randrange(0, 4),
                                                                    '%d emit' % (96 + t)]) for _ in range(r.randrange(1, 5)))))
    s.line('mtime . utime .', 'tt' if r.random() < 0.9 else '')
    for k in range(r.randrange(2, 7)):
        s.line(r.choice(['t2 t3 t4', 't2 t3', 't4', 't3 t2', '']), r.choice(['3 ms', '0 ms', '7 ms', '1 cs', '-1 ms', 'fa @ .']) if r.random() < 0.7 else '', r.choice(['mtime .', 'utime .', '', 'mtime 4 ms mtime swap - .']))
    s.line('40 ms fa @ .')
    return s.s


# ------------------------------------------------------------------ C16
def c16(r):
    s = Script(files=True)
    names_ = ['aa', 'b.txt', 'c_1']
    s.line('create nm 300 allot  create buf 700 allot  buf 128 65 fill')
    s.line('variable f1 variable f2 variable f3  -1 f1 ! -2 f2 ! 77 f3 !')
    s.line(': na s" aa" ; : nb s" b.txt" ; : nc s" c_1" ; : nx s" missing" ; : data s" Hello, world 0123456789" ;')
    if r.random() < 0.5:
        s.put('aa', bytes(r.randrange(32, 127) for _ in range(r.choice([0, 5, 20, 40, 255, 256, 300, 600]))))
    for k in range(r.randrange(10, 22)):
        f = r.choice(['f1', 'f1', 'f2', 'f3'])
        n = r.choice(['na', 'na', 'nb', 'nc', 'nx'])
        q = r.randrange(30)
        if q < 5:
            s.line('%s %s %s %s swap %s ! .' % (n, r.choice(['r/w', 'r/w', 'w/o', 'r/o', '3', '-1']) if r.random() < 0.9 else '7', 'create-file', '', f))
        elif q < 9:
            s.line('%s %s open-file swap %s ! .' % (n, r.choice(['r/w', 'r/w', 'w/o', 'r/o', '5']), f))
        elif q < 13:
            s.line('data %s %s @ write-file .' % (r.choice(['', 'drop 5', 'drop 0', '4 /string', 'drop -1', 'drop 100000', '2drop buf 300', '2drop buf 256', 'nip -1 swap' if False else '']), f))
        elif q < 17:
            s.line('buf %d %s @ read-file . .' % (r.choice([0, 1, 5, 10, 100, 256, 257, 650, -1, 1000000]), f), 'buf @ buf 8 + @', 'buf 248 + @ buf %d + c@' % r.randrange(0, 600) if r.random() < 0.3 else '')
        elif q < 20:
            s.line('%d %s %s @ reposition-file .' % (r.choice([0, 1, 5, 20, 40, 255, 256, 400, -1]), r.choice(['0', '0', '0', '1', '-1']), f))
        elif q < 22:
            s.line('%d %s %s @ resize-file .' % (r.choice([0, 1, 7, 30, 50, 256, 300, 500, -1]), r.choice(['0', '0', '0', '1', '-1']), f))
        elif q < 24:
            s.line('%s @ file-size . . .' % f)
        elif q < 26:
            s.line('%s @ file-position . . .' % f)
        elif q < 27:
            s.line('%s @ close-file .' % f)
        elif q < 28:
            s.line('%s delete-file .' % n)
        elif q < 29:
            s.line('%s %s .' % (r.choice(['nm 300', 'nm 257', 'nm -1', 'nm 0', '-1 3', '0 2', 'nm 5000000']),
                                r.choice(['r/o open-file nip', 'r/w create-file nip', 'delete-file', 'r/o open-file .'])))
        else:
            s.line('buf 4 %s read-file . . data %s write-file .' % (r.choice(['0', '-1', '99', 'max-n', 'max-n 1+']),
                                                                    r.choice(['0', '-1', '99', 'max-n', 'max-n 1+'])))
        s.op('clear')
        if r.random() < 0.1:
            s.op('reset')
    return s.s


# ------------------------------------------------------------------ C17
def src_line(r, files, me):
    l = src_line0(r, files, me)
    if r.random() < 0.14:
        n = r.choice([100, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1200])
        q = r.randrange(4)
        if q == 0:
            return ' ' * n + l
        if q == 1:
            return '( ' + 'c' * n + ' ) ' + l
        if q == 2 and '\n' not in l and '\\' not in l:
            return l + ' \\ ' + 'd' * n
        return '%d emit%s %s' % (r.randrange(97, 123), ' ' * n, l)
    return l


def src_line0(r, files, me):
    q = r.randrange(16)
    if q < 4:
        return '%d emit' % r.randrange(97, 123)
    if q < 5:
        return ''
    if q < 6:
        return '  \t'
    if q < 7:
        return '\\ comment'
    if q < 10 and files:
        f = r.choice(files)
        return '%s include %s %s' % (r.choice(['', '40 emit', '1 drop']), f, r.choice(['', '41 emit', 'source-id .', 'source-idx .']))
    if q < 11:
        return ': q%d %d emit' % (r.randrange(9), r.randrange(65, 91)) + r.choice([' ;', '\n ;', '\n\n 33 emit ;'])
    if q < 12:
        return 'source-id . source-idx . load-line# @ .'
    if q < 13:
        return '( multi\n) 5 drop'
    if q < 14:
        return r.choice(['\\\\ rest\n never', '', ''])
    if q < 15:
        return r.choice(['nosuch', 'abort', '1 0 /', 'drop', 'q1', ': open 5'])
    return '%d constant k%d' % (r.randrange(100), r.randrange(3))


def src_file(r, files, me, good=False):
    ls = [src_line(r, files, me) for _ in range(r.randrange(0, 6))]
    if good:
        ls = [l for l in ls if not any(x in l for x in ('nosuch', 'abort', '1 0 /', 'drop', 'q1', 'open', '\\\\'))]
    nl = r.choice(['\n', '\n', '\r\n'])
    t = nl.join(ls).replace('\n\n', '\n\n')
    return (t + r.choice(['', nl, nl])).encode()


def c17(r):
    s = Script(files=False)
    fs = ['f0', 'f1', 'f2']
    good = r.random() < 0.6
    for i in (2, 1, 0):
        s.put(fs[i], src_file(r, fs[i + 1:] + (['nofile'] if not good and r.random() < 0.3 else []), i, good))
    if r.random() < 0.15:
        s.put('loop', b'40 emit include loop 41 emit\n')
    s.line(': q0 ; : q1 ; variable sid')
    for k in range(r.randrange(3, 8)):
        q = r.randrange(14)
        f = r.choice(fs)
        if q < 5:
            s.line('10 include %s 42 emit source-id . source-idx .' % f)
        elif q < 6:
            s.line(': i%d s" %s" included 35 emit ; i%d' % (k, f, k))
        elif q < 7:
            s.line(': o%d s" %s" 2dup r/o open-file drop open-source ; o%d dup sid ! .' % (k, f, k))
        elif q < 9:
            s.line(r.choice(['sid @ load-line . . ', 'sid @ load-line drop . sid @ .source-line', 'sid @ .source-path', 'sid @ close-source',
                             '77 load-line', '0 close-source', '-1 close-source', '5 .source-line', '99 source-id!', '-1 source-id!',
                             '0 source-id!', 'source-id .', ': k s" x" 55 open-source ; k']))
        elif q < 10:
            s.line('include %s' % r.choice(['nofile', 'loop', '', 'f1 include f2']))
        elif q < 11:
            s.line('save-input . . .' if r.random() < 0.5 else 'save-source restore-source 5 .')
        elif q < 12:
            s.line('include %s include %s 1 .' % (f, r.choice(fs)))
        elif q < 13:
            s.put(f, src_file(r, fs[fs.index(f) + 1:], 0, good))
        else:
            s.line(': r%d 3 0 do s" f2" included loop ; r%d' % (k, k))
        s.op('reset')
        if r.random() < 0.5:
            s.op('clear')
    s.line('1 2 + . source-id .')
    return s.s


# ------------------------------------------------------------------ C18
def c18(r):
    s = Script()
    for k in range(r.randrange(2, 5)):
        if r.random() < 0.6:
            s.line('0labels')
        nl = r.randrange(1, 4)
        out = []
        far = r.choice([0, 0, 0.1, 0.3])
        N = r.sample([1, 2, 3, 17, 500, 998, 999], nl)
        if r.random() < 0.15:
            N[0] = r.choice([0, -1, 1000, 1001, 'max-n', 1 << 32])
        body = []
        for n in N:
            body += [('label', n)] * (1 if r.random() < 0.85 else r.choice([0, 2]))
        for _ in range(r.randrange(1, 5)):
            body.append((r.choice(['goto', 'goto', 'call', 'cond', 'cond']), r.choice(N)))
        for _ in range(r.randrange(1, 5)):
            body.append(('mark', r.randrange(97, 123)))
        r.shuffle(body)
        # a fuel counter on the data stack bounds every run
        for op, n in body:
            if op == 'mark':
                out.append('%d emit' % n)
                if r.random() < far:
                    out.append('s" %s" 2drop' % ('z' * r.choice([60, 300, 600])))
            elif op == 'label':
                out.append('[ %s ] label 1- dup 0< if exit then' % n)
            elif op == 'cond':
                out.append('dup %d and if [ %s ] goto then' % (r.choice([1, 2, 3]), n))
            else:
                out.append('[ %s ] %s' % (n, op))
            if op == 'mark' and r.random() < 0.15:
                out.append('exit')
        s.line(': g%d %s ;' % (k, ' '.join(out)))
        s.line('%d g%d' % (r.randrange(1, 9), k))
        s.op('reset')
        s.op('clear')
        if r.random() < 0.3:
            s.line('0labels')
            s.line(': ok%d 1 [ 5 ] goto 2 [ 5 ] label 3 ; ok%d ~' % (k, k))
            s.op('reset')
            s.op('clear')
    return s.s


# ------------------------------------------------------------------ C19
def c19(r):
    s = Script(handler='(abort)', mode='shell')
    s.put('good', b'77 emit\n: fromfile 5 ;\n')
    s.put('bad', b'66 emit\n' + r.choice([b'nosuch', b'1 0 /', b'drop', b'abort', b'-1 @', b': x then']) + b'\n99 emit\n')
    s.put('outer', b'40 emit\ninclude bad\n41 emit\n')
    s.put('miss', b'40 emit\ninclude nofile\n')
    s.put('self', b'include self\n')
    s.put('inner', b'1 drop\ninclude good\n2 drop\n')
    LINES = ['1 2 + .', '', '  ', ': sq dup * ;', '3 sq .', 'nosuch', '1 0 /', 'drop', 'fdrop', 'abort', '-1 @', ': half', '5 ;', '; ', 'include good',
             'include bad', 'include outer', 'include miss', 'include nofile', 'include inner', 'fromfile .', '1 2 3', '.s', 'if', ': x if ;', '1e f.', 'words' if r.random() < 0.02 else 'depth .',
             'hex', 'decimal', '5 10 within .', ' '.join(['1'] * 66), ': bt 1 0 / ; bt', '2 base ! 101 . decimal', '.( hi)', ': t 2 activate begin pause again ; t',
             ': p pause 65 emit ; p', 'ä', '"', 's" x', '\\ comment', 'quit', '1 2 quit 3', ': q 7 quit ; q', 'bye' if r.random() < 0.05 else 'noop',
             'source-id .', 'error .', ': deep 1 >r abort ; deep', 'save-source', 'restore-source', '0stacks', 'reset', '1 reset 2', 'include self' if r.random() < 0.15 else 'me .',
             ': lp 3 0 do i . loop ; lp', "' nosuch", 'char', '3 base ! 5 .', '10 base !', 'create', 'handler! drop' if False else '9 suspend', '[', ']', ': y [', '] 5 ; y .']
    if r.random() < 0.5:        # nested failures, stacks driven over their limits
        s.line(': n1 0 @ ; : n2 1 n1 2 ; : n3 3 0 do i n2 loop ; : n4 5 0 do 6 0 do n2 loop loop ; : n5 .backtrace 4 ; : n6 n5 1 >r n5 r> drop ;')
        s.line(': n7 nosuch', ': n8 1 2 drop drop drop drop ;', ': n9 n8 5 ; : n10 begin n9 again ;', 'variable nv : n11 .backtrace n2 ; defer nd', "' n2 ' nd defer!",
               ': n12 create , does> @ drop n2 ; 5 n12 n13', ': n14 n13 ; : n15 nd ;')
        o = r.choice([63, 64, 65, 70, 100])
        s.line(': o1 %s %s ; : o2 %s %s ;' % (' '.join(['0 >r'] * o), r.choice(['0 @', 'abort', 'quit', '1 0 /']), ' '.join(['1e'] * o), r.choice(['', 'abort', '0 @', 'quit'])),
               ': o3 %s %s ;' % (' '.join(['1'] * o), r.choice(['', 'abort', '0 @', 'quit'])), ': o4 %s %s ;' % (' '.join(['r> drop'] * r.randrange(1, 9)), r.choice(['0 @', 'abort', 'quit'])))
        LINES = LINES + ['n1', 'n2', 'n3', 'n4', 'n5', 'n6', 'n8', 'n9', 'n10', 'n11', 'n13', 'n14', 'n15', 'nd', '.backtrace', '.backtrace 1 .backtrace', 'o1', '1 . o1', 'o2', '2 . o2 3 .', 'o3', 'o4',
                         'nosuch', 'n4 5', '5 . nosuch', ': oc ' + 'if ' * r.choice([40, 64, 70])] * 2
    if r.random() < 0.5:        # tasks, some of which fail
        s.line(': p pause ;', 'variable n', ': mk 2 activate begin 1 n +! pause again ;',
               ': b1 2 activate 1 0 / ; : b2 3 activate pause drop ;', ': b3 4 activate s" bad" included ; : b4 5 activate quit ; : b5 2 activate 7 >r abort ;')
        LINES = LINES + ['p', 'p p', 'mk p', 'b1 p', 'b1 5 p 6', 'b2 p p', 'b2 nosuch', 'b3 p', 'b4 p', 'b5 p', '2 resume p', '3 resume p p', 'n @ .', 'include tk', '2 suspend',
                         'b1 b2 p p p', ': l 3 0 do i . p loop ; b2 l', 'me .', '1 resume p', 'hex b1 p decimal', 'include tk2'] * 2
        s.put('tk', b'1 p .\n2 p .\n3 p .')
        s.put('tk2', b'b1\np 4 .\nb3 p 5 .\n')
    for k in range(r.randrange(8, 20)):
        s.line(r.choice(LINES))
        if r.random() < 0.05:
            s.line(r.choice(LINES), r.choice(LINES))
    s.line('decimal')
    s.line('1 2 + .')
    return s.s


# ------------------------------------------------------------------ the real program
def typed(text):
    return [{'k': 'tab'} if c == '\t' else {'k': 'char', 'b': list(c.encode('utf-8'))} for c in text]


def session(keys, args=None, hist=None, files=(), end='eof'):
    """keystrokes for the interactive program, which first tells where its memory is"""
    e = {'k': 'enter'}
    keys = (typed('here .') + [e] if args is None else []) + keys + (typed('bye') + [e] if end == 'bye' else []) + [{'k': 'eof'}]
    return dict(mode='rtf', handler='(abort)', items=keys, keys=keys, args=[] if args is None else ['here', '.'] + list(args),
                hist=hist, files=list(files))


def retype(s):
    """a script for the shell, typed into the real program"""
    keys, files = [], []
    for it in s['items']:
        if it['op'] == 'put':
            files.append(dict(n=it['n'], b=it['b']))
        elif it['op'] == 'line' and len(it['t']) < 160:
            keys += typed(bytes(it['t']).decode('utf-8')) + [{'k': 'enter'}]
    return session(keys, files=files)


def c23(r):
    """keystrokes of all kinds"""
    alpha = ['a', 'Z', '7', ' ', ' ', '.', '+', 'é', 'ß', '中', '한', '😀', 'e\u0301', '"', '(', '\\']
    words = ['.( hi', '1 2 + .', 'nosuch', '3 4 * .', 'ä', 'decimal', '.( é中)', ': sq dup * ;', '5 sq .', '', 'noop', '1 0 /', '.s', '1 drop']
    k = lambda n: {'k': n}
    keys = []
    moves = ['left'] * 4 + ['right'] * 3 + ['bs'] * 4 + ['up'] * 3 + ['down'] * 2
    for n in range(r.choice([3, 8, 12, 20, 40])):
        z = r.randrange(8)
        if z < 3:
            keys += typed(r.choice(words))
        elif z < 5:
            keys += typed('.( ' + ''.join(r.choice(alpha) for _ in range(r.randrange(0, 12))))
        elif z == 5:
            keys += [k('up')] * r.randrange(1, 5) + [k('down')] * r.randrange(0, 4)
        if r.random() < 0.6:
            for _ in range(r.choice([1, 2, 4, 10])):
                z = r.random()
                keys += [k(r.choice(moves))] if z < 0.7 else typed(r.choice(alpha)) if z < 0.95 else [
                    k(r.choice(['tab', 'home', 'end', 'delete', 'ctrl_a', 'alt_x']))]
        if r.random() < 0.03:
            keys += [k('left')] * 30 + typed(r.choice(alpha))
        keys.append(k('enter'))
    if r.random() < 0.3:        # a line begun and left
        keys += typed(r.choice(words)) + [k('up')] * r.randrange(0, 3)
        return session(keys, args=r.choice([None, [], ['1', '2', '+', '.'], [':', 'x']]), hist=oldlines(r), end='eof')
    return session(keys, args=r.choice([None, [], ['3', '.'], ['nosuch'], ['.(', 'b']]), hist=oldlines(r), end=r.choice(['eof', 'bye']))


def oldlines(r):
    n = r.choice([None, None, 0, 1, 3, 31, 32, 33, 50])
    if n is None:
        return None
    e = r.choice(['\n', '\n', '\r\n'])
    t = e.join(r.choice(['.( l%d' % i, '1 %d + .' % i, 'é%d' % i, '中 %d' % i, '' if r.random() < 0.2 else 'x']) for i in range(n))
    return list((t + (e if r.random() < 0.8 else '')).encode())


# ------------------------------------------------------------------ C20
def fbits(r):
    """a double of any magnitude, as the tokens that push it"""
    z = r.randrange(10)
    if z == 0:
        e = r.choice([0, 1, 2, 2046, 2045, 2047, 0])
    elif z < 4:
        e = r.randrange(0, 2047)
    elif z < 7:
        e = 1023 + r.randrange(-60, 60)
    else:
        e = 1023 + r.randrange(-4, 4)
    m = r.choice([0, 1, (1 << 52) - 1, 1 << 51, r.getrandbits(52), r.getrandbits(52), r.getrandbits(52), r.getrandbits(26) << 26, r.getrandbits(10)])
    b = (r.getrandbits(1) << 63) | (e << 52) | m
    return '%d vb ! vb f@' % (b - (1 << 64) if b >> 63 else b)


def flit(r):
    k = r.randrange(15)
    if r.random() < 0.06:
        return r.choice(['0e 0e f/', '0e 0e f/', '1e 0e f/', '-1e 0e f/', '0e 0e f/ fnegate'])
    if k > 12:
        return fbits(r)
    if k > 11:
        return r.choice(['-0e', '0e', '-0e'])
    if k > 10:
        return '%s%d.%0*de%s' % (r.choice(['', '-']), r.choice([0, 0, 0, r.randrange(1000)]), *(lambda d: (d, r.randrange(0, 10 ** d)))(r.randrange(1, 9)),
                                 r.choice(['', '', '%d' % r.randrange(-20, 21)]))
    if k == 8:      # all 53 bits
        n = r.choice([(1 << 53) - 1, (1 << 52) + 1, (1 << 52) + 3, (1 << 51) + 1, r.getrandbits(53), r.getrandbits(48) | 1, r.getrandbits(40)])
        return '%s%d s>f%s' % (r.choice(['', '-']), n, r.choice(['', '', ' 0.5e f*', ' 2e f/', ' 0.25e f*', ' 1.1125369292536007e-308 fdrop', ' 4096e f*', ' 65536e f/ 65536e f/ 65536e f/ 32e f/']))
    if k == 9:
        d = r.randrange(1, 9)
        return '%s%d.%0*de%s' % (r.choice(['', '-']), r.randrange(0, 1 << r.randrange(1, 30)), d, r.randrange(0, 2 ** d) * 5 ** d, r.choice(['', '', '1', '2', '3', '-1', '10', '+0']))
    if k == 10:
        d = r.randrange(1, 8)
        return '%d.e-%d' % (r.randrange(0, 1 << 20) * 5 ** d, d)
    if k < 3:
        return '%d%se' % (r.randrange(-40, 40), r.choice(['', '.5', '.25', '.75', '.125']))
    if k < 4:
        return r.choice(['0e', '-0e', '0.5e', '-0.5e', '1.5e', '2.5e', '-1.5e', '-2.5e', '1e3', '-1e', '4503599627370496e', '4503599627370495.5e',
                         '9007199254740991e', '-9007199254740991e', '9007199254740992e', '0.375e', '1024e', '65536.5e'])
    if k < 5:
        return '%de%d' % (r.randrange(-9, 10), r.randrange(0, 12))
    if k < 6:
        return '%d s>f' % r.choice([0, 1, -1, 5, -7, 1 << 30, -(1 << 40), (1 << 53) - 1, -(1 << 53), r.randrange(-10**6, 10**6), (1 << 63) - 1, -(1 << 63)])
    if k < 7:
        return '%d.%s%se%s' % (r.randrange(0, 100), r.choice(['', '0', '00']), r.choice(['5', '25', '0', '125']), r.choice(['', '1', '2', '0', '+1']))
    return '%d.%de-%d' % (r.randrange(0, 50), r.choice([0, 5]), 0)


F1 = ['fsqrt', 'fnegate', 'fabs', 'floor', 'fround', 'fceil', 'fdup', 'f0<', 'f0=', 'f>s']
F2 = ['f+', 'f+', 'f-', 'f*', 'f/', 'f/', 'f-', 'f*', 'fmin', 'fmax', 'f<', 'f>', 'fswap', 'fover', 'fnip', 'f/']


def c20(r):
    s = Script()
    s.line('fvariable v1 fvariable vb create v2 4 cells allot')
    for k in range(r.randrange(6, 12)):
        out = []
        q = r.randrange(10)
        if r.random() < 0.15:
            for _ in range(8):
                d = r.choice([3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
                s.line('%s%d.%0*de' % (r.choice(['', '-']), r.choice([0, 0, 0, r.randrange(100)]), d, r.randrange(0, 2 ** d) * 5 ** d))
            s.op('clear')
        for _ in range(r.randrange(1, 4)):
            z = r.randrange(10)
            if z == 8:
                out.append(' '.join(flit(r) for _ in range(3)) + r.choice([' frot', ' frot frot', ' 1 fpick', ' 2 fpick', ' 0 fpick', ' fover f- f+', ' fswap frot']))
                continue
            if z == 9:
                if r.random() < 0.4:
                    out.append('%d %s' % (r.choice([-1, 1]) * (r.getrandbits(r.randrange(50, 64)) >> 1), r.choice(['s>f', 's>f f>s'])))
                    continue
                out.append('%s %s' % (lit(r) if r.random() < 0.4 else r.choice(['0', '1', '8', '-1', '7', 'here', 'v1', '9', 'max-n', '-8']),
                                      r.choice(['floats', 'float+', 'faligned', 'floats float+', 's>f', 's>f f>s'])))
                continue
            if z < 3:
                out.append('%s %s' % (flit(r), r.choice(F1)))
            elif z < 6:
                a = flit(r)
                b = a if r.random() < 0.2 else flit(r)
                out.append('%s %s %s' % (a, b, r.choice(F2)))
            elif z < 7:
                a, b = flit(r), flit(r)
                out.append('%s %s %s f~' % (a, a if r.random() < 0.4 else b, r.choice(['0e', '1e', '-0.5e', '0.5e', '-1e', '2e'])))
            else:
                out.append('%s v1 f! v1 f@ %s v2 %d + f! v2 %d + f@' % (flit(r), flit(r), r.choice([0, 8, 16, 3, 9]), r.choice([0, 8, 16])))
        txt = ' '.join(out)
        if q < 4:
            s.line(': z%d %s ;' % (k, txt))
            s.line('z%d' % k)
        elif q < 8:
            s.line(txt)
        elif q < 9:
            s.line('%s fconstant k%d k%d k%d' % (flit(r), k, k, k), ': kk%d k%d %s ; kk%d' % (k, k, flit(r), k))
        else:
            s.line('%s %s' % (r.choice(['-1', '0', 'base 16 -', 'max-n', 'max-n 1+', '-8', '1', 'base 65528 +', 'base 65521 +']), r.choice(['f@', '1e f!'])))
            s.op('reset')
        if r.random() < 0.5:
            s.line('.s', flit(r) + ' f.' if r.random() < 0.2 else '')
            s.op('reset')
        s.op('clear')
    return s.s


# ------------------------------------------------------------------ C22
UNITS = ['meter', 'mm', 'um', 'deg', 'rad', 'hr', 'minute', 'sec', 'msec', 'usec', 'mm/min', 'mm/sec', 'um/msec', 'rpm', 'hz', '1/sec']


def fval(r, lo=-1.0, hi=1.0):
    """a double in a range, or any literal"""
    import struct
    z = r.random()
    if z < 0.15:
        return r.choice(['0e', '-0e', '1e', '-1e', '0.5e', '-0.5e', '2e', '10e', '0.1e', '3e', 'pi', 'pi 2e f/', 'pi fnegate', 'pi 4e f/'])
    if z < 0.3:
        x = r.choice([-1, 1]) * 2.0 ** r.uniform(-40, 12)
    elif z < 0.33:
        x = 1 + r.uniform(-1, 1) * 2.0 ** r.uniform(-40, -4)
    elif z < 0.4:
        x = round(r.uniform(lo, hi) * 100) / 100
    else:
        x = r.uniform(lo, hi)
    b = struct.unpack('<q', struct.pack('<d', x))[0]
    return '%d vb ! vb f@' % b


def c22(r):
    s = Script()
    s.line('fvariable vb')
    for k in range(r.randrange(5, 9)):
        out = []
        for _ in range(r.randrange(1, 3)):
            z = r.randrange(12)
            if z < 3:
                out.append('%s %s' % (fval(r, -7, 7) if r.random() < 0.7 else fval(r, -2e5, 2e5) if r.random() < 0.7 else fbits(r), r.choice(['fsin', 'fcos', 'ftan', 'fsincos', 'fatan'])))
            elif z < 5:
                a = fval(r)
                if r.random() < 0.25:
                    a = '%s %d s>f %d s>f f/ f%s' % (r.choice(['1e', '-1e']), r.randrange(1, 100), 1 << r.randrange(2, 50), r.choice(['-', '+']))
                out.append('%s %s' % (a, r.choice(['fasin', 'facos', 'fatan', 'fasin'])))
            elif z < 7:
                a = fval(r, -4, 4) if r.random() < 0.9 else fbits(r)
                b = fval(r, -4, 4) if r.random() < 0.9 else fbits(r)
                out.append('%s %s fatan2' % (a, b))
            elif z < 9:
                a = fval(r, 0, 20) if r.random() < 0.8 else fval(r, -20, 0)
                b = ('%d s>f' % (r.randrange(-12, 13) if r.random() < 0.6 else r.choice([r.randrange(-300, 300), r.getrandbits(r.randrange(8, 40))]))) if r.random() < 0.5 else fval(r, -6, 6) if r.random() < 0.9 else fbits(r)
                out.append('%s %s f**' % (a, b))
            elif z < 10:
                out.append('%s fsqrt' % (fval(r, 0, 100) if r.random() < 0.6 else fbits(r)))
            else:
                out.append('%s %s' % (fval(r, -1000, 1000) if r.random() < 0.8 else fbits(r), ' '.join(r.choice(UNITS) for _ in range(r.choice([1, 1, 1])))))
        txt = ' '.join(out)
        q = r.randrange(6)
        if q < 2 and len(txt) < 200:
            s.line(': z%d %s ;' % (k, txt), 'z%d' % k)
        elif q < 5:
            s.line(txt)
        else:           # an observation in between makes the operand of the next word known
            s.line(txt, '~ ' + r.choice(['fsin', 'fcos', 'fatan', 'fabs fsqrt', 'mm', 'deg', 'rpm', 'hr', 'minute', 'fabs 0.5e f**', '2e fatan2', '1e fswap fatan2']))
        if r.random() < 0.5:
            s.op('clear')
    return s.s


# ------------------------------------------------------------------ C21
INSP = ['.s', '.s', 'depth .', 'words', "' dup .word", "' %s .word", '.token', '.error', 'error .', '.xtime', 'me .', 'source-idx .',
        'source-id .', "' %s >name dup cell+ swap @ type", "' %s >name count type", "' %s >body", '.memory', '-1 .word', '99999 .word', '-1 >body', '-1 >name', '.input',
        'compiling? .', 'token-empty? .', '.backtrace', 'base @ .', 'here .', 'mtime .', 'utime .', 'source drop drop', '0xtime']


def c21(r):
    s = Script()
    if r.random() < 0.1:
        clock(r, s.s)
    us = ['dup']
    if r.random() < 0.3:
        s.line(': tw 0 ?do tick loop ; : tv tick ;')
        for k in range(r.randrange(2, 6)):
            s.line(r.choice(["%d utime ' tw xtime", "%d utime ' tw xtime", "%d drop utime ' tv xtime", "%d drop 0xtime", "%d drop : m tick ; utime ' m xtime"]) % r.randrange(0, 5), '.xtime')
            s.op('clear')
    for k in range(r.randrange(8, 16)):
        q = r.randrange(12)
        if q < 2:
            s.line(*[lit(r) for _ in range(r.randrange(0, 6))])
        elif q < 3:
            s.line(*['%d.5e' % r.randrange(-9, 9) for _ in range(r.randrange(0, 4))])
        elif q < 4:
            n = r.choice(['foo', 'Bar', 'é', 'x'])
            s.line(r.choice([': %s 1 ;', 'create %s', 'variable %s', '5 constant %s']) % n)
            us.append(n)
        elif q < 5:
            s.line(': tk%d %d 0 ?do tick loop ;' % (k, r.randrange(0, 3)), "utime ' tk%d xtime" % k, '.xtime')
        elif q < 6:
            s.line(r.choice(['nosuch', 'drop drop drop drop drop drop drop drop drop', 'abort', '1 0 /', '-1 @']))
            s.line(r.choice(['.error', 'error .', '.s', '.token'])) if r.random() < 0.5 else None
            s.op('reset')
        elif q < 7:
            s.line('marker mm 1 drop', ': zz 5 ;', '.s', 'mm', '.s', 'zz')
            s.op('reset')
        elif q < 8:
            s.line(': ins%d %s ; ins%d' % (k, ' '.join(r.choice([x for x in INSP if '%' not in x and "'" not in x and x != 'words'])
                                                      for _ in range(3)), k))
            s.op('reset')
        else:
            x = r.choice(INSP)
            if x == 'words' and r.random() < 0.7:
                x = '.s'
            s.line(x.replace('%s', r.choice(us)))
            s.op('reset')
        if r.random() < 0.25:
            s.op('clear')
    return s.s


GENS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12,
            C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23, shell=lambda r: retype(c19(r)))


def make(prop, seed, n, first=0):
    out = []
    for k in range(first, first + n):
        r = random.Random('%s/%d/%d' % (prop, seed, k))
        out.append(GENS[prop](r))
    return out

"""Which models, generators and fixed scripts decide which property."""
import os
from gen import Script
from vlib import SPECS


def spec_words():
    return open(os.path.join(SPECS, 'words.txt')).read().split()


#            quick, thorough number of random scripts
RANDOM = {p: (300, 4000) for p in ('C%02d' % i for i in range(1, 22))}
RANDOM.update({'C03': (300, 3000), 'C22': (250, 3000), 'C23': (250, 3000)})


def generators(prop, tier):
    a, b = RANDOM[prop]
    t = tier == 'thorough'
    return [(prop, b if t else a)] + ([('shell', 1500 if t else 120)] if prop == 'C19' else [])


HDR = '''BaseWords <- HdrWords
XtOf <- HdrXt
DSCap <- HdrCap
H0 <- HdrHere
GuardD <- HdrGuardD
GuardR <- HdrGuardR
GuardF <- HdrGuardF
'''


def cfg(inv, hdr=True, nl=8, lb=8, extra='', view=False, **consts):
    c = 'CONSTANTS\nNL = %d\nLB = %d\n' % (nl, lb)
    for k, v in consts.items():
        c += '%s = %s\n' % (k, {True: 'TRUE', False: 'FALSE'}.get(v, v) if isinstance(v, bool)
                            else '"%s"' % v if isinstance(v, str) else v)
    return c + extra + (HDR if hdr else '') + 'INIT Init\nNEXT Next\n%sINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % ('VIEW View\n' if view else '', inv)


def signed(limbs):
    x = sum(b << (8 * i) for i, b in enumerate(limbs))
    return x - (1 << 64) if x >> 63 else x


def groups(xs, n):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


def none(cases, rnd):
    return []


# ---------------------------------------------------------------- Cell, Loop
def cell_jobs(thorough):
    w = [(3, 2), (2, 3)] if thorough else [(2, 2), (4, 1)]
    return [dict(name='CellMC %dx%d bits' % (a, b), module='CellMC', workers=8 if thorough else 2,
                 bounds='all triples of %d-bit cells' % (a * b),
                 cfg=cfg('Codes Arith Order Logic Shifts Division Loops', False, a, b,
                         extra='DivLimit <- TinyDiv\n' if i else ''), scripts=none)
            for i, (a, b) in enumerate(w)]


# ---------------------------------------------------------------- ShuffleMC
def shuffle_scripts(side, limit):
    def f(cases, rnd):
        cs = [c[0] for c in cases]
        if limit and len(cs) > limit:
            cs = rnd.sample(cs, limit)
        res = []
        for g in groups(cs, 40):
            s = Script()
            for b in g:
                s.line(': t ' + ' '.join(b) + ' ;')
                if side == 'data':
                    s.line('11 -2 $7fffffffffffffff 0 $0102030405060708 -9223372036854775808 t')
                else:
                    s.line('1e 2.5e -3e 4e16 t')
                s.op('clear')
                if rnd.random() < 0.1 and not any(x in ('>r', 'r>', 'r@', '2>r', '2r>', '2r@') for x in b):
                    s.line(('1 22 333 4444 55555 666666 ' if side == 'data' else '1e 2.5e -3e 4e16 ') + ' '.join(b))
                    s.op('clear')
            res.append(s.s)
        return res
    return f


def shuffle_jobs(thorough):
    n = 4 if thorough else 3
    return [dict(name='ShuffleMC ' + side, module='ShuffleMC', header='mock', workers=4,
                 bounds='all sequences of up to %d shuffling words' % (n + (side == 'float')),
                 cfg=cfg('Same Emitted', MAXLEN=n + (side == 'float'), SIDE=side),
                 scripts=shuffle_scripts(side, 20000 if thorough else 5000))
            for side in ('data', 'float')]


# ---------------------------------------------------------------- ArithMC
def arith_scripts(cases, rnd):
    by = {}
    for a, b in cases:
        by.setdefault(signed(a), []).append(signed(b))
    res = []
    W2 = '+ - * and or xor < > = <> <= >= max min'.split()
    for a, bs in sorted(by.items()):
        s = Script()
        s.line(': x1 ' + ' '.join('2dup %s -rot' % w for w in W2) + ' ;')
        s.line(': x2 2dup / -rot 2dup mod -rot 2dup /mod 2swap ;')
        s.line(': x3 2dup 2dup within -rot 2dup over -rot within -rot 0 -rot 2dup within -rot 2drop ;')
        s.line(': u1 ' + ' '.join('dup %s swap' % w for w in
               '1+ 1- negate abs 2* 2/ invert 0< 0> 0= 0<> not aligned cell+ cells char+ chars'.split()) + ' ;')
        s.line(str(a) + ' u1')
        s.op('clear')
        for w in ('lshift', 'rshift'):
            for k in sorted(rnd.sample(range(64), 8) + [0, 1, 63]):
                s.line('%d %d %s' % (a, k, w))
            s.op('clear')
        for b in bs:
            s.line('%d %d x1' % (a, b))
            s.op('clear')
            s.line('%d %d x2' % (a, b))
            s.op('reset')
            s.op('clear')
            s.line('%d %d x3' % (a, b))
            s.op('clear')
        res.append(s.s)
    return res


def arith_jobs(thorough):
    return [dict(name='ArithMC', module='ArithMC', header='mock', workers=8,
                 bounds='all pairs of boundary operands', cfg=cfg('Laws Emitted', DEEP=thorough),
                 scripts=arith_scripts)]


# ---------------------------------------------------------------- CtrlMC
def pick(xs, n, rnd):
    return rnd.sample(xs, n) if n and len(xs) > n else xs


def ctrl_scripts(limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick([c[0] for c in cases], limit, rnd), 40):
            s = Script()
            s.line(': t 5 ;')
            for b in g:
                s.line(': t ' + ' '.join(b) + ' ;')
                s.op('reset')
                s.op('clear')
                s.line("' t .")
                s.op('clear')
            s.line(': u 0 if 1 else 7 then ; u .')
            res.append(s.s)
        return res
    return f


def ctrl_jobs(thorough):
    n = 5 if thorough else 4
    return [dict(name='CtrlMC', module='CtrlMC', header='mock', workers=8,
                 bounds='all strings of up to %d control words' % n,
                 cfg=cfg('Refused Ended Emitted', view=True, MAXLEN=n),
                 scripts=ctrl_scripts(20000 if thorough else 5000))]


# ---------------------------------------------------------------- ExecMC
def exec_scripts(limit):
    def f(cases, rnd):
        by = {}
        for d, l in cases:
            by.setdefault(' '.join(d), []).append(' '.join(l))
        res = []
        for g in groups(pick(sorted(by), limit, rnd), 6):
            s = Script()
            s.line(': ?more depth 2 > ;')
            for d in g:
                s.line(d)
                for l in pick(by[d], 9, rnd):
                    s.line(l + ' t')
                    s.op('clear')
            res.append(s.s)
        return res
    return f


def exec_jobs(thorough):
    b = [(1, 4, True), (2, 4, False), (2, 3, True)] if thorough else [(1, 4, True), (2, 3, False)]
    return [dict(name='ExecMC depth %d, %d flags' % (d, f), module='ExecMC', header='mock', workers=8 if thorough else 4,
                 bounds='all programs nested to depth %d (%s), all histories of %d flags' % (d, 'wide' if w else 'narrow', f),
                 cfg=cfg('Compiled Runs', view=True, DEPTH=d, FLAGS=f, WIDE=w), timeout=3000 if thorough else 600,
                 scripts=exec_scripts(4000 if thorough else 500))
            for d, f, w in b]


# ---------------------------------------------------------------- LoopMC
def loop_scripts(limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick([c[0] for c in cases], limit, rnd), 18):
            s = Script()
            for d in g:
                s.line(' '.join(d))
                s.line('8 0 t')
                s.op('clear')
            res.append(s.s)
        return res
    return f


def nset(xs):
    return '{%s}' % ', '.join(xs)


def loop_jobs(thorough):
    b = ([('one', ['zero', 'max', 'min'], range(6), range(7)), ('two', ['zero'], (1, 2, 3), (2, 5)),
          ('two', ['max'], (2, 3), (2, 4))] if thorough else
         [('one', ['zero', 'max', 'min'], range(1, 5), range(1, 6)), ('two', ['zero'], (2, 3), (2, 5))])
    return [dict(name='LoopMC ' + sh, module='LoopMC', header='mock', workers=8 if thorough else 4,
                 bounds='%s, limits and starts %s, steps loop and %s of +loop, 0 at %s' %
                 ('one loop' if sh == 'one' else 'two nested loops', [x - 2 for x in vs], [x - 3 for x in st], bs),
                 cfg=cfg('Runs', view=True, SHAPE=sh,
                         extra='BASES = %s\nVALS2 = %s\nSTEPS3 = %s\n' %
                         (nset('"%s"' % x for x in bs), nset(map(str, vs)), nset(map(str, st)))),
                 timeout=3000 if thorough else 600, scripts=loop_scripts(12000 if thorough else 2500))
            for sh, bs, vs, st in b]


# ---------------------------------------------------------------- RangeMC
def range_scripts(shape, limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick(cases, limit, rnd), 20):
            s = Script()
            if shape == 'ret':
                s.line(': t ; : deep dup if 1- recurse exit then drop t ;')
            for d, fd, ws in g:
                w = ' '.join(ws)
                fill = ' '.join(['%d' % (101 + i) for i in range(d)] + ['2e'] * fd)
                if shape == 'interp':
                    s.line(fill)
                    s.line(w)
                elif shape == 'comp':
                    s.line(': t %s ;' % w)
                    s.line(fill)
                    s.line('t')
                else:
                    s.line(': t %s ; : deep dup if 1- recurse exit then drop t ;' % w)
                    s.line('1 2 3 4 %d deep' % d)
                s.op('reset')
                s.op('clear')
                s.line('5 1e dup drop fdup fdrop ~')
                s.op('clear')
            res.append(s.s)
        return res
    return f


def range_jobs(thorough):
    b = [('interp', 3 if thorough else 2, (0, 1, 2, 3, 61, 62, 63, 64), (0, 1, 2, 62, 63, 64)),
         ('comp', 3 if thorough else 2, (0, 1, 2, 3, 61, 62, 63, 64), (0, 1, 2, 62, 63, 64)),
         ('ret', 4 if thorough else 3, (57, 58, 59, 60, 61, 62, 63), (0,))]
    return [dict(name='RangeMC ' + sh, module='RangeMC', header='mock', workers=8 if thorough else 3,
                 bounds='all programs of up to %d words from data depths %s, float depths %s' % (n, list(ds), list(fs)),
                 cfg=cfg('Detected Emitted', view=True, SHAPE=sh, LEN=n,
                         extra='DEPTHS = %s\nFDEPTHS = %s\n' % (nset(map(str, ds)), nset(map(str, fs)))),
                 timeout=3000 if thorough else 600,
                 scripts=range_scripts(sh, (8000 if thorough else 1200) if sh != 'ret' else 3000))
            for sh, n, ds, fs in b]


# ---------------------------------------------------------------- TaskMC
def task_scripts(limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick(cases, limit, rnd), 10):
            s = Script()
            s.line('variable fa 0 fa !')
            for c in g:
                for d in c:
                    s.line(' '.join(d))
                s.line('0 fa ! t2 t3 m')
                s.line('fa @')
                s.op('clear')
            res.append(s.s)
        return res
    return f


def task_jobs(which):
    def f(thorough):
        b = {'C14': [('scheduling', ('p s2 r2 x', 3), ('m p x s3', 2), ('p r1 r2', 2)),
                     ('activation', ('p a2 h3 r2', 3), ('m p x', 2), ('p a2 h2', 1))],
             'C15': [('facility', ('p g f', 3), ('g f p', 3), ('g f', 2)),
                     ('waiting', ('w1 w2 k p', 3), ('w1 w0 k', 2), ('k w2 p', 1))]}
        t = {'C14': [('scheduling', ('p s2 r2 x r3', 4), ('m p x s3', 2), ('p r1 r2 s1', 2)),
                     ('activation', ('p a2 h3 r2 s2', 4), ('m p x', 3), ('p a2 h2', 2))],
             'C15': [('facility', ('p g f', 4), ('g f p', 3), ('g f p x', 3)),
                     ('waiting', ('w1 w2 k p g', 3), ('w1 w0 k g f', 2), ('k w2 p g f', 2))]}
        res = []
        for name, *al in (t if thorough else b)[which]:
            extra = ''
            for k, (a, n) in enumerate(al):
                extra += 'AL%d = %s\nLN%d = %d\n' % (k + 1, nset('"%s"' % x for x in a.split()), k + 1, n)
            res.append(dict(name='TaskMC ' + name, module='TaskMC', header='mock', workers=8 if thorough else 4,
                            bounds='all programs: terminal %d of {%s}, task 2 %d of {%s}, task 3 %d of {%s}' %
                            tuple(x for a, n in al for x in (n, a)),
                            cfg=cfg('Scheduled', view=True, extra=extra), timeout=3000 if thorough else 600,
                            scripts=task_scripts(8000 if thorough else 1500)))
        return res
    return f


# ---------------------------------------------------------------- NumMC
def num_scripts(shape, limit):
    def f(cases, rnd):
        cs = pick([c[0] for c in cases], limit, rnd)
        res = []
        if shape == 'tokens':
            for g in groups(cs, 80):
                s = Script()
                for k, t in enumerate(g):
                    if k % 20 == 0:
                        s.line('#%d base !' % rnd.choice([2, 8, 10, 10, 16]))
                    s.s['items'].append(dict(op='line', t=list(t)))
                    s.op('clear')
                    if rnd.random() < 0.3:
                        s.op('reset')
                res.append(s.s)
        else:
            for g in groups(cs, 16):
                s = Script()
                for b in (2, 8, 10, 16):
                    s.line('#%d base !' % b)
                    for c, w in g:
                        s.line('#%d #%d .r' % (signed(c), w))
                        if rnd.random() < 0.3:
                            s.line('#%d .' % signed(c))
                res.append(s.s)
        return res
    return f


def num_jobs(thorough):
    full = (39, 43, 45, 46, 35, 36, 37, 48, 49, 55, 57, 97, 70, 71, 101)
    few = (39, 45, 46, 36, 37, 48, 49, 57, 97, 70, 101)
    b = [('tokens', 4, full), ('tokens', 5, few)] if thorough else [('tokens', 3, full), ('tokens', 4, few)]
    return [dict(name='NumMC ' + sh, module='NumMC', header='mock', workers=8 if thorough else 4,
                 bounds='all strings of up to %d of the characters %s, bases 2, 8, 10, 16' % (n, bytes(al).decode())
                 if sh == 'tokens' else 'boundary cells x widths x bases 2, 8, 10, 16, printed and read back',
                 cfg=cfg('Tokens Printed Emitted', view=True, SHAPE=sh, MAXLEN=n, extra='ALPHA = %s\n' % nset(map(str, al))),
                 timeout=3000 if thorough else 600, scripts=num_scripts(sh, 20000 if thorough else 4000))
            for sh, n, al in b + [('print', 1, (48,))]]


# ---------------------------------------------------------------- TextMC
def text_scripts(limit):
    def f(cases, rnd):
        by = {}
        for c, t in cases:
            by.setdefault(c, []).append(t)
        res = []
        for c in sorted(by):
            for g in groups(pick(by[c], limit, rnd), 30):
                s = Script()
                s.line(' '.join(': %s ." %s|" ;' % (n, n) for n in ('a', 'é', 'aa', 'aé', 'éa', 'éé')))
                s.line(': done 122 emit ; : pt parse .token 33 emit ; : ct depth if count type then ; : ty depth if type then ; : u ;')
                for t in g:
                    s.s['items'].append(dict(op='line', t=list(t)))
                    if c in ('squote', 'dotquote', '[char]'):
                        s.line('done ; u')
                        if c == 'squote':
                            s.line('ty')
                    elif c.startswith('word'):
                        s.line('ct')
                    s.op('reset')
                    s.op('clear')
                res.append(s.s)
        return res
    return f


def text_jobs(thorough):
    a, b = (6, 6) if thorough else (5, 5)
    return [dict(name='TextMC', module='TextMC', header='mock', workers=8,
                 bounds='every line of up to %d characters, and of up to %d behind each of 13 words that read text' % (a, b),
                 cfg=cfg('Split Emitted', view=True, MAXNONE=a, MAXLEN=b), timeout=3000 if thorough else 600,
                 scripts=text_scripts(2000 if thorough else 400))]


# ---------------------------------------------------------------- DictMC
def dict_scripts(limit):
    def f(cases, rnd):
        res = []
        for c, in pick(cases, limit, rnd):
            s = Script()
            for x in c:
                s.line(x)
                s.op('reset')
                s.op('clear')
            s.line('here')
            for x in ('xa', 'Y@', 'u', ': q 1 xA 2 ; 7 q', ': q 1 y@ 2 ; 7 q', "' xa", "' y@", "' m", "' n", ': xa 5 ; xa', ': y@ 6 ; y@'):
                s.line(x)
                s.op('reset')
                s.op('clear')
            res.append(s.s)
        return res
    return f


def dict_jobs(which):
    def f(thorough):
        every = 'Da DA Db Ra Rb Fa Fb Ua Ub M N X Y Ia Ca Ka'
        b = {'C07': [(4, 'Da DA Db Ra Fa Ua Ia Ca Ka')], 'C08': [(4, 'Da Db Ra Fa Ub M N X Y'), (5, 'Da Ra M N X Y')]}[which]
        if thorough:
            b = [(4, every), {'C07': (5, 'Da DA Db Ra Fa Ua Ia Ka'), 'C08': (6, 'Da Ra M N X Y')}[which]]
        return [dict(name='DictMC %d of %s' % (n, ops), module='DictMC', header='mock', workers=8 if thorough else 4,
                     bounds='all histories of %d operations' % n, timeout=3000 if thorough else 600,
                     cfg=cfg('Right Meaning Marks Emitted', view=True, MAXLEN=n,
                             extra='OPS = %s\n' % nset('"%s"' % x for x in ops.split())),
                     scripts=dict_scripts(6000 if thorough else 900 // len(b))) for n, ops in b]
    return f


# ---------------------------------------------------------------- DefMC
def def_scripts(limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick(cases, limit, rnd), 8):
            s = Script()
            s.line(': mk create , does> @ 1+ ; : mx create , , does> dup @ swap cell+ @ + ;')
            for ls, looks in g:
                for k, l in enumerate(ls):
                    s.line(l)
                    if looks and rnd.random() < 0.3:
                        s.line(rnd.choice(looks))
                        s.op('reset')
                    s.op('clear')
                for l in looks:
                    s.line(l)
                    s.op('clear')
                s.line('here')
                s.op('clear')
            res.append(s.s)
        return res
    return f


def def_jobs(thorough):
    every = 'c v cc vv fc fv cr cu fd de us ux odd code last first set'
    some = 'c v cr fc ux odd last first'
    return [dict(name='DefMC %d of %s' % (n, ops), module='DefMC', header='mock', workers=8 if thorough else 4,
                 bounds='all histories of %d operations' % n, timeout=3000 if thorough else 600,
                 cfg=cfg('NoError Deliver Own Emitted', view=True, MAXLEN=n,
                         extra='OPS = %s\n' % nset('"%s"' % x for x in ops.split())),
                 scripts=def_scripts(8000 if thorough else 1200))
            for n, ops in ([(4, every), (5, some)] if thorough else [(3, every), (4, some)])]


# ---------------------------------------------------------------- MemMC
def mem_scripts(shape, limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick([c[0] for c in cases], limit, rnd), 20):
            s = Script()
            s.line('create b 24 allot create z ' + ' '.join('%d c,' % i for i in range(1, 25)) + ' 99 constant g')
            s.line('z b 24 move')
            for ls in g:
                if shape == 'hist':
                    s.line('z b 24 move')
                elif shape == 'ptr':
                    s.line('create b')
                for l in ls:
                    s.line(l)
                    if shape == 'addr':
                        s.op('reset')
                    s.op('clear')
                if shape == 'hist':
                    s.line('b @ b 8 + @ b 16 + @ b 3 + @ b 5 + c@ b 8 + 2@ b 22 + count')
                elif shape == 'ptr':
                    s.line('here b @ b 8 + @ b 16 + @ b 1+ c@ here 1- c@')
                    s.op('reset')
                s.op('clear')
            s.line('b @ b 8 + @ b 16 + @ g z 16 + @ here')
            res.append(s.s)
        return res
    return f


def mem_jobs(thorough):
    d = lambda *xs: nset(str(x) for x in xs)
    b = [('hist', 1, d(*range(9)), d(*range(10)), 2000), ('hist', 2, d(0, 1, 2, 3, 4), d(1, 3, 4), 2000),
         ('addr', 1, d(0), d(1), 2000), ('ptr', 4, d(0), d(1), 1200)]
    if thorough:
        b[1] = ('hist', 2, d(*range(7)), d(*range(1, 8)), 12000)
        b[3] = ('ptr', 6, d(0), d(1), 8000)
        b.append(('hist', 3, d(0, 1, 3), d(2, 5), 12000))
    return [dict(name='MemMC %s %d' % (sh, n), module='MemMC', header='mock', workers=8 if thorough else 2,
                 bounds={'hist': 'all histories of %d stores, fills and moves (from and to %s, sizes %s)' % (n, fr, sz),
                         'addr': 'every memory word at every class of address and length',
                         'ptr': 'all histories of %d allocations' % n}[sh], timeout=3000 if thorough else 600,
                 cfg=cfg('AsWritten ReadBack Emitted', view=True, SHAPE=sh, MAXLEN=n,
                         extra='FROMS = %s\nSIZES = %s\n' % (fr, sz)),
                 scripts=mem_scripts(sh, lim)) for sh, n, fr, sz, lim in b]


# ---------------------------------------------------------------- FileMC
def file_scripts(limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick([c[0] for c in cases], limit, rnd), 10):
            s = Script(files=True)
            s.line('variable h1 variable h2 create bf 1 c, 2 c, 3 c, 4 c, 0 c, 0 c, 0 c, 0 c, bf @ constant bf0')
            s.line(': na s" fa" ; : nb s" fb" ; : ws s" hij" ; : wl s" KLMNO" ;')
            for ls in g:
                s.line('0 h1 ! 0 h2 ! bf0 bf !')
                for l in ls:
                    s.line(l)
                    s.op('clear')
                s.line('h1 @ h2 @ bf @')
                s.op('clear')
                s.line('h1 @ file-position h1 @ file-size h2 @ file-position h2 @ file-size')
                s.op('clear')
                s.line(' '.join('%d close-file drop' % i for i in range(1, 6)) + ' na delete-file nb delete-file')
                s.op('clear')
            res.append(s.s)
        return res
    return f


def file_jobs(thorough):
    every = 'Ca Cb Oa Pa Ob Qa Da Db ' + ' '.join(x + k for x in 'RWVZYTUSX' for k in '12')
    a = 'Ca Pa Oa Da R1 W1 V2 Z1 Y1 T1 U1 X1 R2 W2 X2 S1'
    b = 'R1 W1 Z1 T1 X1 R2 W2 Z2 U2 X2 Ca Db Ob S2'
    return [dict(name='FileMC %s %d' % (st, n), module='FileMC', header='mock', workers=8 if thorough else 3,
                 bounds='all histories of %d of the operations %s behind %s' % (n, ops, bg), timeout=3000 if thorough else 600,
                 cfg=cfg('AsFiles Emitted', view=True, MAXLEN=n,
                         extra='START <- %s\nOPS = %s\n' % (st, nset('"%s"' % x for x in ops.split()))),
                 scripts=file_scripts(8000 if thorough else 900))
            for st, bg, n, ops in [('StartN', 'nothing', 4 if thorough else 3, every),
                                   ('StartA', 'a file with two identifiers', 4 if thorough else 3, a),
                                   ('StartB', 'two open files', 5 if thorough else 4, b if thorough else 'R1 W1 Z1 T1 X1 R2 W2 Ob')]]


# ---------------------------------------------------------------- LabelMC
def label_scripts(limit):
    def f(cases, rnd):
        res = []
        a = [c for c in cases if c[1]]
        b = [c for c in cases if not c[1]]
        cs = pick(a, limit * 3 // 4, rnd) + pick(b, limit // 4, rnd)
        rnd.shuffle(cs)
        for g in groups(cs, 20):
            s = Script()
            s.line(': t 5 ;')
            for items, runs in g:
                s.line('0labels : t ' + ' '.join(items) + ' ;')
                s.op('reset')
                s.op('clear')
                for k in (rnd.sample(range(6), 2) if runs else [0]):
                    s.line('%d t' % k)
                    s.op('clear')
                if rnd.random() < 0.2:
                    s.line('0labels : u 1 [ 1 ] goto 2 [ 1 ] label 3 ; u t')
                    s.op('reset')
                    s.op('clear')
            res.append(s.s)
        return res
    return f


def label_jobs(thorough):
    every = 'L1 L2 G1 G2 C1 C2 K1 X Y'
    return [dict(name='LabelMC %d' % n, module='LabelMC', header='mock', workers=8 if thorough else 4,
                 bounds='all definitions of %d of the items %s' % (n, ops), timeout=3000 if thorough else 600,
                 cfg=cfg('Refused Accepted Runs Legal Emitted', view=True, MAXLEN=n,
                         extra='FUELS = {1, 4}\nITEMS = %s\n' % nset('"%s"' % x for x in ops.split())),
                 scripts=label_scripts(10000 if thorough else 1200))
            for n, ops in ([(5, every), (6, 'L1 G1 C1 K1 Y')] if thorough else [(4, every), (5, 'L1 G1 C1 K1')])]


# ---------------------------------------------------------------- ErrMC
ERR_PROBES = ['1 2 + . 3 4', ': p 3 0 do i . loop ; p', 'z @ . 6 z ! z @ .', '.s', '1e 2e f+ f. 5e', ': q1 7 ; q1 . : q2 8 ; q2',
              'source-id . source-idx .', 'compiling? . depth . error .', '5 pushes', 'then', 'drop', 'fdrop', 'nosuch',
              ': r 1 begin dup 5 < while 1+ repeat ; r', '1e fdup fswap fdrop fdrop', '1 2 swap drop drop', ': w 1 >r r> drop ; w']


def err_scripts(limit):
    def f(cases, rnd):
        res = []
        for h in ('bye', 'noop'):
            for g in groups(pick([c for c in cases if c[0] == h], limit, rnd), 8):
                s = Script(handler=h)
                s.line(': pushes 0 do i loop ; : fpushes 0 do 1e loop ; : deep dup if 1- recurse exit then drop ; variable z 5 z !')
                for _, ls in g:
                    for l in ls:
                        if l == '!reset':
                            if rnd.random() < 0.5:
                                s.line('error .')
                            s.op('reset')
                        else:
                            s.line(l)
                    for p in rnd.sample(ERR_PROBES, 4):
                        s.line(p)
                        s.op('reset')
                    s.op('clear')
                res.append(s.s)
        return res
    return f


def err_jobs(thorough):
    b = [(1, ['bye', 'noop'], ['abort'], range(1, 20)),
         (2, ['bye'], ['nosuch', '65 pushes', '64 fpushes 1e'], (2, 4, 5, 10, 11))]
    if thorough:
        b[1] = (2, ['bye', 'noop'], ['nosuch', '65 pushes', '64 fpushes 1e', 'abort', '1 0 /', '70 deep', 'exit', '-8 2@'], range(1, 20))
    return [dict(name='ErrMC %d' % n, module='ErrMC', header='mock', workers=8 if thorough else 4,
                 bounds='all faults in all contexts under the handlers %s%s' % (hs, '' if n == 1 else ', then one of %s' % se),
                 timeout=3000 if thorough else 600,
                 cfg=cfg('Raised Emptied Recovered Emitted', view=True, DEPTH=n,
                         extra='HANDLERS = %s\nSECOND = %s\nPROBES = %s\n' %
                         (nset('"%s"' % x for x in hs), nset('"%s"' % x for x in se), nset(map(str, pr)))),
                 scripts=err_scripts(8000 if thorough else 1000)) for n, hs, se, pr in b]


# ---------------------------------------------------------------- SrcMC
SRC_FILES = [('f', b'1 . 2 .\n3 .'), ('bad', b'1 .\n2 . nosuch 3 .\n'), ('up', b'4 . include bad 5 .\n'),
             ('ok', b'6 . include f 7 .\r\n'), ('tick', b"' abort execute")]


def src_scripts(shape, limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick(cases, limit, rnd), 20 if shape != 'hist' else 40):
            s = Script(handler='bye')
            if shape == 'hist':
                for n, b in SRC_FILES:
                    s.put(n, b)
                s.line(': inc 8 . s" f" included 7 . ;')
                s.line(': incbad 8 . s" bad" included 7 . ;')
            elif shape == 'direct':
                s.put('f', b'ab c\nd\r\n\ne f')
            for c in g:
                if shape == 'text':
                    s.put('g', bytes(c[1]))
                    for b in c[0][:1] if c[0][0] == c[0][1] else c[0]:
                        s.put('f', bytes(b))
                        for i in range(2 if rnd.random() < 0.2 else 1):
                            s.line('9 . include f 10 .')
                            s.op('reset')
                            s.op('clear')
                    continue
                if shape == 'direct':
                    s.line('variable s1 variable s2 : of s" f" 2dup r/o open-file drop open-source ;')
                for l in c[0]:
                    s.line(l)
                    s.op('reset')
                    s.op('clear')
                if shape == 'direct':
                    s.line('s1 @ close-source')
                    s.op('reset')
                    s.line('s2 @ close-source source-id .')
                    s.op('reset')
                    s.op('clear')
            res.append(s.s)
        return res
    return f


def src_jobs(thorough):
    b = ([('text', 3, True), ('text', 4, False), ('hist', 4, True), ('direct', 6, True)] if thorough else
         [('text', 2, True), ('text', 3, False), ('hist', 3, True), ('direct', 4, True)])
    what = {'text': 'all files of up to %d lines of %s kinds, with every second file', 'hist': 'all histories of %d including lines',
            'direct': 'all histories of %d openings, readings and closings'}
    return [dict(name='SrcMC %s %d%s' % (sh, n, '' if ev else ' few'), module='SrcMC', header='mock', workers=8,
                 bounds=what[sh] % ((n, 12 if ev else 7) if sh == 'text' else n), timeout=3000 if thorough else 600,
                 cfg=cfg('Inserted AsWritten Emitted', view=True, SHAPE=sh, MAXLEN=n, EVERY=ev),
                 scripts=src_scripts(sh, 8000 if thorough else 800)) for sh, n, ev in b]


# ---------------------------------------------------------------- ShellMC
def spec_table(module, name):
    """The table of lines a specification defines, as written there."""
    import re
    t = open(os.path.join(SPECS, module + '.tla')).read()
    t = t[t.index(name + ' =='):]
    t = t[:t.index(']')]
    return {k: re.findall(r'"([^"]*)"', v) for k, v in re.findall(r'(\w+) \|-> <<(.*?)>>(?:,|$)', t, re.S)}


def shell_scripts(times, limit):
    lines = {k: ' '.join(v) for k, v in spec_table('ShellMC', 'Lines').items()}

    def f(cases, rnd):
        res = []
        for c in pick(cases, limit, rnd):
            s = Script(handler='(abort)', mode='shell')
            for n, b in (('good', b'3 .s\ndrop\n'), ('bad', b'5\n6 nosuch 7\n'), ('deep', b'8 .s\ninclude bad\n9\n'),
                         ('half', b': x 6\n'), ('void', b''), ('tk', b'b1 8\np drop\n4\n')):
                s.put(n, b)
            s.line(': p pause ; variable n : look n @ . 0 n ! ;')
            s.line(': mk 2 activate begin 1 n +! pause again ;')
            s.line(': b1 2 activate 1 0 / ; : b4 2 activate quit ;')
            for i in range(times + 1):
                for l in c[0]:
                    s.line(lines[l])
            res.append(s.s)
        return res
    return f


def shell_jobs(thorough):
    every = ('two dots colon semi call undef div drop abort quit good bad deep half nofile void empty if noname addr late '
             'count sick ends pause resume tk').split()
    few = 'colon semi bad sick pause good undef half quit nofile'.split()
    b = ([(3, every, 0), (4, every[::2] + ['sick'], 0), (5, few, 0), (2, every, 70)] if thorough else
         [(2, every, 0), (3, [x for x in every if x not in 'dots void empty noname addr late div'.split()], 0), (4, few[:8], 0), (2, few, 34)])
    return [dict(name='ShellMC %d of %d%s' % (n, len(ls), ' x%d' % (k + 1) if k else ''), module='ShellMC', header='shell', workers=8,
                 bounds='all sequences of %d of the lines %s%s' % (n, ' '.join(ls), ', repeated %d times' % (k + 1) if k else ''),
                 timeout=4000 if thorough else 700,
                 cfg=cfg('Answered Emitted', view=True, MAXLEN=n, TIMES=k, extra='LINES_USED = %s\n' % nset('"%s"' % x for x in ls)),
                 scripts=shell_scripts(k, 6000 if thorough else 60 if k else 700)) for n, ls, k in b]


# ---------------------------------------------------------------- FloatMC
def eighths(n):
    return '%s%d.%03de' % ('-' if n < 0 else '', abs(n) // 8, abs(n) % 8 * 125)


def wide(u):
    n, e = signed(u[1]), u[2]
    t = '%d s>f' % (-n if u[0] else n)
    return t + (' %d s>f f/' % (1 << -e) if e < 0 else ' %d s>f f*' % (1 << e) if e else '')


def pattern(c):
    return '%d vb ! vb f@' % signed(c)


FW2 = ['f+', 'f-', 'f*', 'fmin', 'fmax', 'f<', 'f>', 'fover f- f+', 'fswap f/']
FW1 = ['fnegate', 'fabs', 'floor', 'fceil', 'fround', 'f>s', 'f0<', 'f0=']


def float_scripts(shape, limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick(cases, limit, rnd), 25 if shape == 'tokens' else 40):
            s = Script()
            s.line('fvariable v fvariable w fvariable vb')
            for n, c in enumerate(g):
                if shape == 'tokens':
                    t = bytes(c[0]).decode()
                    s.line(t)
                    s.op('reset')
                    s.op('clear')
                    s.line(': z %s ; z' % t)
                    s.op('reset')
                    s.op('clear')
                    continue
                x, y = (eighths(c[0]), eighths(c[1])) if shape == 'pairs' else (pattern(c[0]), pattern(c[1])) if shape == 'round' else (wide(c[0]), wide(c[1]))
                two = ' '.join('v f@ w f@ ' + w for w in FW2)
                one = ' '.join('%s f@ %s' % (a, w) for a in 'vw' for w in FW1 + (['fabs fsqrt'] if shape == 'round' else []))
                s.line('%s v f! %s w f!' % (x, y))
                if rnd.random() < 0.5:
                    s.line(': z%d %s ; z%d' % (n, two, n))
                else:
                    s.line(two)
                s.op('clear')
                if rnd.random() < 0.5:
                    s.line(one)
                    s.op('clear')
                if rnd.random() < 0.5:
                    s.line('%s %s %s %s f~ v f@ w f@ v f@ f~' % (x, y, rnd.choice([x, y, '0e', '-0.5e', '1e']), '' if shape == 'pairs' else 'fdup fdrop'))
                    s.op('clear')
            res.append(s.s)
        return res
    return f


def float_jobs(thorough):
    what = {'pairs': 'all pairs of eighths up to %d/8', 'wide': 'all pairs of numbers within 1 of a power of two up to 2^53, times some powers of two',
            'round': 'all pairs of numbers of 1 to 53 bits of six magnitudes, also subnormal ones: nearest double, ties to even',
            'tokens': 'all tokens of up to %d of the characters -+150.eE'}
    b = ([('pairs', 80, '0'), ('wide', 0, '0, 1, 3, 22, 30, 53, 54, 55, 58'), ('round', 0, '0, 1, 20, 960, 1074, 1080, 1130, 1990'), ('tokens', 6, '0')] if thorough else
         [('pairs', 20, '0'), ('wide', 0, '0, 53, 54'), ('round', 0, '0, 536'), ('round', 1, '1050, 1090'), ('tokens', 5, '0')])
    return [dict(name='FloatMC %s %d' % (sh, n), module='FloatMC', header='mock', workers=8, timeout=3000 if thorough else 600,
                 bounds=what[sh] % n if '%d' in what[sh] else what[sh],
                 cfg=cfg('Rationals Laws Rounded Tokens Emitted', view=True, SHAPE=sh, NN=n, extra='EXPS = {%s}\n' % ex),
                 scripts=float_scripts(sh, 20000 if thorough else dict(pairs=1000, wide=1500, round=600, tokens=2000)[sh])) for sh, n, ex in b]


# ---------------------------------------------------------------- RealMC
RW1 = ['fsin', 'fcos', 'ftan', 'fsincos', 'fatan', 'fasin', 'facos', 'fsqrt', 'mm', 'um', 'deg', 'rad', 'hr', 'minute', 'sec', 'msec', 'usec',
       'mm/min', 'mm/sec', 'um/msec', 'rpm', 'hz', '1/sec', 'meter']


def real_scripts(limit):
    def f(cases, rnd):
        res = []
        for g in groups(pick(cases, limit, rnd), 8):
            s = Script()
            s.line('fvariable vb')
            for c in g:
                x, y = pattern(c[0]), pattern(c[1])
                s.line(' '.join('%s %s' % (x, w) for w in rnd.sample(RW1, 3)))
                s.line('%s %s %s' % (x, y, rnd.choice(['fatan2', 'f**', 'fatan2', 'fswap f**'])))
                if rnd.random() < 0.3:
                    s.line(': z %s %s %s %s ; z' % (y, rnd.choice(RW1), x, rnd.choice(RW1)))
                s.op('clear')
            res.append(s.s)
        return res
    return f


def real_jobs(thorough):
    b = ([('big', 60, 1), ('laws', 40, 16), ('words', 40, 12)] if thorough else [('big', 12, 1), ('laws', 10, 8), ('words', 5, 5)])
    return [dict(name='RealMC %s %d' % (sh, n), module='RealMC', header='mock', workers=8, timeout=3000 if thorough else 600,
                 bounds={'big': 'naturals: all pairs up to %d and near powers of two up to 2^199' % n,
                         'laws': 'all pairs of angles up to %d/%d, logarithms up to %d' % (n, d, n),
                         'words': 'every word at all n/%d with |n| <= %d' % (d, n)}[sh],
                 cfg=cfg('BigLaws Laws Words Emitted', view=True, SHAPE=sh, NN=n, DEN=d),
                 scripts=real_scripts(600 if thorough else 120)) for sh, n, d in b]


# ---------------------------------------------------------------- InspectMC
def inspect_scripts(limit):
    def f(cases, rnd):
        res = []
        for ls, looks in pick(cases, limit, rnd):
            s = Script()
            s.line(': bt .backtrace ; : bu bt ; : bv 3 bu drop ;')
            s.line(': tw 0 ?do tick loop ;')
            for l in ls:
                if l in ('!reset', '!clear'):
                    s.op(l[1:])
                    continue
                s.line(l)
                if rnd.random() < 0.15:
                    s.line(rnd.choice(looks[:2] + looks[4:]))
                    s.op('reset')
            for l in looks:
                if l != 'words' or rnd.random() < 0.3:
                    s.line(l)
            s.op('clear')
            res.append(s.s)
        return res
    return f


def inspect_jobs(thorough):
    ops = 'push drop float colon create again time1 time3 clear marker unmark hidden zero'
    few = 'push float create again time1 time3 marker unmark hidden'
    return [dict(name='InspectMC %d of %s' % (n, o), module='InspectMC', header='mock', workers=8, timeout=3000 if thorough else 600,
                 bounds='all histories of %d of the operations %s' % (n, o),
                 cfg=cfg('NoError Shown Bodies Emitted', view=True, MAXLEN=n, extra='OPS = %s\n' % nset('"%s"' % x for x in o.split())),
                 scripts=inspect_scripts(6000 if thorough else 700))
            for n, o in ([(4, ops), (5, 'push create again time1 marker unmark hidden')] if thorough else [(3, ops)])]


# ---------------------------------------------------------------- EditMC
CHARS = {'a': 'a', 'sp': ' ', 'e2': 'é', 'z3': '中', 'p4': '😀', 'acc': '\u0301'}
OLD = [[], ['a'], ['a', 'é中'], ['中', 'a\u0301', '😀']]


def edit_scripts(limit):
    import gen

    def f(cases, rnd):
        res = []
        for pre in range(4):
            cs = pick([c for c in cases if c[0] == pre], limit, rnd)
            for g in groups(cs, 12):
                keys = []
                for c in g:
                    keys += [k for n in c[1] for k in (gen.typed(CHARS[n]) if n in CHARS else [dict(k=n)])] + [dict(k='enter')]
                res.append(gen.session(keys, args=[], hist=list(''.join(t + '\n' for t in OLD[pre]).encode())))
        return res
    return f


def edit_jobs(thorough):
    some = 'a e2 z3 bs left right up down enter'
    moves = 'a bs left up down enter'
    odd = 'e2 z3 p4 acc sp bs left right tab'
    b = ([(0, 6, some), (2, 6, some), (3, 6, some), (2, 8, moves), (1, 7, odd)] if thorough else
         [(0, 5, some), (2, 5, some), (3, 5, odd), (1, 6, moves)])
    return [dict(name='EditMC %d of %s behind %d lines' % (n, k, pre), module='EditMC', workers=4, timeout=3000 if thorough else 600, xmx='8g',
                 bounds='all sequences of %d of the keys %s behind a history of %d lines' % (n, k, pre),
                 cfg='CONSTANTS\nMAXLEN = %d\nPRE = %d\nKEYS_USED = %s\nINIT Init\nNEXT Next\n'
                     'INVARIANTS Shown Delivered History Kept Harmless Emitted\nCHECK_DEADLOCK FALSE\n'
                     % (n, pre, nset('"%s"' % x for x in k.split())),
                 scripts=edit_scripts(4000 if thorough else 400)) for pre, n, k in b]


JOBS = {
    'C23': [edit_jobs],
    'C21': [inspect_jobs],
    'C20': [float_jobs],
    'C22': [real_jobs],
    'C19': [shell_jobs],
    'C17': [src_jobs],
    'C11': [err_jobs],
    'C18': [label_jobs],
    'C16': [file_jobs],
    'C10': [mem_jobs],
    'C09': [def_jobs],
    'C07': [dict_jobs('C07')],
    'C08': [dict_jobs('C08')],
    'C13': [text_jobs],
    'C12': [num_jobs],
    'C14': [task_jobs('C14')],
    'C15': [task_jobs('C15')],
    'C01': [shuffle_jobs],
    'C02': [cell_jobs, arith_jobs],
    'C03': [range_jobs],
    'C04': [exec_jobs],
    'C05': [cell_jobs, loop_jobs],
    'C06': [ctrl_jobs],
}
# which exhaustive models a property has (for MANIFEST.json), and notes
MODEL_NAMES = {'C01': 'ShuffleMC', 'C02': 'CellMC, ArithMC', 'C03': 'RangeMC', 'C04': 'ExecMC',
               'C05': 'CellMC, LoopMC', 'C06': 'CtrlMC', 'C07': 'DictMC', 'C08': 'DictMC', 'C09': 'DefMC', 'C10': 'MemMC', 'C11': 'ErrMC', 'C12': 'NumMC', 'C13': 'TextMC', 'C14': 'TaskMC', 'C15': 'TaskMC', 'C16': 'FileMC', 'C17': 'SrcMC', 'C18': 'LabelMC', 'C19': 'ShellMC', 'C20': 'FloatMC', 'C21': 'InspectMC', 'C22': 'RealMC', 'C23': 'EditMC'}
NOTES = {}


def fixed(prop):
    return []


def jobs(prop, tier, seed):
    return [j for f in JOBS.get(prop, []) for j in f(tier == 'thorough')]


def real_shell(prop):
    return prop in ('C19', 'C23')

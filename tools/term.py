"""The real interactive shell on a pseudo terminal: plays keystrokes, records
what the terminal shows.

A session = {id, args: [words], hist: [bytes] or None, files: [{n, b}], keys: [key]};
a key = {"k": name, "b": bytes} (b only for "char").  The shell asks for the
cursor position after every key it has taken, and only then shows the new line,
so what is sent before such a question belongs to the keys before it: there are
no timeouts to wait for."""
import concurrent.futures, json, os, pty, select, shutil, subprocess, tempfile, time, fcntl, termios, struct, re, tty
from vlib import NPROC, VERIF, log

RTF = os.path.join(VERIF, 'rtfbin/target/debug/rtf')
SEQ = dict(enter=b'\r', bs=b'\x7f', left=b'\x1b[D', right=b'\x1b[C', up=b'\x1b[A', down=b'\x1b[B',
           eof=b'\x04', tab=b'\t', home=b'\x1b[H', end=b'\x1b[F', delete=b'\x1b[3~', ctrl_a=b'\x01', alt_x=b'\x1bx')
ASK = b'\x1b[6n'
ROW = 5
WIDE = ((0x1100, 0x115F), (0x2E80, 0xA4CF), (0xAC00, 0xD7A3), (0xF900, 0xFAFF), (0xFF00, 0xFF60),
        (0x1F300, 0x1FAFF))


def width(c):
    o = ord(c)
    if 0x300 <= o <= 0x36F:
        return 0
    return 2 if any(a <= o <= b for a, b in WIDE) else 1


def screen(b):
    """What a line of the terminal shows: (text, cursor column), or None."""
    try:
        s = b.decode('utf-8')
    except UnicodeDecodeError:
        return None
    cells, x, i = {}, 0, 0
    while i < len(s):
        if s[i] == '\x1b':
            m = re.compile(r'\x1b\[([0-9;]*)([A-Za-z])').match(s, i)
            if not m:
                return None
            p = [int(v) if v else 0 for v in m.group(1).split(';')]
            f = m.group(2)
            if f == 'K':
                lo, hi = {0: (x, 1 << 30), 1: (0, x + 1), 2: (0, 1 << 30)}.get(p[0], (0, 0))
                cells = {k: v for k, v in cells.items() if not lo <= k < hi}
            elif f == 'H':
                if (p[0] or 1) != ROW:
                    return None
                x = (p[1] or 1) - 1 if len(p) > 1 else 0
            elif f == 'G':
                x = (p[0] or 1) - 1
            elif f == 'C':
                x += p[0] or 1
            elif f == 'D':
                x = max(0, x - (p[0] or 1))
            else:
                return None
            i = m.end()
            continue
        if s[i] == '\r':
            x = 0
        elif s[i] == '\b':
            x = max(0, x - 1)
        elif ord(s[i]) < 32:
            return None
        else:
            w = width(s[i])
            if w == 0:
                k = max((k for k in cells if k < x), default=None)
                if k is None:
                    cells[-1] = cells.get(-1, '') + s[i]
                else:
                    cells[k] += s[i]
            else:
                cells[x] = s[i]
                x += w
        i += 1
    out, at = '', 0
    for k in sorted(cells):
        if k >= 0:
            out += ' ' * (k - at) + cells[k]
            at = k + sum(width(c) for c in cells[k])
        else:
            out += cells[k]
    return out.encode('utf-8'), x


class Lost(Exception):
    pass


def play(s, exe, home, limit=20.0):
    """One session.  Returns the events."""
    work = os.path.join(home, 'work')
    cache = os.path.join(home, '.cache')
    for d in (work, cache):
        os.makedirs(d)
        os.chmod(d, 0o777)
    hist = os.path.join(cache, 'rtforth', 'history.txt')
    if s.get('hist') is not None:
        os.mkdir(os.path.dirname(hist))
        os.chmod(os.path.dirname(hist), 0o777)
        with open(hist, 'wb') as f:
            f.write(bytes(s['hist']))
        os.chmod(hist, 0o666)
    for x in s.get('files', ()):
        p = os.path.join(work, bytes(x['n']).decode())
        with open(p, 'wb') as f:
            f.write(bytes(x['b']))
        os.chmod(p, 0o666)
    m, t = pty.openpty()
    fcntl.ioctl(t, termios.TIOCSWINSZ, struct.pack('HHHH', 50, 200, 0, 0))
    tty.setraw(t)
    kw = dict(user=65534, group=65534, extra_groups=[]) if os.geteuid() == 0 else {}
    env = dict(HOME=home, XDG_CACHE_HOME=cache, TERM='xterm', PATH='/usr/bin:/bin', RUST_BACKTRACE='0')
    p = subprocess.Popen([exe] + s.get('args', []), cwd=work, env=env, stdin=t, stdout=t, stderr=t,
                         start_new_session=True, **kw)
    os.close(t)
    buf, end = b'', False
    try:
        def ask():
            """Everything up to the next question (or the end)."""
            nonlocal buf, end
            t0 = time.time()
            while True:
                i = buf.find(ASK)
                if i >= 0:
                    seg, buf = buf[:i], buf[i + len(ASK):]
                    os.write(m, b'\x1b[%d;1R' % ROW)
                    return seg
                if end:
                    seg, buf = buf, b''
                    return seg
                r, _, _ = select.select([m], [], [], 1.0)
                if r:
                    try:
                        d = os.read(m, 65536)
                    except OSError:
                        d = b''
                    if not d:
                        end = True
                    buf += d
                elif time.time() - t0 > limit:
                    raise Lost(buf)
        ev, keys, seg = [], s['keys'], None
        try:
            for i, k in enumerate(keys):
                try:
                    os.write(m, bytes(k['b']) if k['k'] == 'char' else SEQ[k['k']])
                except OSError:     # the program has ended
                    pass
                if k['k'] == 'eof':
                    t0 = time.time()
                    while not end and time.time() - t0 < limit:
                        r, _, _ = select.select([m], [], [], 1.0)
                        if r:
                            try:
                                d = os.read(m, 65536)
                            except OSError:
                                d = b''
                            if not d:
                                end = True
                            buf += d
                    seg = buf
                    buf = b''
                else:
                    seg = ask()
                ev.append(seg)
                if end:
                    break
            if not end:
                raise Lost(buf)
        except Lost as x:
            return {'seg': [list(e) for e in ev], 'end': 'hang', 'last': list(x.args[0])[-400:]}
        except OSError:
            end = True
        try:
            rc = p.wait(5)
        except subprocess.TimeoutExpired:
            rc = -99
        h = None
        if os.path.exists(hist):
            with open(hist, 'rb') as f:
                h = f.read()
        return {'seg': [list(e) for e in ev], 'end': 'exit' if rc == 0 else 'crash', 'hist': None if h is None else list(h)}
    finally:
        if p.poll() is None:
            p.kill()
        p.wait()
        os.close(m)


def events(s, r):
    """[{k: start, out}, {k: key, text, col, out} ..., {k: exit, hist}]"""
    seg = r['seg']
    ev = [{'k': 'start', 'out': seg[0] if seg else []}]
    # what follows the question of key i, up to the next one, shows key i
    for i in range(1, len(seg)):
        b = bytes(seg[i])
        last = max([m.end() for m in re.finditer(rb'\x1b\[[0-9;]*[A-Za-z]', b)], default=0)
        sc = screen(b[:last])
        ev.append({'k': 'key', 'text': list(sc[0]) if sc else [0], 'col': sc[1] if sc else -1, 'out': list(b[last:])})
    e = {'k': r['end'], 'hist': r.get('hist') or []}
    if r['end'] == 'hang':
        e['last'] = r['last']
    ev.append(e)
    return ev


def run(sessions):
    d = tempfile.mkdtemp(prefix='rtf.', dir='/tmp')
    os.chmod(d, 0o755)
    try:
        exe = os.path.join(d, 'rtf')
        shutil.copy(RTF, exe)
        os.chmod(exe, 0o755)

        def one(s):
            for attempt in range(6):
                home = os.path.join(d, '%d.%d' % (s['id'], attempt))
                os.mkdir(home)
                os.chmod(home, 0o777)
                try:
                    r = play(s, exe, home)
                finally:
                    shutil.rmtree(home, ignore_errors=True)
                # our answer to the question of the cursor position came too late
                if any(b'cursor position could not be read' in bytes(x) for x in r['seg'][-2:]):
                    continue
                break
            return events(s, r)
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(one, sessions))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def typed(s):
    return [{'k': 'char', 'b': list(c.encode('utf-8'))} for c in s]


def K(name):
    return {'k': name}


if __name__ == '__main__':
    import sys
    s = dict(id=0, args=sys.argv[1:], hist=list(b'old one\n'), keys=typed('.( aé中x') + [K('left'), K('bs'), K('enter')] + typed('1 2 + . nosuch')
             + [K('enter'), K('up'), K('up'), K('up'), K('enter'), K('eof')])
    for e in run([s])[0]:
        print({k: (bytes(v) if isinstance(v, list) else v) for k, v in e.items()})

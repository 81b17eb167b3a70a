"""play.py PROGRAM HOME CASE: lines of CASE are `hist TEXT` (a line of the history
file), `file NAME TEXT` (\\n is a newline), `args WORDS`, `run` (start the program,
again) or keys to type, with <left> <right> <up> <down> <bs> <enter> <eof> <tab>."""
import fcntl, os, pty, re, select, shutil, struct, subprocess, sys, termios, time, tty
exe, home, case = sys.argv[1:]
SEQ = {'enter': b'\r', 'bs': b'\x7f', 'left': b'\x1b[D', 'right': b'\x1b[C', 'up': b'\x1b[A', 'down': b'\x1b[B', 'eof': b'\x04', 'tab': b'\t',
       'alt': b'\x1bx', 'ctrl': b'\x01', 'home': b'\x1b[H'}
ASK = b'\x1b[6n'
hist = os.path.join(home, '.cache/rtforth/history.txt')
args, keys, runs = [], [], []
for l in open(case, encoding='utf-8'):
    l = l.rstrip('\n')
    if l.startswith('hist '):
        os.makedirs(os.path.dirname(hist), exist_ok=True)
        open(hist, 'a').write(l[5:] + '\n')
    elif l.startswith('file '):
        n, t = l[5:].split(' ', 1)
        open(os.path.join(home, 'run', n), 'w').write(t.replace('\\n', '\n'))
    elif l.startswith('args '):
        args = l[5:].split()
    elif l == 'run':
        runs.append((args, keys))
        args, keys = [], []
    else:
        for t in re.findall(r'<[a-z]+>|.', l):
            keys.append(SEQ[t[1:-1]] if len(t) > 1 else t.encode())
runs.append((args, keys))
for args, keys in runs:
    for attempt in range(5):
        m, t = pty.openpty()
        fcntl.ioctl(t, termios.TIOCSWINSZ, struct.pack('HHHH', 50, 200, 0, 0))
        tty.setraw(t)
        p = subprocess.Popen([exe] + args, cwd=os.path.join(home, 'run'), stdin=t, stdout=t, stderr=t, start_new_session=True,
                             env=dict(HOME=home, XDG_CACHE_HOME=os.path.join(home, '.cache'), TERM='xterm', PATH='/usr/bin:/bin'))
        os.close(t)
        buf, end, got = b'', False, []

        def more():
            global buf, end
            r, _, _ = select.select([m], [], [], 20)
            d = b''
            if r:
                try:
                    d = os.read(m, 65536)
                except OSError:
                    pass
            else:
                got.append(b'NO ANSWER')
            end = end or not d
            buf += d
        for k in keys:
            try:
                os.write(m, k)
            except OSError:
                pass
            while not end and (k == b'\x04' or ASK not in buf):
                more()
            if end:
                break
            a, buf = buf.split(ASK, 1)
            got.append(a)
            os.write(m, b'\x1b[5;1R')
        if end:
            got.append(buf)
        else:
            got.append(b'STILL RUNNING')
        p.kill()
        p.wait()
        os.close(m)
        if not any(b'could not be read' in x for x in got):
            break
    for x in got:
        print(repr(x))
    print('history', open(hist, 'rb').read() if os.path.exists(hist) else None)

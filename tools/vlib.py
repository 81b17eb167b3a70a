"""Shared machinery: build the harness, run scripts on the real code, let TLC
compare the recorded traces with the specification."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
SPECS = os.path.join(VERIF, 'specs')
WORK = os.path.join(VERIF, 'work')
BIN = os.path.join(HARNESS, 'target/debug/rtfh')
RTFBIN = os.path.join(VERIF, 'rtfbin')
TLCJ = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def source_hash():
    h = hashlib.sha256()
    for root in (REPO, HARNESS, RTFBIN):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.fth', '.toml', '.lock')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, 'rb') as g:
                        h.update(g.read())
    return h.hexdigest()


def build(shell=False):
    """Rebuild the harness (and the interactive program) against the current tree of /repo."""
    os.makedirs(WORK, exist_ok=True)
    want = source_hash()
    build_in(HARNESS, BIN, want)
    if shell:
        build_in(RTFBIN, os.path.join(RTFBIN, 'target/debug/rtf'), want)


def build_in(crate, exe, want):
    stamp = os.path.join(crate, 'target', '.source-hash')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    # never trust time stamps of a copied tree (two layouts of cargo's target)
    for sub in ('.fingerprint', 'build', 'deps', 'incremental'):
        fp = os.path.join(crate, 'target/debug', sub)
        for x in os.listdir(fp) if os.path.isdir(fp) else ():
            if x.startswith('rtf'):
                p = os.path.join(fp, x)
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
    if os.path.exists(exe):
        os.unlink(exe)
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    env.setdefault('RUSTUP_TOOLCHAIN', 'nightly-x86_64-unknown-linux-gnu')
    env.pop('RUSTFLAGS', None)
    env.pop('CARGO_TARGET_DIR', None)
    t = time.time()
    for attempt in (1, 2):
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=crate, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        if attempt == 1:
            env.pop('RUSTUP_TOOLCHAIN')
    if p.returncode != 0 or not os.path.exists(exe):
        log(p.stdout[-6000:])
        raise RuntimeError('%s does not build against /repo' % crate)
    with open(stamp, 'w') as f:
        f.write(want)
    log('built %s in %.1fs' % (crate, time.time() - t))


def header(mode):
    p = subprocess.run([BIN, 'header', mode], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    if p.returncode != 0:
        return None
    h = json.loads(p.stdout.decode('utf-8', 'replace').strip().splitlines()[-1])
    h['xt'] = {}
    for i, w in enumerate(h['words']):
        if i > 0:
            h['xt'][w['n']] = i
    return h


# ---------------------------------------------------------------- running
def run_scripts(scripts, limit=600):
    """Run every script on the real machine.  Returns the list of event lists."""
    d = tempfile.mkdtemp(prefix='rtfh.', dir='/tmp')
    os.chmod(d, 0o777)
    try:
        exe = os.path.join(d, 'rtfh')
        shutil.copy(BIN, exe)
        os.chmod(exe, 0o755)
        sf = os.path.join(d, 'scripts')
        with open(sf, 'w') as f:
            for s in scripts:
                f.write(json.dumps(s, separators=(',', ':')) + '\n')
        kw = {}
        if os.geteuid() == 0:
            try:
                if subprocess.run([exe, 'header', 'mock'], user=65534, group=65534, extra_groups=[],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                    kw = dict(user=65534, group=65534, extra_groups=[])
            except Exception:
                kw = {}
        step = NPROC
        ev = [None] * len(scripts)
        t0 = time.time()
        restarts = [0] * step

        def start(w, frm):
            wd = os.path.join(d, 'w%d' % w)
            if not os.path.isdir(wd):
                os.mkdir(wd)
            os.chmod(wd, 0o777)
            return subprocess.Popen([exe, 'run', sf, os.path.join(wd, 'out'), wd, str(frm), str(step),
                                     os.path.join(wd, 'now')], cwd=wd,
                                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw)
        procs = {w: start(w, w) for w in range(step) if w < len(scripts)}
        while procs:
            for w, p in list(procs.items()):
                rc = p.poll()
                if rc is None:
                    continue
                del procs[w]
                nowf = os.path.join(d, 'w%d' % w, 'now')
                now = int(open(nowf).read() or '-2') if os.path.exists(nowf) else -2
                if rc == 0 and now == -1:
                    continue
                if now < 0:
                    raise RuntimeError('harness worker failed: rc=%s' % rc)
                ev[now] = [{'k': 'start', 'start': [0] * 8, 'tm': [0] * 8, 'tu': [0] * 8},
                           {'k': 'hang'} if rc == 77 else {'k': 'crash', 'msg': 'process ended with %s' % rc}]
                restarts[w] += 1
                if now + step < len(scripts) and restarts[w] < 30:
                    procs[w] = start(w, now + step)
            if time.time() - t0 > limit:
                for p in procs.values():
                    p.kill()
                    p.wait()
                log('harness: out of time')
                break
            time.sleep(0.01)
        for w in range(step):
            o = os.path.join(d, 'w%d' % w, 'out')
            if os.path.exists(o):
                for l in open(o):
                    try:
                        r = json.loads(l)
                    except ValueError:
                        continue
                    ev[r['i']] = r['ev']
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, workers=NPROC, timeout=800, xmx='6g', extra=(), cwd=SPECS, out=None):
    meta = tempfile.mkdtemp(prefix='tlc.', dir='/tmp')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + xmx, '-cp', TLCJ, 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE', '-nowarning']
    if cfg:
        cmd += ['-config', cfg]
    cmd += list(extra) + [module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        rc, txt = p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        rc, txt = -1, (x.stdout or b'').decode('utf-8', 'replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, txt, time.time() - t


def stats(txt):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', txt)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(',', '')), int(b.replace(',', ''))


def prints(txt):
    """The <<"TAG", id, n, ...>> tuples printed by a trace specification."""
    res = []
    pos = 0
    for m in re.finditer(r'<<\s*"(ACCEPT|SKIP|REJECT)",\s*(-?\d+),\s*(-?\d+),\s*', txt):
        if m.start() < pos:
            continue
        i, depth, instr = m.start(), 0, False
        while i < len(txt):
            c = txt[i]
            if instr:
                if c == '\\':
                    i += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif txt.startswith('<<', i):
                depth += 1
                i += 1
            elif txt.startswith('>>', i):
                depth -= 1
                i += 1
                if depth == 0:
                    break
            i += 1
        pos = i
        res.append((m.group(1), int(m.group(2)), int(m.group(3)), ' '.join(txt[m.end():i - 1].split())))
    return res


def term_start(ev, hdr):
    """Where the data space of the program lies: its first line was `here .`"""
    h = 0
    for e in ev:
        m = re.match(r'^ *(\d+) ', bytes(e.get('out') or []).decode('utf-8', 'replace'))
        if m:
            h = int(m.group(1)) - hdr['here']
            break
    return list((h % (1 << 64)).to_bytes(8, 'little'))


class Validation:
    def __init__(self):
        self.accept, self.skip, self.reject, self.lost = {}, {}, {}, {}
        self.states = self.distinct = 0
        self.seconds = 0.0
        self.error = None


def validate(scripts, events, hdr, mode, timeout=800, small=False):
    """Compare traces with the specification.  Every script has a distinct integer id."""
    res = Validation()
    todo = []
    for s, ev in zip(scripts, events):
        if ev is None:
            res.lost[s['id']] = 'not run'
        else:
            if mode == 'rtf':
                t = dict(id=s['id'], mode=mode, handler=s['xt'], files=s['files'], args=list(''.join(
                    a + ' ' for a in s['args']).encode()), hist=s['hist'] or [], keys=s['keys'], ev=ev,
                         start=term_start(ev, hdr))
            else:
                t = dict(id=s['id'], mode=s['mode'], handler=s['xt'], files=bool(s.get('files')),
                         items=s['items'], ev=ev)
            t = json.dumps(t, separators=(',', ':'))
            todo.append((s['id'], t))
    if not todo:
        return res
    size = sum(len(t) for _, t in todo)
    n = max(1, min(NPROC, len(todo), size // 300000 + 1))
    if small:
        n = min(len(todo), 40)
    d = tempfile.mkdtemp(prefix='val.', dir='/tmp')
    t0 = time.time()
    try:
        def shard(k):
            dk = os.path.join(d, str(k))
            os.mkdir(dk)
            for x in os.listdir(SPECS):
                os.symlink(os.path.join(SPECS, x), os.path.join(dk, x))
            json.dump(hdr, open(os.path.join(dk, 'header.json'), 'w'))
            with open(os.path.join(dk, 'traces.ndjson'), 'w') as f:
                for _, t in todo[k::n]:
                    f.write(t + '\n')
            spec = 'RtfTrace' if mode == 'rtf' else 'RtForthTrace'
            return tlc(spec + '.tla', spec + '.cfg', timeout=timeout, cwd=dk,
                       workers=1 if n > 1 else 2, xmx='3g')
        with concurrent.futures.ThreadPoolExecutor(min(n, NPROC)) as ex:
            outs = list(ex.map(shard, range(n)))
        res.txt = ''
        for rc, txt, sec in outs:
            a, b = stats(txt)
            res.states += a
            res.distinct += b
            res.txt += txt
            for tag, i, k, rest in prints(txt):
                if tag == 'ACCEPT':
                    if rest.startswith('TRUE'):
                        res.reject[i] = (k, 'events left over')
                    else:
                        res.accept[i] = k
                elif tag == 'SKIP':
                    res.skip[i] = (k, rest)
                else:
                    res.reject[i] = (k, rest)
            if rc != 0 or 'Error:' in txt:
                res.error = txt[-4000:]
        known = set(res.accept) | set(res.skip) | set(res.reject)
        for i, _ in todo:
            if i not in known:
                res.lost[i] = 'no verdict'
        res.seconds = time.time() - t0
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first_error(txt):
    m = re.search(r'Error: .*(?:\n.*){0,6}', txt)
    return ' '.join(m.group(0).split())[:700] if m else 'no verdict (out of time or memory)'


def value(txt, i=0):
    """Parse a TLA+ value made of tuples, strings, integers and booleans."""
    while txt[i] in ' \n\t\r':
        i += 1
    if txt.startswith('<<', i):
        res = []
        i += 2
        while True:
            while txt[i] in ' \n\t\r,':
                i += 1
            if txt.startswith('>>', i):
                return res, i + 2
            x, i = value(txt, i)
            res.append(x)
    if txt[i] == '"':
        j, out = i + 1, []
        while txt[j] != '"':
            if txt[j] == '\\':
                j += 1
                out.append({'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(txt[j], txt[j]))
            else:
                out.append(txt[j])
            j += 1
        return ''.join(out), j + 1
    m = re.compile(r'-?\d+|TRUE|FALSE').match(txt, i)
    x = m.group(0)
    return (x == 'TRUE' if x[0] in 'TF' else int(x)), m.end()


def tagged(txt, tag):
    """All printed tuples <<"tag", ...>> (without the tag)."""
    res = []
    for m in re.finditer(r'^<<\s*"%s",' % tag, txt, re.M):
        try:
            v, _ = value(txt, m.start())
            res.append(v[1:])
        except (IndexError, AttributeError):
            continue
    return res


def line(s):
    return dict(op='line', t=list(s.encode('utf-8')))

#!/usr/bin/env python3
"""Make planted bugs from a list:  seed.py LIST.py [ids...]
LIST.py defines BUGS = [dict(id, property, edits=[(file, old, new)], case, needs, breaks)].
Works on a scratch copy of /repo; keeps what compiles, passes the stable tests and
is shown by its demonstration."""
import json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, 'tools/seedkit')
SW = '/tmp/sw'
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)


def tests():
    p = sh('cd %s && timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8' % SW)
    bad = re.findall(r'^test (\S+) \.\.\. FAILED', p.stdout, re.M)
    ok = re.findall(r'^test (\S+) \.\.\. ok', p.stdout, re.M)
    names = {x.split('::', 1)[1] for x in STABLE}
    miss = sorted(n for n in names if n not in ok)
    return miss, p.stdout


def main():
    if not os.path.isdir(SW):
        subprocess.check_call(['cp', '-a', '/repo', SW])
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only:
            continue
        dst = os.path.join(V, 'seeded', b['id'])
        if not only and os.path.exists(os.path.join(dst, 'meta.json')):
            continue
        sh('git -C %s fetch -q /repo && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq' % (SW, SW, SW))
        os.makedirs(dst, exist_ok=True)
        kit = KIT + '_tty' if b.get('tty') else KIT
        for f in os.listdir(kit):
            shutil.copy(os.path.join(kit, f), dst)
        open(os.path.join(dst, 'case.txt'), 'w').write(b['case'].strip('\n') + '\n')
        p = sh('cd %s && REBASE=1 bash %s/demo.sh' % (SW, dst))
        if p.returncode:
            print(b['id'], 'DEMO FAILS ON CLEAN TREE', p.stdout[-300:]); shutil.rmtree(dst); continue
        for f, old, new in b['edits']:
            t = open(os.path.join(SW, f)).read()
            if t.count(old) != 1:
                print(b['id'], 'edit matches %d times in %s: %r' % (t.count(old), f, old[:80])); break
            open(os.path.join(SW, f), 'w').write(t.replace(old, new))
        else:
            miss, out = tests()
            if miss:
                print(b['id'], 'TESTS FAIL', miss[:5], out[-300:] if 'error' in out else ''); shutil.rmtree(dst); continue
            p = sh('cd %s && bash %s/demo.sh' % (SW, dst))
            if p.returncode == 0:
                print(b['id'], 'DEMO DOES NOT SEE IT', open(dst + '/expect.txt').read()); shutil.rmtree(dst); continue
            d = sh('git -C %s diff' % SW).stdout
            open(os.path.join(dst, 'patch.diff'), 'w').write(d)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
            print(b['id'], 'kept;', 'rc', p.returncode)
            print('   ' + '\n   '.join(p.stdout.strip().splitlines()[-8:])[:900], flush=True)
            continue
        shutil.rmtree(dst)
    sh('git -C %s checkout -q -f .' % SW)


main()

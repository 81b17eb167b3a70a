#!/usr/bin/env python3
"""One check:  run.py <property id>   (VERIF_SEED, VERIF_TIER in the environment)

1. build the harness against the current tree of /repo
2. TLC explores the property's model (specs/*MC.tla) exhaustively within its
   bounds and prints the behaviours it explored as scripts
3. those scripts, and seeded random ones, run on the real virtual machine
4. TLC checks every recorded execution against specs/RtForth.tla

Exit 0: everything explored conforms.  Exit 1 and a VIOLATION line otherwise."""
import concurrent.futures, glob, hashlib, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, models, term
from vlib import *

REPLAY = os.path.join(WORK, 'replay')


def show(items):
    out = []
    if items and 'k' in items[0]:       # keys
        for k in items:
            out.append(bytes(k['b']).decode() if k['k'] == 'char' else '<%s>' % k['k'])
        return [''.join(out)]
    for it in items:
        if it['op'] == 'line':
            out.append(bytes(it['t']).decode('utf-8', 'replace'))
        else:
            out.append('!' + it['op'] + (' ' + bytes(it['n']).decode('utf-8', 'replace') if 'n' in it else ''))
    return out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.viol = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.known_lines = []

    def violation(self, what, data):
        os.makedirs(REPLAY, exist_ok=True)
        p = os.path.join(REPLAY, '%s-%d.json' % (self.prop, len(self.viol)))
        with open(p, 'w') as f:
            json.dump(dict(property=self.prop, what=what, **data), f, indent=1)
        self.viol.append((what, p))

    # ------------------------------------------------------------ models
    def model(self, job):
        """Exhaustive TLC run of one model; returns its cases."""
        d = tempfile.mkdtemp(prefix='mc.', dir='/tmp')
        try:
            for x in os.listdir(SPECS):
                os.symlink(os.path.join(SPECS, x), os.path.join(d, x))
            if job.get('header'):
                json.dump(self.hdr[job['header']], open(os.path.join(d, 'header.json'), 'w'))
            with open(os.path.join(d, 'MC.cfg'), 'w') as f:
                f.write(job['cfg'])
            return tlc(job['module'] + '.tla', 'MC.cfg', cwd=d, workers=job.get('workers', 2),
                       timeout=job.get('timeout', 700), xmx=job.get('xmx', '4g'))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def models(self):
        jobs = models.jobs(self.prop, self.tier, self.seed)
        cases = []
        info = []
        if not jobs:
            return cases, info
        with concurrent.futures.ThreadPoolExecutor(min(4, len(jobs))) as ex:
            outs = list(ex.map(self.model, jobs))
        for job, (rc, txt, sec) in zip(jobs, outs):
            a, b = stats(txt)
            self.cov['states'] += b
            self.cov['transitions'] += a
            if rc != 0 or 'Model checking completed. No error has been found' not in txt:
                self.violation('the model %s is refuted or broken: %s' % (job['module'], first_error(txt)),
                               dict(tlc=txt[-8000:], cfg=job['cfg']))
                continue
            c = tagged(txt, 'SCRIPT')
            info.append(dict(model=job['name'], bounds=job.get('bounds', ''), states=b, transitions=a,
                             behaviours_printed=len(c), seconds=round(sec, 1)))
            cases.append((job, c))
        return cases, info

    # ------------------------------------------------------------ traces
    def traces(self, scripts):
        """Run scripts on the code, validate with TLC."""
        tot = Validation()
        skips = {}
        for mode in ('mock', 'shell', 'rtf'):
            sel = [s for s in scripts if s['mode'] == mode]
            if not sel:
                continue
            h = self.hdr[mode]
            ok = []
            for s in sel:
                if s['handler'] not in h['xt']:
                    self.violation('word %s is missing' % s['handler'], {})
                    return tot, skips
                s['xt'] = h['xt'][s['handler']]
                ok.append(s)
            t = time.time()
            ev = term.run(ok) if mode == 'rtf' else run_scripts(ok)
            self.t_run += time.time() - t
            v = validate(ok, ev, h, mode)
            tot.states += v.states
            tot.distinct += v.distinct
            tot.accept.update(v.accept)
            by = {s['id']: (s, e) for s, e in zip(ok, ev)}
            if v.lost:      # a shard died: find out who did it
                again = [by[i] for i in sorted(v.lost) if by[i][1] is not None][:400]
                for i in sorted(v.lost):
                    if by[i][1] is None:
                        self.violation('the code did not execute this script', dict(
                            script=by[i][0], text=show(by[i][0]['items'])))
                while again:
                    self.log('%d scripts without verdict, retrying' % len(again))
                    w = validate([a for a, _ in again], [b for _, b in again], h, mode, small=True)
                    tot.accept.update(w.accept)
                    v.reject.update(w.reject)
                    v.skip.update(w.skip)
                    left = [x for x in again if x[0]['id'] in w.lost]
                    if len(left) == len(again) or len(left) <= 8:
                        for a, b in left[:3]:
                            self.violation('the specification cannot evaluate this execution: ' +
                                           first_error(w.error or ''),
                                           dict(script=a, text=show(a['items']), events=b))
                        break
                    again = left
            for i, (k, what) in sorted(v.reject.items()):
                s, e = by[i]
                if len(e) >= 400 and k >= 400:      # the harness stopped recording here, all before it agrees
                    v.skip[i] = (k, 'longer than the record')
                    del v.reject[i]
                    continue
                if len(self.viol) < 20:
                    self.violation('the code does what the specification does not allow: ' + what[:1500],
                                   dict(script=s, item=k, text=show(s['items'][:k]), events=e))
            tot.reject.update(v.reject)
            for i, (k, what) in v.skip.items():
                skips[what] = skips.get(what, 0) + 1
                tot.skip[i] = (k, what)
        return tot, skips

    def known(self):
        """Replay the listed known findings of this property."""
        for f in sorted(glob.glob(os.path.join(VERIF, 'known', self.prop + '-*.json'))):
            k = json.load(open(f))
            s = dict(k['script'], id=0, xt=self.hdr[k['script']['mode']]['xt'][k['script']['handler']])
            ev = run_scripts([s])[0] or [{}]
            last = ev[-1]
            if all(last.get(a) == b for a, b in k['fails'].items()):
                self.known_lines.append('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))

    def log(self, *a):
        log('[%s %.0fs]' % (self.prop, time.time() - self.t0), *a)

    def run(self):
        self.t_run = 0
        build(shell=models.real_shell(self.prop))
        self.hdr = {m: header(m) for m in ('mock', 'shell', 'rtf')}
        need = ('mock', 'shell')
        bad = [m for m in need if self.hdr[m] is None]
        if bad:
            self.violation('the system does not start (%s)' % bad[0], {})
            return self.finish({}, [], Validation(), {}, 0)
        missing = sorted(set(models.spec_words()) - set(self.hdr['shell']['xt']))
        if missing:
            self.violation('words the specification describes are missing: %s' % ' '.join(missing), {})
            return self.finish({}, [], Validation(), {}, 0)
        cases, info = self.models()
        self.log('models done', info)
        scripts = []
        n_model = 0
        for job, c in cases:
            ss = job['scripts'](c, random.Random(self.seed * 1000003 + 17)) if c else []
            n_model += len(ss)
            scripts += ss
        scripts += models.fixed(self.prop)
        gens = models.generators(self.prop, self.tier)
        rnd = 0
        for g, n in gens:
            x = gen.make(g, self.seed, n)
            rnd += len(x)
            scripts += x
        for i, s in enumerate(scripts):
            s['id'] = i
        self.log('%d scripts' % len(scripts))
        v, skips = self.traces(scripts)
        self.known()
        self.finish(dict(models=info), scripts, v, skips, n_model)

    def finish(self, extra, scripts, v, skips, n_model):
        c = self.cov
        c['states'] += v.distinct
        c['transitions'] += v.states
        c['traces_validated_against_impl'] = len(v.accept)
        c['traces_from_models'] = n_model
        c['traces_given_up'] = skips
        c['traces_given_up_count'] = len(v.skip)
        c['traces_rejected'] = len(v.reject)
        c['trace_states'] = v.distinct
        c['seconds_running_code'] = round(self.t_run, 2)
        c.update(extra)
        r = random.Random(self.seed)
        for s in r.sample(scripts, min(4, len(scripts))):
            c['samples'].append(dict(handler=s['handler'], mode=s['mode'], text=show(s['items'])[:60],
                                     verdict='accepted' if s['id'] in v.accept else
                                     'given up: ' + v.skip[s['id']][1] if s['id'] in v.skip else 'rejected'))
        if not self.viol and len(v.accept) < max(1, 0.5 * len(scripts)):
            self.violation('fewer than half of the executions could be judged', dict(skips=skips))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=c,
                  assumptions=ASSUME, wall_s=round(time.time() - self.t0, 1), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for l in self.known_lines:
            print(l)
        for what, p in self.viol[:5]:
            log('  ' + what[:1200])
        for what, p in self.viol:
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        self.log('accepted %d, given up %d, rejected %d of %d' % (len(v.accept), len(v.skip), len(v.reject), len(scripts)))
        sys.stdout.flush()
        sys.exit(1 if self.viol else 0)


ASSUME = ['the harness observes the machine faithfully (public accessors, ring slots by get)',
          'one thread, little-endian 64-bit host',
          'the models are exhaustive only within the bounds given; random scripts sample beyond them']

if __name__ == '__main__':
    c = Check(sys.argv[1])
    try:
        c.run()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)

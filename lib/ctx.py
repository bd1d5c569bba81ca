"""What every check shares: seed and tier, evidence, violations and known findings."""
import json, os, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
import vm, tlc

VERIF = vm.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')

def known_keys(prop):
    """{key: description} of the listed (not repaired) findings of this property"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                k, _, d = rest.partition(' ')
                assert k.startswith('key=')
                res[k[4:]] = d
    return res

class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.quick = self.tier == 'quick'
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.parts = {}
        self.samples = []
        self.violations = []
        self.suspects = 0   # behaviours that failed so far
        self.known = known_keys(prop)
        self.seen_known = {}
        self.assumptions = []
        base = os.path.join(vm.CACHE, 'tmp')
        os.makedirs(base, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop, dir=base)

    def hurry(self):
        """something is broken and the run gets long: report that instead of exploring further"""
        return self.quick and self.suspects > 0 and time.time() - self.t0 > 150

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def add_model(self, name, res):
        self.cov['states'] += res['states']
        self.cov['transitions'] += res['transitions']
        self.parts.setdefault(name, {}).update(states=res['states'], transitions=res['transitions'],
                                               depth=res.get('depth'), exhaustive=res.get('complete', False))

    def add_traces(self, name, n, distinct=None, **kw):
        self.cov['traces_validated_against_impl'] += n
        p = self.parts.setdefault(name, {})
        p['traces'] = p.get('traces', 0) + n
        if distinct is not None:
            p['distinct'] = p.get('distinct', 0) + distinct
        p.update(kw)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def log(self, *a):
        print('[%s %.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def violation(self, what, replay, key=None):
        """key: identifies a known finding; listed ones are reported but do not fail"""
        if key is not None and key in self.known:
            self.seen_known.setdefault(key, what)
            return
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, replay=replay), f, indent=1, default=str)
        self.violations.append((what, path))
        if len(self.violations) <= 5:
            print('  ' + what[:1500], flush=True)
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    def finish(self):
        for k, d in self.known.items():
            if k in self.seen_known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, d))
            else:
                print('note: known finding %s was not seen in this run: %s' % (k, d))
        cov = dict(self.cov)
        cov['parts'] = self.parts
        cov['samples'] = self.samples
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.cleanup()
        self.log('done: %d states, %d transitions in the models, %d behaviours/traces against the code, %d violations' % (
            cov['states'], cov['transitions'], cov['traces_validated_against_impl'], len(self.violations)))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

class Hang(Exception):
    pass

def run_vm(build, classdir, main, args=(), timeout=120, vmargs=(), heap=None, stdin=None, cwd=None, env=None):
    """returns (rc, stdout, stderr); rc None on timeout"""
    cmd = [build.avian, '-cp', classdir] + (['-Xmx' + heap] if heap else []) + list(vmargs) + [main] + list(args)
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1')
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode('latin-1'), (e.stderr or b'').decode('latin-1')

def run_cmd(cmd, timeout, env=None, cwd=None):
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd,
                           env=dict(os.environ, **env) if env else None)
        return r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1')
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode('latin-1'), (e.stderr or b'').decode('latin-1')

def fmt(x):
    if x is True: return 'true'
    if x is False: return 'false'
    if isinstance(x, list): return '[' + ','.join(fmt(y) for y in x) + ']'
    return str(x)

class Replayer:
    """Replays behaviours through a Java driver.

    A behaviour is (header string, [(op string, expected string or None)]).  The driver prints, for
    each behaviour, one line with the results separated by ';'."""
    def __init__(self, ctx, build, classdir, main, timeout=150, heap=None, vmargs=(), env=None, binary_args=(), native=None):
        self.__dict__.update(locals())
        self.config = build.config if build else os.path.basename(native).rsplit('-', 1)[0]

    def _run(self, behs, tag):
        path = os.path.join(self.ctx.tmp, 'in-%s' % tag)
        with open(path, 'w') as f:
            for h, ops in behs:
                f.write(h + '\n')
                for o, _ in ops:
                    f.write(o + '\n')
                f.write('.\n')
        if self.native:
            rc, out, err = run_cmd([self.native, path] + list(self.binary_args), self.timeout, env=self.env)
        else:
            rc, out, err = run_vm(self.build, self.classdir, self.main, [path] + list(self.binary_args), self.timeout, heap=self.heap,
                                  vmargs=self.vmargs, env=self.env)
        os.unlink(path)
        return rc, out, err

    def _compare(self, behs, rc, out, err):
        """index of first failing behaviour, description; None if all fine"""
        lines = out.split('\n')
        fails = []
        for i, (h, ops) in enumerate(behs):
            if i >= len(lines) - 1:
                what = 'hangs' if rc is None else 'dies with exit code %s' % rc
                last = lines[-1] if lines else ''
                fails.append((i, 'the VM %s during the behaviour (after %d results: %s) stderr: %s' % (
                    what, last.count(';'), last[-200:], err[-600:])))
                return fails
            got = lines[i].split(';')
            got.pop()
            for j, (o, e) in enumerate(ops):
                g = got[j] if j < len(got) else '<missing>'
                if e is not None and g != e:
                    fails.append((i, 'step %d "%s": expected %s, the code gave %s' % (j, o, e[:400], g[:400])))
                    break
            else:
                if len(got) > len(ops):
                    fails.append((i, 'after the last step: the code reports %s' % got[len(ops):][0][:400]))
        if not fails and rc != 0:
            fails.append((len(behs) - 1, 'exit code %s after the last behaviour; stderr: %s' % (rc, err[-600:])))
        return fails

    def replay(self, behs, name, chunks=6, max_report=3, keyfn=None):
        """behs in parallel chunks; each failing behaviour is run again on its own before it is reported"""
        n = len(behs)
        if not n: return 0
        k = max(1, min(chunks, n))
        parts = [behs[i::k] for i in range(k)]
        def one(t):
            i, part = t
            res = []
            if self.ctx.hurry(): return []
            start = 0
            # continue after a crash so one crash does not hide the rest
            for attempt in range(4):
                sub = part[start:]
                if not sub: break
                rc, out, err = self._run(sub, '%s-%s-%d' % (name, self.config, i))
                fails = self._compare(sub, rc, out, err)
                res += [(start + a, b) for a, b in fails]
                self.ctx.suspects += sum(1 for a, b in fails if not (keyfn and keyfn(sub[a], b) in self.ctx.known))
                if self.ctx.hurry(): break
                if fails and 'the VM ' in fails[-1][1]:
                    start += fails[-1][0] + 1
                else:
                    break
            return [(part[a], part, a, b) for a, b in res]
        with ThreadPoolExecutor(min(k, 8)) as ex:
            allf = [x for r in ex.map(one, enumerate(parts)) for x in r]
        reported = 0
        for beh, part, idx, what in allf:
            if reported >= max_report or (self.ctx.hurry() and self.ctx.violations): break
            key = keyfn(beh, what) if keyfn else None
            if key is not None and key in self.ctx.known:
                self.ctx.violation(what, None, key)
                continue
            # confirm: alone, else with its predecessors
            rc, out, err = self._run([beh], '%s-%s-re' % (name, self.config))
            f = self._compare([beh], rc, out, err)
            group = [beh]
            if not f:
                group = part[:idx + 1]
                rc, out, err = self._run(group, '%s-%s-re' % (name, self.config))
                f = [x for x in self._compare(group, rc, out, err) if x[0] == idx]
            if not f:
                self.ctx.log('not repeated, ignored: %s' % what)
                continue
            h, ops = beh
            self.ctx.violation('%s [%s, %s]: behaviour "%s": %s' % (name, self.config, self.main, h, f[-1][1]),
                               dict(config=self.config, main=self.main, behaviour=[h] + [o for o, _ in ops],
                                    expected=[e for _, e in ops], preceded_by=len(group) - 1,
                                    group=[[hh] + [o for o, _ in oo] for hh, oo in group][-400:], what=f[-1][1]), key)
            reported += 1
        self.ctx.add_traces('%s/%s' % (name, self.config), n, distinct=len({(h, tuple(o for o, _ in ops)) for h, ops in behs}),
                            steps=sum(len(o) for _, o in behs))
        return len(allf)

def parallel(*fns):
    with ThreadPoolExecutor(len(fns)) as ex:
        return [f.result() for f in [ex.submit(fn) for fn in fns]]

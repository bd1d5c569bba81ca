"""Runs TLC: exhaustive checking, behaviour generation and trace validation."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
CACHE = os.path.join(VERIF, '.cache')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ModelError(Exception):
    pass

def _err(out):
    out = '\n'.join(l for l in out.split('\n') if not l.startswith(('Parsing file', 'Semantic proc', 'Linting')))
    i = out.find('Error:')
    return out[i:i + 1500] + ' ... ' + out[-1200:] if i >= 0 else out[-3000:]

def _java():
    for j in ('/usr/lib/jvm/java-17-openjdk-amd64/bin/java', shutil.which('java') or 'java'):
        if os.path.exists(j):
            return j
    return 'java'

def run(module, cfg, args=(), timeout=600, heap='3g', files=None, consts=None, props=(), stdout_to=None, gc='-XX:+UseSerialGC'):
    """files: extra files to place beside the spec; consts: extra cfg text.  Returns (rc, output)"""
    base = os.path.join(CACHE, 'tmp')
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(prefix='tlc', dir=base)
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(SPEC, cfg)) as f:
            text = f.read()
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(text + '\n' + (consts or ''))
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(c)
        cmd = [_java(), gc, '-XX:TieredStopAtLevel=4', '-Xmx' + heap, '-Xss16m'] + list(props) + \
              ['-cp', CP, 'tlc2.TLC', '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-config', 'run.cfg'] + list(args) + [module + '.tla']
        e = {k: v for k, v in os.environ.items() if k not in ('JAVA_TOOL_OPTIONS', '_JAVA_OPTIONS')}
        out = os.path.join(d, 'stdout')
        with open(out, 'w') as o:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=o,
                                    stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        with open(out, errors='replace') as o:
            return rc, o.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)

_st = re.compile(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left')
_dep = re.compile(r'depth of the complete state graph search is (\d+)')

def check(module, cfg, workers=4, timeout=900, consts=None, args=(), heap='6g', files=None):
    """exhaustive run; returns dict(states, transitions, depth); raises ModelError if the model fails"""
    rc, out = run(module, cfg, ['-workers', str(workers)] + list(args), timeout, heap, consts=consts,
                  files=files, gc='-XX:+UseParallelGC')
    m = None
    for m in _st.finditer(out):
        pass
    if rc != 0 or m is None:
        raise ModelError('TLC on %s/%s: rc=%s\n%s' % (module, cfg, rc, _err(out)))
    d = _dep.search(out)
    res = dict(states=int(m.group(2)), transitions=int(m.group(1)), depth=int(d.group(1)) if d else 0,
               complete=m.group(3) == '0')
    return res

def simulate(module, cfg, num, depth, seed, timeout=600, consts=None, procs=4, heap='2g', files=None):
    """behaviours (parsed JSON values printed by the spec with PrintT(ToJson(..)))"""
    per = (num + procs - 1) // procs
    def one(i):
        rc, out = run(module, cfg, ['-simulate', 'num=%d' % per, '-depth', str(depth), '-seed', str(seed * 1009 + i),
                                    '-workers', '1', '-deadlock'], timeout, heap, consts=consts, files=files)
        res = []
        for line in out.split('\n'):
            if line.startswith('"') and line.endswith('"'):
                res.append(json.loads(json.loads(line)))
        if rc != 0 or not res:
            raise ModelError('TLC simulation of %s/%s: rc=%s\n%s' % (module, cfg, rc, _err(out)))
        return res
    with ThreadPoolExecutor(procs) as ex:
        out = []
        for r in ex.map(one, range(procs)):
            out += r
    return out

def validate(module, cfg, traces, timeout=600, consts=None, heap='3g', dfs=True, extra_files=None):
    """Each trace (a JSON value) is handed to the trace spec as trace.json in ONE run, as an array of traces.
    The spec must print <<"ACCEPTED", i>> for each accepted trace index i. Returns set of accepted indexes (0-based), stats"""
    files = {'trace.json': json.dumps(traces)}
    files.update(extra_files or {})
    props = ['-Dtlc2.tool.queue.IStateQueue=StateDeque'] if dfs else []
    rc, out = run(module, cfg, ['-workers', '1', '-deadlock'], timeout, heap, files=files, consts=consts, props=props)
    m = None
    for m in _st.finditer(out):
        pass
    if rc != 0 or m is None:
        raise ModelError('TLC trace validation %s/%s: rc=%s\n%s' % (module, cfg, rc, _err(out)))
    acc = {int(x) - 1 for x in re.findall(r'<<"ACCEPTED", (\d+)>>', out)}
    best = {}
    for a, b in re.findall(r'<<"REACHED", (\d+), (\d+)>>', out):
        best[int(a) - 1] = max(best.get(int(a) - 1, 0), int(b))
    return acc, dict(states=int(m.group(2)), transitions=int(m.group(1)), best=best)

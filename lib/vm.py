"""Builds the VM under test from the repository's current working tree.

A build is keyed by a hash of the contents of every source file, so a check always
runs a VM made from the tree as it is now; .cache is filled by setup and ignored by git.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AVIAN_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
JAVA8 = '/usr/lib/jvm/java-8-openjdk-amd64'
TREES = ['src', 'include', 'classpath']
FILES = ['makefile', 'openjdk-src.mk', 'gradle.properties', 'vm.pro', 'openjdk.pro']
GUARD = 'AVIAN_VERIF'

# name -> (make variables, extra compiler flags)
CONFIGS = {
    'jit': ([], ''),
    'interp': (['process=interpret'], ''),
    'jit-stress': ([], '-DVM_STRESS'),
    'jit-stress-major': ([], '-DVM_STRESS -DVM_STRESS_MAJOR'),
    'interp-stress': (['process=interpret'], '-DVM_STRESS'),
    'debug': (['mode=debug'], ''),
    'interp-debug': (['mode=debug', 'process=interpret'], ''),
    'hook': ([], '-D' + GUARD),
    'hook-interp': (['process=interpret'], '-D' + GUARD),
    'tailcont': (['tails=true', 'continuations=true'], ''),
    'tailcont-stress': (['tails=true', 'continuations=true'], '-DVM_STRESS'),
}

class BuildError(Exception):
    pass

_hash = None
def tree_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        names = list(FILES)
        for t in TREES:
            for d, ds, fs in os.walk(os.path.join(REPO, t)):
                ds.sort()
                for f in fs:
                    p = os.path.join(d, f)
                    if os.path.isfile(p) and not os.path.islink(p):
                        names.append(os.path.relpath(p, REPO))
        for n in sorted(names):
            p = os.path.join(REPO, n)
            if os.path.exists(p):
                with open(p, 'rb') as fh:
                    h.update(n.encode() + b'\0' + hashlib.sha256(fh.read()).digest())
        _hash = h.hexdigest()[:20]
    return _hash

def env():
    e = {k: v for k, v in os.environ.items()
         if k not in ('JAVA_TOOL_OPTIONS', '_JAVA_OPTIONS', 'MAKEFLAGS', 'TRAVIS_PULL_REQUEST')}
    e['JAVA_HOME'] = JAVA8
    e['LC_ALL'] = 'C.UTF-8'
    return e

def lockfile(name):
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

class Build:
    def __init__(self, dir, config):
        self.dir, self.config = dir, config
        self.avian = os.path.join(dir, 'avian')
        self.classpath = os.path.join(dir, 'classpath')
        self.lib = os.path.join(dir, 'libavian.a')

def get(config):
    """the build of this configuration for the current tree"""
    dest = os.path.join(CACHE, 'build', config + '-' + tree_hash())
    if os.path.exists(os.path.join(dest, 'OK')):
        return Build(dest, config)
    lock = lockfile('build-' + config)
    try:
        if not os.path.exists(os.path.join(dest, 'OK')):
            _build(config, dest)
    finally:
        lock.close()
    return Build(dest, config)

def get_many(configs):
    from concurrent.futures import ThreadPoolExecutor
    tree_hash()
    with ThreadPoolExecutor(len(configs)) as ex:
        return dict(zip(configs, ex.map(get, configs)))

def _build(config, dest):
    makevars, flags = CONFIGS[config]
    work = os.path.join(CACHE, 'work', config)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for t in TREES:
        shutil.copytree(os.path.join(REPO, t), os.path.join(work, t), symlinks=True)
    for f in FILES:
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy2(os.path.join(REPO, f), work)
    for t in ('test', 'unittest'):
        os.makedirs(os.path.join(work, t))
    e = env()
    compat = '/opt/vp/glibc-compat.h'
    extra = (('-include %s ' % compat) if os.path.exists(compat) else '') + \
        '-w $(if $(filter %/java-lang.o,$@),-D__ANDROID__) ' + flags
    cc = []
    if shutil.which('ccache'):
        e.update(CCACHE_DIR=os.path.join(CACHE, 'ccache'), CCACHE_BASEDIR=work,
                 CCACHE_NOHASHDIR='1', CCACHE_COMPILERCHECK='content', CCACHE_MAXSIZE='2G')
        cc = ['build-cxx=ccache g++', 'build-cc=ccache gcc']
    r = subprocess.run(['make', '-s'] + makevars + ['--eval', 'vp-dir: ; @echo $(build)', 'vp-dir'],
                       cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    d = r.stdout.strip()
    if not d:
        raise BuildError('makefile does not parse: ' + r.stderr[-2000:])
    os.makedirs(os.path.join(work, d, 'test'), exist_ok=True)
    os.makedirs(os.path.join(work, d, 'extra-dir'), exist_ok=True)
    r = subprocess.run(['make', '-j8'] + makevars + ['extra-cflags=' + extra] + cc +
                       [d + '/avian', d + '/libavian.a'], cwd=work, env=e,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('build of %s failed:\n%s' % (config, r.stdout[-6000:]))
    tmp = dest + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(tmp)
    b = os.path.join(work, d)
    for f in ('avian', 'libavian.a'):
        shutil.copy2(os.path.join(b, f), tmp)
    shutil.copytree(os.path.join(b, 'classpath'), os.path.join(tmp, 'classpath'))
    gen = os.path.join(tmp, 'gen')
    os.makedirs(gen)
    for f in os.listdir(b):
        if f.startswith('type-') and f.endswith('.cpp'):
            shutil.copy2(os.path.join(b, f), gen)
    open(os.path.join(tmp, 'OK'), 'w').close()
    os.rename(tmp, dest)
    shutil.rmtree(work, ignore_errors=True)

def javac(build, srcs, name=None, extra=()):
    """compile driver sources against the class library of this build; returns class dir"""
    h = hashlib.sha256()
    for s in srcs:
        with open(s, 'rb') as f:
            h.update(os.path.basename(s).encode() + f.read())
    h.update(tree_hash().encode() + repr(tuple(extra)).encode())
    out = os.path.join(CACHE, 'java', (name or 'drv') + '-' + h.hexdigest()[:16])
    if os.path.exists(os.path.join(out, '.OK')):
        return out
    tmp = tempfile.mkdtemp(dir=_mk(os.path.join(CACHE, 'java')))
    javac_to(build, srcs, tmp, extra)
    open(os.path.join(tmp, '.OK'), 'w').close()
    shutil.rmtree(out, ignore_errors=True)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

def javac_to(build, srcs, out, extra=()):
    r = subprocess.run([JAVA8 + '/bin/javac', '-nowarn', '-XDignore.symbol.file', '-encoding', 'UTF-8',
                        '-source', '1.8', '-target', '1.8',
                        '-bootclasspath', build.classpath, '-d', out] + list(extra) + list(srcs),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('javac failed:\n' + r.stdout[-6000:])

def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d

def cxx(name, srcs, flags=(), libs=('-lpthread', '-ldl'), extra_key=''):
    """builds a native harness from the working tree; cached by the tree's content"""
    h = hashlib.sha256((tree_hash() + repr(list(flags)) + extra_key).encode())
    for s in srcs:
        if not s.startswith(REPO + '/'):
            with open(s, 'rb') as f:
                h.update(f.read())
    out = os.path.join(_mk(os.path.join(CACHE, 'native')), name + '-' + h.hexdigest()[:16])
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++', '-std=c++11', '-w', '-I' + REPO + '/include', '-I' + REPO + '/src', '-D__STDC_LIMIT_MACROS',
                        '-D__STDC_CONSTANT_MACROS', '-DUSE_ATOMIC_OPERATIONS', '-DAVIAN_JAVA_HOME=""'] + list(flags) + list(srcs) +
                       ['-o', tmp] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('native harness %s does not build:\n%s' % (name, r.stdout[-5000:]))
    os.rename(tmp, out)
    return out

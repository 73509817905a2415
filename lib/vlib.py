"""Shared machinery of the checks: build the drivers from /repo's current
sources, run scenarios against the real library, and let TLC decide whether
the recorded histories are behaviours of the specification."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
NCPU = max(1, min(8, os.cpu_count() or 1))

VARIANTS = {
    'plain': ('g++', ['-O2', '-g1']),
    'asan': ('g++', ['-O1', '-g1', '-fsanitize=address',
                     '-fno-omit-frame-pointer', '-DNOLIMIT']),
    'tsan': ('g++', ['-O1', '-g1', '-fsanitize=thread', '-DNOLIMIT']),
    'clang': ('clang++', ['-O2', '-g1']),
}


class Infra(Exception):
    """The machinery itself failed: no statement about the property."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors='replace', **kw)


# --------------------------------------------------------------------- build
def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))


def _hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build(driver, variant='plain'):
    """Returns the path of harness/<driver>.cpp linked with /repo's sources."""
    cxx, flags = VARIANTS[variant]
    flags = ['-std=c++20', '-w', '-pthread', '-I', os.path.join(REPO, 'include'),
             '-I', os.path.join(VERIF, 'harness')] + flags
    hdrs = sorted(glob.glob(os.path.join(REPO, 'include', '*')) +
                  glob.glob(os.path.join(REPO, 'src', '*.h*')) +
                  glob.glob(os.path.join(VERIF, 'harness', '*.hpp')))
    key = _hash(sources() + hdrs, ' '.join([cxx] + flags))
    root = os.path.join(VERIF, 'build', variant + '-' + key)
    os.makedirs(root, exist_ok=True)
    main = os.path.join(VERIF, 'harness', driver + '.cpp')
    exe = os.path.join(root, driver + '-' + _hash([main], ''))
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(VERIF, 'build', variant + '-*')):
        if old != root and time.time() - os.path.getmtime(old) > 3600:
            shutil.rmtree(old, ignore_errors=True)
    jobs = []
    objs = []
    for s in sources() + [main]:
        o = os.path.join(root, ('m_' if s == main else '') +
                         os.path.basename(s) + '.o')
        if s != main:
            objs.append(o)
        if s == main or not os.path.exists(o):
            jobs.append((s, o))
    mobj = os.path.join(root, 'm_' + os.path.basename(main) + '.o')

    def one(job):
        s, o = job
        tmp = o + '.%d.tmp' % os.getpid()
        r = sh([cxx] + flags + ['-c', s, '-o', tmp])
        if r.returncode:
            raise Infra('compiling %s failed:\n%s' % (s, r.stdout[-3000:]))
        os.rename(tmp, o)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    r = sh([cxx] + flags + [mobj] + objs + ['-o', exe + '.tmp'])
    if r.returncode:
        raise Infra('linking failed:\n' + r.stdout[-3000:])
    os.rename(exe + '.tmp', exe)
    return exe


# ---------------------------------------------------------------- scenarios
class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)


ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=0:'
            'max_allocation_size_mb=4096:abort_on_error=0:exitcode=77',
            'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66'}


def run_driver(exe, scenarios, scratch, tag):
    """Executes scenarios (lists of lines); returns the recorded events, as
    raw JSON lines, one list per scenario."""
    sc = scratch.path(tag + '.sc')
    out = scratch.path(tag + '.out')
    wd = scratch.path(tag + '.d')
    os.makedirs(wd, exist_ok=True)
    with open(sc, 'w') as f:
        for i, s in enumerate(scenarios):
            f.write('begin %d\n' % i)
            f.write('\n'.join(s) + '\n')
    env = dict(os.environ, **ASAN_ENV)
    r = subprocess.run([exe, sc, out, wd], stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, text=True, errors='replace',
                       env=env)
    if r.returncode:
        raise Infra('driver exit %d: %s' % (r.returncode, r.stderr[-2000:]))
    res, err = [], r.stderr
    with open(out, errors='replace') as f:
        for line in f:
            line = line.rstrip('\n')
            if not line:
                continue
            if line.startswith('{"op":"begin"'):
                res.append([line])
            elif line.endswith('}') and line.startswith('{'):
                res[-1].append(line)
            # else: the call during which the process died; the next line
            # says so
    os.unlink(out)
    os.unlink(sc)
    shutil.rmtree(wd, ignore_errors=True)
    if len(res) != len(scenarios):
        raise Infra('driver recorded %d of %d scenarios' %
                    (len(res), len(scenarios)))
    return res, err


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg, scratch, tag, env=None, heap='2g', extra=(), timeout=300):
    """Runs TLC; returns (exit code, output)."""
    d = scratch.path(tag + '.tlc')
    os.makedirs(d, exist_ok=True)
    cfgp = os.path.join(d, module + '.cfg')
    with open(cfgp, 'w') as f:
        f.write(cfg)
    for m in glob.glob(os.path.join(SPEC, '*.tla')):
        dst = os.path.join(d, os.path.basename(m))
        if not os.path.exists(dst):
            os.symlink(m, dst)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-Xss64m', '-Xmx' + heap,
           '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC',
           '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
           '-config', cfgp] + list(extra) + [os.path.join(d, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = sh(cmd, env=e, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra('TLC timed out on ' + module)
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
    d = re.findall(r'depth of the complete state graph search is (\d+)', out)
    return (int(m[-1][0]) if m else 0, int(m[-1][1]) if m else 0,
            int(d[-1]) if d else 0)


def validate(module, events, aspects, scratch, tag, constants=''):
    """Is this list of events (JSON lines) a behaviour of the trace module?
    Returns (accepted, number of events matched, detail)."""
    log = scratch.path(tag + '.ndjson')
    with open(log, 'w') as f:
        f.write('\n'.join(events) + '\n')
    cfg = 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n' \
          'POSTCONDITION TraceAccepted\n' + constants
    if aspects is not None:
        cfg += 'CONSTANT Aspects = {%s}\n' % ', '.join(
            '"%s"' % a for a in sorted(aspects))
    rc, out = tlc(module, cfg, scratch, tag, env={'VLOG': log},
                  extra=['-workers', '1'])
    os.unlink(log)
    gen, dist, depth = tlc_stats(out)
    if rc == 0:
        return True, len(events), ''
    if 'ostcondition' in out or 'POSTCONDITION' in out:
        return False, max(0, depth - 1), 'no transition of the ' \
            'specification matches this event'
    if 'rror evaluating' in out or 'Attempted' in out or \
            'CHOOSE' in out or 'java.lang.RuntimeException' in out or \
            'TLC threw an unexpected exception' in out or 'Error: ' in out:
        if 'OutOfMemory' in out or 'Parsing or semantic' in out or \
                'StackOverflow' in out:
            raise Infra(out[-3000:])
        # number of events matched before the evaluation failed
        st = re.findall(r'/?\\?\s*l = (\d+)', out)
        n = int(st[-1]) - 1 if st else max(0, depth - 1)
        return False, n, 'evaluation failed: ' + out[-1500:]
    raise Infra('TLC exit %d\n%s' % (rc, out[-3000:]))

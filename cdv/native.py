"""Builds the native replay harnesses from /repo's current sources and runs them."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from . import front

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAT = os.path.join(ROOT, 'native')
BUILD = os.environ.get('CDV_BUILD', os.path.join(ROOT, 'build'))
SAN = ['-fsanitize=address']
# calls that the harnesses intercept (link-time wrapping; the code itself is untouched)
WRAPS = {'t_media': ['_ZN5ginga6Player12createPlayerEPNS_9FormatterEPNS_5MediaERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESC_']}


class NativeError(Exception):
    pass


def flags():
    return ['-w', '-O0', '-g1'] + SAN + ['-fno-access-control', '-fno-inline'] + \
        [f for f in front.cflags() if f != '-Wno-everything']


def sources():
    return sorted(glob.glob(front.REPO + '/lib/*.cpp'))


def digest(files, extra=''):
    h = hashlib.sha1(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def cc(src, out, fl):
    p = subprocess.run(['g++'] + fl + ['-c', src, '-o', out], capture_output=True, text=True)
    return p.returncode, p.stderr


def build(harness):
    """path of the harness executable (compiled from the current sources)"""
    fl = flags()
    heads = sorted(glob.glob(front.REPO + '/lib/*.h') + glob.glob(NAT + '/*.h') + glob.glob(NAT + '/stubs/**/*.h', recursive=True))
    key = digest(heads, ' '.join(fl))
    d = os.path.join(BUILD, 'native-' + hashlib.sha1(front.REPO.encode()).hexdigest()[:6])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = [s for s in sources() if not s.endswith('/PlayerHTML.cpp')] + [NAT + '/h.cpp', NAT + '/' + harness + '.cpp']
        jobs, objs = [], []
        for s in srcs:
            if s.startswith(NAT):
                k = digest([s], key)
            else:
                k = digest([s], key)
            o = os.path.join(d, os.path.basename(s) + '.' + k + '.o')
            objs.append(o)
            if not os.path.exists(o):
                for old in glob.glob(os.path.join(d, os.path.basename(s) + '.*.o')):
                    os.unlink(old)
                jobs.append((s, o))
        if jobs:
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda j: (j, cc(j[0], j[1] + '.tmp', fl)), jobs))
            bad = [(j, e) for j, (rc, e) in res if rc]
            for j, (rc, e) in res:
                if not rc:
                    os.rename(j[1] + '.tmp', j[1])
            if bad:
                raise NativeError('cannot compile %s:\n%s' % (bad[0][0][0], bad[0][1][-1500:]))
        ok = digest([], ' '.join(objs))
        exe = os.path.join(d, harness + '.' + ok)
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(d, harness + '.*')):
                if not old.endswith('.o'):
                    os.unlink(old)
            libs = subprocess.run(['pkg-config', '--libs'] + front.PKGS, capture_output=True, text=True).stdout.split()
            wr = ['-Wl,--wrap=' + w for w in WRAPS.get(harness, [])]
            p = subprocess.run(['g++'] + SAN + objs + wr + ['-o', exe + '.tmp'] + libs + ['-llua5.3', '-ldl', '-lpthread', '-lm'],
                               capture_output=True, text=True)
            if p.returncode:
                raise NativeError('cannot link %s:\n%s' % (harness, p.stderr[-1500:]))
            os.rename(exe + '.tmp', exe)
    return exe


def run(harness, prop, seed, secs, case=None):
    exe = build(harness)
    import tempfile
    cmd = [exe, prop, str(seed), str(secs)]
    if case:
        cmd += [str(case[0]), str(case[1])]
    with tempfile.TemporaryDirectory(prefix='ginga-h-') as td:
        env = dict(os.environ, HOME=td, TMPDIR=td, XDG_RUNTIME_DIR=td, G_MESSAGES_DEBUG='', GST_REGISTRY=td + '/reg')
        try:
            p = subprocess.run(cmd, capture_output=True, timeout=secs * 3 + 120, cwd=td, env=env)
            out, rc, err = p.stdout.decode(errors='replace'), p.returncode, p.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired as x:
            return dict(status='error', what='the harness did not end', out=(x.stdout or b'').decode(errors='replace')[-2000:])
    m = re.search(r'^FAILCASE prop=(\S+) seed=(\d+) test=(\d+) case=(-?\d+)\nINPUT (.*?)\nWHAT (.*)', out, re.M | re.S)
    if m:
        return dict(status='fail', seed=int(m[2]), test=int(m[3]), case=int(m[4]), input=m[5][:6000], what=m[6].strip()[:3000], stderr=err[-3000:])
    m = re.search(r'^STATS evals=(\d+) distinct=(\d+) exhaustive=(\d) tests=(\d+)', out, re.M)
    if rc == 0 and m:
        return dict(status='ok', evals=int(m[1]), distinct=int(m[2]), exhaustive=m[3] == '1',
                    samples=[x[7:] for x in out.splitlines() if x.startswith('SAMPLE ')])
    return dict(status='error', what='harness ended with %s' % rc, out=out[-1500:] + err[-1500:])

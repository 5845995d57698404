#!/usr/bin/env python3
"""Builds the code under test (instrumented) from /repo's working tree and the
simulator. Objects are cached by the hash of everything they depend on."""
import hashlib, os, re, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DYSCO_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))

SUT_FLAGS = '-std=c++17 -O2 -g1 -fPIC -fsanitize=thread -fno-omit-frame-pointer -w'.split()
SIM_FLAGS = '-std=c++17 -O2 -g1 -fno-threadsafe-statics -fno-builtin-malloc -w'.split()
INC = ['-I/usr/include/casacore']
WRAP = ['memcpy', 'memmove', 'memset', '_ZNSi5seekgElSt12_Ios_Seekdir', '_ZNSo5seekpElSt12_Ios_Seekdir',
        '_ZNSi4readEPcl', '_ZNSo5writeEPKcl', '_ZNSo5flushEv']

def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + r.stdout + r.stderr)
        raise SystemExit(3)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def readf(p):
    with open(p, 'rb') as f:
        return f.read()

def sut_sources():
    """Sources that the project's own build compiles (no tests)."""
    text = readf(os.path.join(REPO, 'CMakeLists.txt')).decode()
    names = []
    for n in re.findall(r'[\w./-]+\.(?:cc|cpp|cxx)\b', text):
        if not n.startswith('tests/') and n not in names and os.path.exists(os.path.join(REPO, n)):
            names.append(n)
    return names

def headers_digest(d, exclude=()):
    out = []
    for base, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '_build', 'build', 'tests')) and x not in exclude)
        for f in sorted(files):
            if f.endswith(('.h', '.hpp', '.inc', '.tcc')):
                out.append(os.path.relpath(os.path.join(base, f), d)); out.append(readf(os.path.join(base, f)))
    return digest(*out)

def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    objd = os.path.join(BUILD, 'obj'); os.makedirs(objd, exist_ok=True)
    jobs, sut, sim = [], [], []
    rh = headers_digest(REPO)
    vh = headers_digest(ROOT, exclude=('seeded', 'evidence'))
    def add(src, flags, extra, lst, rename=None):
        key = digest(readf(src), ' '.join(flags), extra, os.path.basename(src), rename)
        o = os.path.join(objd, key + '.o')
        lst.append(o)
        if not os.path.exists(o):
            jobs.append((['g++'] + flags + ['-c', src, '-o', o + '.tmp'], o, rename))
        else:
            os.utime(o)
    for n in sut_sources():
        p = os.path.join(REPO, n)
        fl = SUT_FLAGS + INC + ['-I' + REPO]
        tool = None
        if re.search(rb'\bint\s+main\s*\(', readf(p)):
            tool = 'sut_%s_main' % re.sub(r'\W', '_', os.path.splitext(os.path.basename(n))[0])
        add(p, fl, rh, sut, tool)
    add(os.path.join(ROOT, 'harness', 'glue.cc'), SUT_FLAGS + ['-fno-access-control'] + INC + ['-I' + REPO], rh, sut)
    for d in ('sim', 'harness'):
        for f in sorted(os.listdir(os.path.join(ROOT, d))):
            if f.endswith('.cc') and f != 'glue.cc':
                add(os.path.join(ROOT, d, f), SIM_FLAGS + INC + ['-I' + ROOT], vh, sim)
    def run(j):
        cmd, o, rename = j
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0 and rename:
            # a tool becomes a function that the simulator can call
            r = subprocess.run(['objcopy', '--redefine-sym', 'main=' + rename, o + '.tmp'], capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(o + '.tmp', o)
        return r, cmd
    with ThreadPoolExecutor(8) as ex:
        for r, cmd in ex.map(run, jobs):
            if r.returncode:
                sys.stderr.write(' '.join(cmd) + '\n' + r.stdout + r.stderr)
                raise SystemExit(3)
            elif verbose and r.stderr:
                sys.stderr.write(r.stderr)
    key = digest(*sorted(sut), *sorted(sim), ' '.join(WRAP), 'bsf')
    outd = os.path.join(BUILD, key)
    exe = os.path.join(outd, 'simrun')
    if not os.path.exists(exe):
        os.makedirs(outd, exist_ok=True)
        lib = os.path.join(outd, 'libsut.so')
        sh(['g++', '-shared', '-o', lib] + sut + ['-Wl,--wrap=' + w for w in WRAP] + ['-Wl,-soname,libsut.so', '-Wl,-Bsymbolic-functions', '-Wl,--build-id=none'])
        sh(['g++', '-o', exe + '.tmp'] + sim + ['-rdynamic', '-Wl,--no-as-needed', '-L' + outd, '-lsut',
            '-Wl,-rpath,$ORIGIN', '-lgsl', '-lgslcblas', '-lcasa_tables', '-lcasa_casa', '-lpthread', '-ldl'])
        os.rename(exe + '.tmp', exe)
        # keep the cache small
        ds = sorted((d for d in os.listdir(BUILD) if len(d) == 24), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in ds[:-6]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os_ = sorted(os.listdir(objd), key=lambda f: os.path.getmtime(os.path.join(objd, f)))
        for f in os_[:-150]:
            os.unlink(os.path.join(objd, f))
    else:
        os.utime(outd)
    return exe

if __name__ == '__main__':
    print(build(verbose='-v' in sys.argv))

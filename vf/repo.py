"""Everything that is built from the sources under test (GP_REPO, default /repo).

Products live in /verif/build/<hash of the sources they are made of>/ so that a
changed tree is always rebuilt and an unchanged one is not.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = '/usr/bin/clang++-18'
RES = '/usr/lib/llvm-18/lib/clang/18'
LLVM_I = '/usr/lib/llvm-18/include'
LIBS = ['/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
CFLAGS = ['-std=c++20', '-fno-rtti', '-fno-exceptions', '-I' + REPO + '/include', '-I' + LLVM_I,
          '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
          '-D__STDC_LIMIT_MACROS', '-w']


class BuildError(Exception):
    pass


def sources():
    return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))


def _h(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _tree():
    pats = ('src', 'include')
    out = []
    for d in pats:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files
                    if f.endswith(('.cpp', '.h', '.def', '.inc', '.hpp'))]
    return sorted(out)


def tree_hash():
    return _h(_tree(), ' '.join(CFLAGS) + 'v3')


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))


def _cc(src, out, extra=()):
    tmp = out + '.%d.tmp' % os.getpid()
    _run([CXX, *CFLAGS, *extra, '-c', src, '-o', tmp])
    os.replace(tmp, out)


def _prune(keep=6):
    """Bound the disk space used for products of earlier trees."""
    ds = [d for d in glob.glob(BUILD + '/t-*') if os.path.isdir(d)]
    ds.sort(key=os.path.getmtime, reverse=True)
    import shutil
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def treedir():
    d = os.path.join(BUILD, 't-' + tree_hash())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        _prune()
    return d


def version_defs():
    """The two macros the build system passes to tool.cpp."""
    return []


def objects(only=None, asan=False):
    """Compiles the tool's sources; returns the object files."""
    d = treedir()
    srcs = [s for s in sources() if only is None or os.path.relpath(s, REPO) in only]
    extra = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if asan \
        else ['-O0']
    suf = '.asan.o' if asan else '.o'
    jobs = []
    for s in srcs:
        o = os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + suf)
        jobs.append((s, o))
    todo = [(s, o) for s, o in jobs if not os.path.exists(o)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda so: _cc(so[0], so[1], [*extra, *version_defs()]), todo))
    return [o for _, o in jobs]


def tool():
    d = treedir()
    out = os.path.join(d, 'genpybind-tool')
    with Lock('tool'):
        if not os.path.exists(out):
            objs = objects()
            _run([CXX, *objs, '-o', out + '.tmp', *LIBS])
            os.replace(out + '.tmp', out)
    return out


HARNESS_SRC = ('src/annotations/annotation.cpp', 'src/annotations/literal_value.cpp',
               'src/annotations/parser.cpp', 'src/string_utils.cpp')


def harness(name):
    """Links /verif/harness/<name>.cpp with the repository's leaf sources (ASan + UBSan)."""
    d = treedir()
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    out = os.path.join(d, 'h-%s-%s' % (name, _h([src])))
    with Lock('harness-' + name):
        if not os.path.exists(out):
            objs = objects(HARNESS_SRC, asan=True)
            o = out + '.o'
            _cc(src, o, ['-O1', '-g', '-fsanitize=address,undefined',
                         '-fno-sanitize-recover=undefined'])
            _run([CXX, '-fsanitize=address,undefined', o, *objs, '-o', out + '.tmp', *LIBS])
            os.replace(out + '.tmp', out)
    return out


def extractor():
    src = os.path.join(VERIF, 'extract', 'extract.cpp')
    out = os.path.join(BUILD, 'extract-' + _h([src]))
    with Lock('extract'):
        if not os.path.exists(out):
            _run([CXX, '-w', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-I' + LLVM_I,
                  '-D_GNU_SOURCE', src, '-o', out + '.tmp', *LIBS])
            os.replace(out + '.tmp', out)
    return out


def extract(source):
    """JSON of the typed AST of SOURCE (relative to the repository)."""
    ex = extractor()
    d = treedir()
    out = os.path.join(d, os.path.basename(ex) + '-' + source.replace('/', '_') + '.json')
    with Lock('x-' + source.replace('/', '_')):
        if not os.path.exists(out):
            tmp = out + '.tmp'
            _run([ex, REPO, tmp, os.path.join(REPO, source), '--', *CFLAGS,
                  '-resource-dir=' + RES, *version_defs()])
            os.replace(tmp, out)
    return out

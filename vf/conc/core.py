"""Concrete exploration of the real tool: running it, reading its output, case loops."""
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from .. import repo

PRE = '''#define GENPYBIND__STR(...) #__VA_ARGS__
#define GENPYBIND(...) __attribute__((annotate("\u25ca" GENPYBIND__STR(__VA_ARGS__))))
'''


class Diag:
    __slots__ = ('line', 'col', 'sev', 'msg')

    def __init__(self, line, col, sev, msg):
        self.line, self.col, self.sev, self.msg = line, col, sev, msg

    def __repr__(self):
        return '%d:%d: %s: %s' % (self.line, self.col, self.sev, self.msg)


_diag = re.compile(r'^(?:(.*?):(\d+):(\d+): )?(fatal error|error|warning|note): (.*)$')


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
        self.diags = []
        for l in err.split('\n'):
            m = _diag.match(l)
            if m:
                self.diags.append(Diag(int(m[2] or 0), int(m[3] or 0), m[4], m[5]))

    def errors(self):
        return [d for d in self.diags if 'error' in d.sev]

    def warnings(self):
        return [d for d in self.diags if d.sev == 'warning']

    @property
    def crashed(self):
        return self.rc < 0 or self.rc >= 128 or 'PLEASE submit a bug' in self.err


class Failure(Exception):
    """A property was violated by the running code."""


class Ctx:
    def __init__(self, tool, seed, tier):
        self.tool, self.seed, self.tier = tool, seed, tier
        self.dir = None
        self.log = []
        self.n = 0

    def run(self, header, args=(), flags=(), name='m.h', timeout=60):
        p = os.path.join(self.dir, name)
        with open(p, 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(header)
        return self.exec([p, *args, '--', '-resource-dir=' + repo.RES, '-nostdinc', *flags], timeout,
                         header)

    def exec(self, argv, timeout=60, header=None, cwd=None):
        self.n += 1
        pr = subprocess.Popen([self.tool, *argv], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              stdin=subprocess.DEVNULL, cwd=cwd or self.dir)
        try:
            o, e = pr.communicate(timeout=timeout)
            rc = pr.returncode
        except subprocess.TimeoutExpired:
            pr.kill()
            o, e = pr.communicate()
            rc = -99
        r = Result(rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace'))
        self.log.append({'argv': [self.tool, *argv], 'header': header, 'rc': rc,
                         'stdout': r.out[-6000:], 'stderr': r.err[-6000:]})
        self.log = self.log[-4:]
        return r


# ---------------------------------------------------------------- output of the tool

class Module:
    """Structured view of the generated source files."""

    def __init__(self, files):
        self.files = []
        self.module = None
        self.intro = []       # (identifier, expression) in order
        self.calls = []       # identifiers in order
        self.module_file = []
        for k, text in enumerate(files):
            self._file(k, text)

    def _file(self, k, text):
        f = {'includes': [], 'decls': [], 'defs': [], 'pos': []}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('#include '):
                f['includes'].append(l[9:])
                f['pos'].append(('include', l))
            elif l.startswith('PYBIND11_MODULE('):
                m = re.match(r'PYBIND11_MODULE\((.*), (\w+)\) \{$', l)
                if not m:
                    raise Failure('cannot read module definition: ' + l)
                self.module = m[1]
                self.root = m[2]
                self.module_file.append(k)
                i += 1
                body = []
                while i < len(lines) and lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self.body = body
                for b in body:
                    m = re.match(r'auto (\w+) = (.*);$', b)
                    if m:
                        self.intro.append((m[1], m[2]))
                        f['pos'].append(('intro', m[1]))
                    m = re.match(r'expose_(\w+)\((\w+)\);$', b)
                    if m:
                        self.calls.append((m[1], m[2]))
                        f['pos'].append(('call', m[1]))
            elif l.startswith('void expose_'):
                m = re.match(r'void expose_(\w+)\((.*)& (\w+)\)(;| \{)$', l)
                if not m:
                    raise Failure('cannot read: ' + l)
                if m[4] == ';':
                    f['decls'].append((m[1], m[2]))
                    f['pos'].append(('decl', m[1]))
                else:
                    body = []
                    i += 1
                    while i < len(lines) and lines[i] != '}':
                        body.append(lines[i])
                        i += 1
                    f['defs'].append((m[1], m[2], body))
                    f['pos'].append(('def', m[1]))
            elif l.strip():
                f.setdefault('junk', []).append(l)
            i += 1
        self.files.append(f)

    def defs(self):
        return [d for f in self.files for d in f['defs']]

    def def_of(self, ident):
        c = [d for d in self.defs() if d[0] == ident]
        return c[0] if c else None


def split_args(s):
    """Splits at top-level commas (brackets, braces and strings respected)."""
    out, cur, depth, i, brace = [], '', 0, 0, 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        if s.startswith('->', i):
            cur += '->'
            i += 2
            continue
        if c in '([{':
            depth += 1
            brace += c == '{'
        elif c in ')]}':
            depth -= 1
            brace -= c == '}'
        elif c == '<' and not brace:
            depth += 1
        elif c == '>' and not brace:
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip() or out:
        out.append(cur.strip())
    return out


_call = re.compile(r'^(?:(\w+)\.)?([\w:<>,& ]*?)\((.*)\);$', re.S)


def stmt(line):
    """`context.def("f", a, b);` -> ('def', ['"f"', 'a', 'b'])"""
    m = re.match(r'^context\.(\w+)\((.*)\);$', line, re.S)
    if m:
        return m[1], split_args(m[2])
    m = re.match(r'^context\.attr\((".*?")\) = (.*);$', line)
    if m:
        return 'attr', [m[1], m[2]]
    m = re.match(r'^(::pybind11::implicitly_convertible)<(.*)>\(\);$', line)
    if m:
        return 'implicitly_convertible', split_args(m[2])
    return None, [line]


def stmts(body):
    out = []
    for l in body:
        if not l.strip() or l == '(void)context;':
            continue
        m = re.match(r'^context\.attr\((".*?")\) = (.*);$', l)
        if m:
            out.append(('attr', [m[1], m[2]]))
        else:
            out.append(stmt(l))
    return out


def unquote(s):
    return json.loads(s) if s.startswith('"') else s


def graphs(err):
    """{'visibility': [...], 'pruned': [...]}; each a list of (depth, kind, name, as, text)."""
    out = {}
    cur = None
    for l in err.split('\n'):
        if l.startswith('Declaration context graph (unpruned)'):
            cur = out.setdefault('visibility', [])
            continue
        if l.startswith('Declaration context graph after'):
            cur = out.setdefault('pruned', [])
            continue
        m = re.match(r"^([ |`-]*)(\w+) '(.*?)'(?: as '(.*?)')?: (\w+)$", l)
        if m and cur is not None:
            cur.append((len(m[1]) // 2, m[2], m[3], m[4], m[5]))
    return out


def tree(entries):
    """Adds the parent index to each entry."""
    out, stack = [], []
    for d, kind, name, as_, vis in entries:
        while stack and stack[-1][0] >= d:
            stack.pop()
        out.append((stack[-1][1] if stack else -1, kind, name, as_, vis))
        stack.append((d, len(out) - 1))
    return out


# ---------------------------------------------------------------- case loop

def _worker(a):
    modname, tool, seed, tier, start, count, deadline = a
    import importlib
    mod = importlib.import_module(modname)
    ctx = Ctx(tool, seed, tier)
    ctx.dir = tempfile.mkdtemp(prefix='gpv')
    res = {'n': 0, 'distinct': set(), 'fail': [], 'samples': [], 'err': None, 'runs': 0}
    try:
        for k in range(start, start + count):
            if time.time() > deadline:
                break
            rng = random.Random('%s/%d/%d' % (modname, seed, k))
            ctx.log = []
            try:
                key = mod.case(ctx, rng, k)
            except Failure as e:
                key = 'fail%d' % k
                res['fail'].append({'case': k, 'what': str(e), 'log': list(ctx.log)})
                if len(res['fail']) >= 3:
                    break
            res['n'] += 1
            if key is not None:
                res['distinct'].add(hashlib.md5(str(key).encode()).hexdigest())
            if len(res['samples']) < 1 and ctx.log:
                res['samples'].append({'argv': ctx.log[-1]['argv'][1:], 'input': ctx.log[-1]['header'],
                                       'rc': ctx.log[-1]['rc']})
    except Exception:
        res['err'] = 'case %d\n' % k + traceback.format_exc()
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
    res['runs'] = ctx.n
    return res


def run_cases(modname, seed, tier, count, budget, rule, procs=None):
    tool = repo.tool()
    procs = procs or int(os.environ.get('GP_PROCS', '8'))
    deadline = time.time() + budget
    chunk = max(1, min(40, count // (procs * 2) or 1))
    jobs = [(modname, tool, seed, tier, s, min(chunk, count - s), deadline)
            for s in range(0, count, chunk)]
    tot = {'evaluations': 0, 'tool_runs': 0, 'distinct_nontrivial': 0, 'rule': rule, 'samples': [],
           'failures': [], 'errors': []}
    seen = set()
    with multiprocessing.Pool(procs) as pool:
        for r in pool.imap_unordered(_worker, jobs):
            tot['evaluations'] += r['n']
            tot['tool_runs'] += r['runs']
            seen |= r['distinct']
            if len(tot['samples']) < 3:
                tot['samples'] += r['samples'][:1]
            tot['failures'] += r['fail']
            if r['err']:
                tot['errors'].append(r['err'])
            if len(tot['failures']) >= 12:
                pool.terminate()
                break
    tot['distinct_nontrivial'] = len(seen)
    tot['failures'].sort(key=lambda f: len((f['log'] or [{}])[-1].get('header') or ''))
    return tot


def need(cond, what):
    if not cond:
        raise Failure(what)

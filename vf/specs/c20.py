"""C20: errors, exit status and output files."""
from .graph import *

SRC = 'src/tool.cpp'
UNITS = []
sv = lambda s: strval(s.encode())


def parse_path(E):
    setup(E)
    f = one(E.tu, '(anonymous namespace)::OutputFilenameParser::parse')
    st = State()
    E.lib.models['llvm::sys::path::is_absolute'] = lambda E2, s, c: E2.uf('is_absolute', [E2.to_term(s, c.args[0])], BOOL)
    errs = []

    def error(E2, s, c):
        s.set(G, 'err', z3.BoolVal(True))
        return z3.BoolVal(True)          # Option::error always returns true
    E.contracts['llvm::cl::Option::error'] = error
    ps = f['params']
    if len(ps) != 4:
        raise Abort('parameters of parse')
    arg, val = z3.Const('arg', STR), z3.Const('value', STR)
    G = E.new_obj(st, 'ghost', err=z3.BoolVal(False))
    st.env[ps[0]['id']] = E.new_cell(st, z3.Const('opt', U))
    st.env[ps[1]['id']] = E.new_cell(st, z3.Const('name', STR))
    st.env[ps[2]['id']] = E.new_cell(st, arg)
    cell = E.new_cell(st, val)
    st.env[ps[3]['id']] = cell
    E.current = 'OutputFilenameParser::parse'
    ok = z3.Or(arg == sv('-'), E.uf('is_absolute', [arg], BOOL))
    for s, r in run(E, f, st):
        r = E.to_bool(s, r)
        E.oblige(s, r == z3.Not(ok), 'post: rejected exactly if the path is neither - nor absolute')
        E.oblige(s, s.get(G, 'err') == z3.Not(ok), 'post: an error is reported exactly if the path is rejected')
        E.oblige(s, z3.Implies(ok, s.cells[cell.id] == arg), 'post: accepted paths are taken as they are')


UNITS += [('OutputFilenameParser::parse', SRC, parse_path)]


def option(E, name):
    """The command line option of the given name (a global)."""
    lit = str(list(name.encode()))
    ids = [g for g in E.tu.globals.values() if lit in str(g.get('init'))]
    if len(ids) != 1:
        raise Abort('option ' + name)
    return ids[0]


def has_literal(n, text):
    lit = '[' + ', '.join(map(str, text.encode())) + ']'
    return lit in str(n)


def erase(E):
    setup(E)
    f = one(E.tu, '(anonymous namespace)::GenpybindAction::shouldEraseOutputFiles')
    st = State()
    err = z3.Bool('error_occurred')
    E.contracts['clang::DiagnosticsEngine::hasErrorOccurred'] = lambda E2, s, c: err
    keep = z3.Bool('keep_output_files')

    def opt(E2, s, c):
        o = c.node.get('obj') or {}
        g = E2.tu.globals.get(o.get('id'))
        return keep if g and has_literal(g, 'keep-output-files') else NotImplemented
    for q in ('operator bool', 'getValue', 'operator const bool &'):
        E.contracts['llvm::cl::opt_storage<bool, false, false>::' + q] = opt
    st.env['this'] = z3.Const('this', U)
    E.current = 'shouldEraseOutputFiles'
    for s, r in run(E, f, st):
        E.oblige(s, E.to_bool(s, r) == z3.And(err, z3.Not(keep)), 'post: output files are discarded exactly if there are errors and they are not to be kept')


UNITS += [('shouldEraseOutputFiles', SRC, erase)]


def main_(E, which):
    setup(E)
    f = one(E.tu, 'main')
    st = State()
    L = E.lib
    code = z3.Int('run.status')
    ok = z3.Bool('options.valid')
    xfail = z3.Bool('option.xfail')
    G = E.new_obj(st, 'ghost', ran=z3.IntVal(0), deflt=z3.IntVal(0))
    nofiles = z3.Bool('no_output_file')

    def run_tool(E2, s, c):
        s.set(G, 'ran', s.get(G, 'ran') + 1)
        return code
    E.contracts['clang::tooling::ClangTool::run'] = run_tool
    E.contracts['llvm::cl::SetVersionPrinter'] = lambda E2, s, c: None

    def opt_ctor(E2, s, ty, args, e):
        nm = [bytes(x.b).decode().strip('\0') for x in args if isinstance(x, Lit)]
        if not nm:
            raise Abort('name of an option')
        return E2.new_obj(s, 'opt', v=z3.Bool('option.' + nm[0]))
    L.ctors['llvm::cl::opt'] = opt_ctor
    parser = z3.Const('parser', U)
    E.contracts['clang::tooling::CommonOptionsParser::create'] = lambda E2, s, c: parser
    M = L.models
    M['llvm::Expected::operator bool'] = lambda E2, s, c: ok
    M['llvm::Expected::get'] = M['llvm::Expected::operator*'] = lambda E2, s, c: z3.Const('options', U)
    M['llvm::Expected::takeError'] = lambda E2, s, c: z3.Const('error', U)

    # diagnostics of the tool itself are not specified
    errs = z3.Const('errs', U)
    M['llvm::errs'] = lambda E2, s, c: errs

    def quiet(g):
        def h(E2, s, c):
            o = E2.rv(s, c.obj if c.obj is not None else c.args[0])
            return errs if is_z3(o) and o.eq(errs) else (g(E2, s, c) if g else NotImplemented)
        return h
    for q in ('llvm::raw_ostream::operator<<', 'llvm::operator<<', 'clang::operator<<'):
        M[q] = quiet(M.get(q))
    E.contracts['(anonymous namespace)::emitQuotedArguments'] = quiet(None)

    L.pure |= {'clang::tooling::CommonOptionsParser::getCompilations', 'clang::tooling::CommonOptionsParser::getSourcePathList',
               'clang::tooling::CompilationDatabase::getCompileCommands', 'clang::tooling::getAbsolutePath'}
    one_path = vec(E, st, STR, z3.IntVal(1), z3.Const('paths', z3.ArraySort(INT, STR)))
    E.contracts['clang::tooling::CommonOptionsParser::getSourcePathList'] = lambda E2, s, c: one_path
    ADJ = E.new_obj(st, 'adjusters', log=())
    E.contracts['clang::tooling::ClangTool::ClangTool'] = lambda E2, s, c: None

    def append(E2, s, c):
        v = E2.rv(s, c.args[0])
        s.set(ADJ, 'log', s.get(ADJ, 'log') + ((v,),))
    E.contracts['clang::tooling::ClangTool::appendArgumentsAdjuster'] = append

    def factory(E2, s, c):
        act = E2.T(c.fn['targs'][0]).get('rec', '') if c.fn.get('targs') else ''
        if not act.endswith('GenpybindAction'):
            raise Abort('action of the tool')
        return z3.Const('factory', U)
    for q in list(E.tu.by_q) + ['clang::tooling::newFrontendActionFactory']:
        if strip(q) == 'clang::tooling::newFrontendActionFactory':
            E.contracts[q] = factory
    M['clang::tooling::newFrontendActionFactory'] = factory

    M['std::make_shared'] = lambda E2, s, c: z3.Const('pch', U)      # (default argument)

    def lpush(E2, s, c):
        s.set(G, 'deflt', s.get(G, 'deflt') + 1)
        E2.oblige(s, E2.to_term(s, c.args[0]) == sv('-'), 'standard output is the default')
    for cl in ('list_storage', 'list'):
        M['llvm::cl::%s::empty' % cl] = lambda E2, s, c: nofiles
        M['llvm::cl::%s::push_back' % cl] = lpush
    for q in ('operator bool', 'getValue'):
        E.contracts['llvm::cl::opt_storage<bool, false, false>::' + q] = lambda E2, s, c: s.get(E2.rv(s, c.obj), 'v')
    mine = {nm: z3.Const('adjuster.' + nm, U) for nm in ('getCpp17OrLaterAdjuster', 'getDefaultResourceDirAdjuster')}
    for nm, v in mine.items():
        E.contracts['(anonymous namespace)::' + nm] = lambda E2, s, c, v=v: v
    params(E, st, f)
    E.current = 'main'
    for s, r in run(E, f, st):
        r = E.rv(s, r)
        ran = s.get(G, 'ran')
        if which == 'status':
            E.oblige(s, z3.Implies(z3.Not(ok), z3.And(r != 0, ran == 0)), 'post: invalid options yield a failing exit status, nothing is analysed')
            E.oblige(s, z3.Implies(ok, ran == 1), 'post: the header is analysed once')
            E.oblige(s, z3.Implies(z3.And(ok, z3.Not(xfail)), r == code), 'post: the exit status is that of the analysis')
            E.oblige(s, z3.Implies(z3.And(ok, xfail), (r == 0) == (code != 0)), 'post: --xfail reverses the exit status')
            E.oblige(s, z3.Implies(ok, s.get(G, 'deflt') == z3.If(nofiles, 1, 0)), 'post: standard output is used only if no output file is given')
            continue
        if E.entails(s, ran == 0):
            continue
        seen = []
        for (v,) in s.get(ADJ, 'log'):
            if isinstance(v, (Closure, FnVal)):
                # an adjuster defined in place has to keep the command
                t = s.copy()
                n, arr = E.fresh_const(INT, 'n'), E.fresh_const(z3.ArraySort(INT, STR), 'a')
                t.assume(n >= 1)
                o = vec(E, t, STR, n, arr)
                for t2, r2 in E.invoke(t, v, [o, z3.Const('filename', STR)], {'k': 'call', 'l': 0, 't': None}):
                    d = t2.heap[E.rv(t2, r2).oid]
                    E.oblige(t2, z3.And(d['n'] == n, d['arr'] == arr), 'post: other adjusters keep the command')
                continue
            nm = v.decl().name() if is_z3(v) else '?'
            seen.append(nm)
            known = nm.startswith('adjuster.') or nm in ('clang::tooling::' + x for x in (
                'getClangStripOutputAdjuster', 'getClangStripDependencyFileAdjuster', 'getClangSyntaxOnlyAdjuster'))
            if not known and nm == 'clang::tooling::getInsertArgumentAdjuster' and z3.is_string_value(v.arg(0)):
                txt = v.arg(0).as_string()
                known = True
                E.oblige(s, not any(txt.startswith(x) for x in ('-x', '-std', '--std', '--language', '-resource-dir', '--')),
                         'post: the arguments added concern neither language nor standard')
            if not known:
                raise Abort('adjuster ' + nm)
        for nm in mine:
            E.oblige(s, seen.count('adjuster.' + nm) == 1, 'post: %s is applied once' % nm)


UNITS += [('main', SRC, lambda E: main_(E, 'status'))]


def severity(E):
    """Diagnostics::report: what is named an error is an error."""
    setup(E)
    f = one(E.tu, 'genpybind::Diagnostics::report', lambda g: E.T(g['params'][1]['t'])['k'] == 'enum')
    st = State()
    kinds = E.tu.enums['genpybind::Diagnostics::Kind']
    levels = E.tu.enums.get('clang::DiagnosticsEngine::Level') or {}
    kind = z3.Int('kind')
    st.assume(z3.Or(*[kind == v for v in kinds.values()]))
    G = E.new_obj(st, 'ghost', reports=z3.IntVal(0), id=z3.IntVal(-1), level=z3.IntVal(-1), made=z3.IntVal(-1))

    def custom(E2, s, c):
        s.set(G, 'level', E2.to_term(s, c.args[0]))
        i = E2.fresh_const(INT, 'id')
        s.set(G, 'made', i)
        return i

    def report(E2, s, c):
        s.set(G, 'reports', s.get(G, 'reports') + 1)
        s.set(G, 'id', E2.to_term(s, c.args[-1]))
        return z3.Const('builder', U)
    E.lib.models['clang::DiagnosticsEngine::getCustomDiagID'] = custom
    E.lib.models['clang::DiagnosticsEngine::Report'] = report
    m = E.lib.models.get('clang::operator<<')

    def out(E2, s, c):
        return z3.Const('builder', U)
    for q in ('clang::operator<<', 'clang::DiagnosticBuilder::operator<<', 'clang::StreamingDiagnostic::operator<<'):
        E.lib.models[q] = out
    E.contracts['clang::Decl::getASTContext'] = lambda E2, s, c: z3.Const('context', U)
    st.env[f['params'][0]['id']] = E.new_cell(st, z3.Const('decl', U))
    st.env[f['params'][1]['id']] = E.new_cell(st, kind)
    err = z3.Or(*[kind == v for n, v in kinds.items() if n.endswith('Error')])
    E.current = 'Diagnostics::report'
    if not levels:
        raise Abort('severity levels')
    for s, r in run(E, f, st):
        lv = s.get(G, 'level')
        E.oblige(s, s.get(G, 'reports') == 1, 'post: one diagnostic')
        E.oblige(s, s.get(G, 'id') == s.get(G, 'made'), 'post: the diagnostic that was asked for')
        E.oblige(s, err == z3.Or(lv == levels['Error'], lv == levels['Fatal']), 'post: errors (and only errors) count as errors')


UNITS += [('Diagnostics::report', 'src/diagnostics.cpp', severity)]

from . import pipeline as _p
UNITS += _p.UNITS

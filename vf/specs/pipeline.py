"""HandleTranslationUnit: the order of the stages and what goes into the output files."""
from .emit import *

TOOL = 'src/tool.cpp'
Sel = z3.Select


def option_of(E, c, name):
    from .c20 import has_literal
    o = c.node.get('obj') or (c.node.get('a') or [{}])[0]
    while isinstance(o, dict) and o.get('k') in ('cast', 'paren') and 'e' in o:
        o = o['e']
    g = E.tu.globals.get(o.get('id'))
    return bool(g) and has_literal(g, name)


def translation_unit(E):
    E.abstract_strings = False
    setup(E)
    f = one(E.tu, '(anonymous namespace)::GenpybindASTConsumer::HandleTranslationUnit')
    st = State()
    L, M, C = E.lib, E.lib.models, E.contracts
    me = this(E, st, f)
    params(E, st, f)
    L.pure |= {'clang::ASTContext::getSourceManager', 'clang::ASTContext::getTranslationUnitDecl', 'clang::SourceManager::getMainFileID'}
    term = lambda s, v: E.to_term(s, v)
    uf = lambda n, a, so=U: E.uf('spec.' + n, a, so)
    ok, cyc = z3.Bool('graph.valid'), z3.Bool('graph.cyclic')
    G0 = z3.Const('graph', U)
    reported, created, written = [E.new_obj(st, 'ghost', log=()) for _ in range(3)]
    note = lambda s, o, *r: s.set(o, 'log', s.get(o, 'log') + (('rec',) + r,))
    builder = z3.Const('builder', U)
    L.ctors['genpybind::DeclContextGraphBuilder'] = lambda E2, s, ty, a, e: builder
    C['genpybind::DeclContextGraphBuilder::buildGraph'] = lambda E2, s, c: optional(E2, s, ok, G0)
    C['genpybind::DeclContextGraphBuilder::getRelocatedDecls'] = lambda E2, s, c: uf('relocated', [builder])
    C['genpybind::deriveEffectiveVisibility'] = lambda E2, s, c: uf('visibility', [term(s, c.args[0])])
    C['genpybind::reachableDeclContexts'] = lambda E2, s, c: uf('reachable', [term(s, c.args[0])])

    def cycles(E2, s, c):
        note(s, reported, 'cycles', (term(s, c.args[0]), term(s, c.args[1])))
        return cyc
    C['genpybind::reportExposeHereCycles'] = cycles
    C['genpybind::declContextsWithVisibleNamedDecls'] = lambda E2, s, c: uf('with_visible', [term(s, c.args[1]), term(s, c.args[3])])

    def hide(E2, s, c):
        if not isinstance(c.args[3], LV):
            raise Abort('visibilities')
        c.args[3].store(E2, s, uf('hidden', [term(s, c.args[0]), term(s, c.args[2]), term(s, c.args[3]), E2.as_str(s, c.args[4])]))
        return None
    C['genpybind::hideNamespacesBasedOnExposeInAnnotation'] = hide
    C['genpybind::pruneGraph'] = lambda E2, s, c: uf('pruned', [term(s, a) for a in c.args])

    def unreachable(E2, s, c):
        note(s, reported, 'unreachable', (term(s, c.args[0]), term(s, c.args[1])))
        return None
    C['genpybind::reportUnreachableVisibleDeclContexts'] = unreachable
    for q in list(E.tu.by_q):
        if strip(q).endswith('inspectGraph'):
            C[q] = lambda E2, s, c: None
    M['clang::Decl::dump'] = lambda E2, s, c: None

    # options
    name = E.new_cell(st, z3.Const('option.module_name', STR))
    given = st.cells[name.id]
    nfiles, paths = z3.Int('files'), z3.Const('files.at', z3.ArraySort(INT, STR))
    st.assume(nfiles >= 0)
    files = vec(E, st, STR, nfiles, paths, None)
    flag = {}
    for g in E.tu.globals.values():
        t = str(E.T(g['t'])['s']) if isinstance(g.get('t'), int) else ''
        if t.startswith('llvm::cl::opt<bool'):
            st.env[g['id']] = E.new_cell(st, z3.Bool('option.%s' % g.get('n')))
        elif t.startswith('llvm::cl::opt<std::') or t.startswith('llvm::cl::opt<std::string'):
            st.env[g['id']] = name
        elif t.startswith('llvm::cl::list<std::') :
            st.env[g['id']] = files
    main = z3.Const('main_file', STR)
    entry = z3.Const('main_entry', U)
    st.assume(entry != NULL)
    M['clang::SourceManager::getFileEntryRefForID'] = lambda E2, s, c: entry
    for q in ('operator->', 'operator*'):
        M['clang::CustomizableOptional::' + q] = lambda E2, s, c: term(s, c.obj)

    def assign_(E2, s, c):
        if not isinstance(c.obj, LV):
            return NotImplemented
        c.obj.store(E2, s, E2.rv(s, c.args[0]) if not isinstance(E2.rv(s, c.args[0]), Lit) else E2.as_str(s, c.args[0]))
        return c.obj
    M['llvm::cl::opt::operator='] = assign_
    for q in ('operator bool', 'getValue', 'operator basic_string', 'operator const bool &'):
        M['llvm::cl::opt_storage::' + q] = lambda E2, s, c: c.obj if isinstance(c.obj, (LV, Obj)) else NotImplemented
    C['clang::FileEntryRef::getName'] = lambda E2, s, c: main
    M['llvm::sys::path::stem'] = lambda E2, s, c: uf('stem', [E2.as_str(s, c.args[0])], STR)

    def valid(E2, s, c):
        if not isinstance(c.args[0], LV):
            raise Abort('makeValidIdentifier')
        c.args[0].store(E2, s, uf('identifier', [E2.as_str(s, c.args[0])], STR))
        return None
    C['genpybind::makeValidIdentifier'] = valid
    mod = z3.If(given == strval(''), uf('identifier', [uf('stem', [main], STR)], STR), given)

    # files
    fail = lambda p: uf('no_such_file', [p], BOOL)
    stream_ = lambda p: z3.If(fail(p), NULL, uf('file', [p]))
    st.assume(z3.ForAll([z3.Const('p', STR)], uf('file', [z3.Const('p', STR)]) != NULL, patterns=[uf('file', [z3.Const('p', STR)])]))

    def create(E2, s, c):
        a = [E2.to_bool(s, x) for x in c.args[1:5]]
        E2.oblige(s, z3.Not(a[0]), 'files are text files')
        E2.oblige(s, z3.And(a[1], a[2]), 'files are written to a temporary that is removed on failure')
        E2.oblige(s, z3.Not(a[3]), 'no directories are created')
        note(s, created, 'create', (E2.as_str(s, c.args[0]),))
        return stream_(E2.as_str(s, c.args[0]))
    C['clang::CompilerInstance::createOutputFile'] = create

    def out(E2, s, c):
        o = E2.rv(s, c.obj)
        if isinstance(o, Ptr):
            o = E2.rv(s, o.to)
        if is_z3(o) and o.sort() == U:
            note(s, written, 'write', (o, E2.as_str(s, c.args[0])))
            return c.obj
        return NotImplemented
    base = M['llvm::raw_ostream::operator<<']

    def out2(E2, s, c):
        r = out(E2, s, c) if c.obj is not None else NotImplemented
        return base(E2, s, c) if r is NotImplemented else r
    M['llvm::raw_ostream::operator<<'] = out2
    L.ctors['genpybind::TranslationUnitExposer'] = lambda E2, s, ty, a, e: uf('exposer', [term(s, a[1]), term(s, a[2])])

    def emit(E2, s, c):
        v = E2.rv(s, c.args[0])
        j = E2.fresh_const(INT, 'j')
        E2.oblige(s, s.get(v, 'n') == nfiles, 'the module is distributed over the files asked for')
        E2.oblige(s, nfiles >= 1, 'there is at least one file')
        E2.oblige(s, z3.Implies(z3.And(j >= 0, j < nfiles), Sel(s.get(v, 'arr'), j) == uf('file', [Sel(paths, j)])), 'the files are used in the order given')
        note(s, written, 'emit', (term(s, c.obj), E2.as_str(s, c.args[1])))
        return None
    C['genpybind::TranslationUnitExposer::emitModule'] = emit
    handler = E.to_term(st, st.get(me, 'pragma_handler'))
    inc = uf('includes', [handler])
    C['genpybind::PragmaGenpybindHandler::getIncludes'] = lambda E2, s, c: uf('includes', [term(s, c.obj)])
    L.seq_hooks.insert(0, lambda E2, s, v: Seq(uf('includes.n', [], INT), lambda E3, s3, i: uf('includes.at', [i], STR), ('includes',), lambda E3, s3: [uf('includes.n', [], INT) >= 0])
                       if is_z3(v) and v.eq(inc) else None)
    acc = lambda i: uf('includes.text', [i], STR)
    k = z3.Int('k')
    line = lambda i: z3.Concat(strval('#include '), uf('includes.at', [i], STR), strval('\n'))
    head = z3.Concat(strval('#include "'), main, strval('"\n#include <genpybind/binding-helpers.h>\n#include <pybind11/pybind11.h>\n'))

    st.assume(acc(z3.IntVal(0)) == head)

    def inv_text(E2, s0, q, mods):
        cell = [m for m in sorted(mods, key=str) if is_z3(E2.mod_val(s0, m)) and E2.mod_val(s0, m).sort() == STR]
        if len(cell) != 1:
            raise Abort('text of the includes')
        return [('includes so far', lambda s, i: E2.mod_val(s, cell[0]) == acc(i))]

    def step(E2, s, i, q):
        s.assume(acc(i + 1) == z3.Concat(acc(i), line(i)))     # definition
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] == 'rfor' and is_z3(E2.rv(s, r)) and E2.rv(s, r).eq(inc), inv_text, auto=False, ghost=step))

    def inv_files(E2, s0, q, mods):
        o = mod_obj(E2, s0, mods, 'vec')
        return [('files created', lambda s, i: z3.And(s.heap[o]['n'] == i, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), z3.And(
            z3.Not(fail(Sel(paths, k))), Sel(s.heap[o]['arr'], k) == uf('file', [Sel(paths, k)]))), patterns=[Sel(paths, k)])))]
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: n['k'] == 'rfor' and E2.rv(s, r) == files, inv_files, auto=False))
    E.current = 'HandleTranslationUnit'
    V0 = uf('visibility', [G0])
    W = uf('with_visible', [G0, V0])
    V1 = uf('hidden', [G0, W, V0, mod])
    G1 = uf('pruned', [G0, W, V1])
    allok = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nfiles), z3.Not(fail(Sel(paths, k)))), patterns=[Sel(paths, k)])
    text = z3.Concat(z3.If(handler != NULL, acc(uf('includes.n', [], INT)), head), strval('\n'))
    go = z3.And(ok, z3.Not(cyc))
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(reported, 'log'), [Cond(ok, [('rec', 'cycles', (G0, uf('reachable', [V0]))), Cond(cyc, [], [('rec', 'unreachable', (G1, W))])], [])],
                 'post: cycles and unreachable scopes are reported')
        if E.entails(s, z3.Not(go)):
            E.log_eq(s, s.get(created, 'log'), [], 'post: no files if there were errors')
        elif E.entails(s, allok):
            E.log_eq(s, s.get(created, 'log'), [ForEach(None, nfiles, lambda i: [('rec', 'create', (Sel(paths, i),))])], 'post: all files asked for are created, in order')
        E.log_eq(s, s.get(written, 'log'), [Cond(z3.And(go, nfiles > 0, allok), [
            ForEach(None, nfiles, lambda i: [('rec', 'write', (uf('file', [Sel(paths, i)]), text))]), ('rec', 'emit', (uf('exposer', [G1, V1]), mod))], [])],
            'post: every file starts with the same includes, then the module is emitted for the pruned graph')


UNITS = [('HandleTranslationUnit', TOOL, translation_unit)]

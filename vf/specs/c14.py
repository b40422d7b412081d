"""C14: properties pair exactly the annotated getter and setter."""
from .c18 import *

UNITS = []


def emit(E):
    f = one(E.tu, 'genpybind::RecordExposer::emitProperties')
    st = start(E, f)
    binding_contracts(E)
    me = this(E, st, f)
    os, _, _ = bind(E, st, f)
    D = diagnostics(E, st)
    m = st.heap[st.get(me, 'properties').oid]
    get = lambda f, x: z3.Select(m['val.' + f], x)

    def item(entry):
        x = entry.k
        g, s = get('getter', x), get('setter', x)
        ptr = lambda t: [', ', ('rec', 'function pointer', (t,))]
        return [Cond(g == NULL, [], [Cond(s != NULL, ['context.def_property('], ['context.def_property_readonly('])] + lit(E, x)
                     + ptr(g) + [Cond(s != NULL, ptr(s), []), ');\n'])]

    def inv(E2, st0, q, mods):
        out = []
        for mm in mods:
            if mm[0] == 'h' and mm[2] == 'err':
                k = z3.Int('k!')
                x = q.get(E, st0, k).k
                bad = z3.And(get('getter', x) == NULL, get('setter', x) != NULL)
                out.append(('setters without getter are errors', lambda s, i, mm=mm: s.heap[mm[1]]['err'] == z3.Exists([k], z3.And(k >= 0, k < i, bad))))
        return out
    E.loop_specs.append(LoopSpec(lambda E2, n, s, r: True, inv))
    E.current = 'RecordExposer::emitProperties'
    for s, _ in run(E, f, st):
        E.log_eq(s, s.get(os, 'log'), [ForEach(('mapentries', m['dom']), None, item, True)], 'post: every property once, with its getter and setter')
        x = z3.Const('x!', STR)
        E.oblige(s, s.get(D, 'err') == z3.Exists([x], z3.And(z3.Select(m['dom'], x), get('getter', x) == NULL, get('setter', x) != NULL)),
                 'post: a setter without getter is an error, and nothing else is')


UNITS += [('RecordExposer::emitProperties', EXPOSE, emit), ('RecordExposer::handleDeclImpl (properties)', EXPOSE, lambda E: record(E, True))]


from . import c04 as _c04
UNITS += [u for u in _c04.UNITS if u[0] == 'processAnnotation(MethodDeclAttrs)']

"""Replaces strings by an uninterpreted sort where only equality matters.

Sound for validity: a counterexample over strings is one over the abstract sort
(distinct literals are kept distinct), so what is proved abstractly holds.
"""
import z3

STR = z3.StringSort()
S = z3.DeclareSort('Text')


class Unsupported(Exception):
    pass


class Abstraction:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.lits = {}
        self.fns = {}
        self.bound = 0
        self.lossy = False

    def sort(self, s):
        if s == STR:
            return S
        if s.kind() == z3.Z3_ARRAY_SORT:
            d, r = self.sort(s.domain()), self.sort(s.range())
            return s if d == s.domain() and r == s.range() else z3.ArraySort(d, r)
        if s.kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT):
            raise Unsupported()
        return s

    def fn(self, d):
        doms = [self.sort(d.domain(i)) for i in range(d.arity())]
        rng = self.sort(d.range())
        if rng == d.range() and all(doms[i] == d.domain(i) for i in range(d.arity())):
            return d
        k = d.get_id()
        if k not in self.fns:
            self.fns[k] = z3.Function('~' + d.name(), *(doms + [rng])) if doms else z3.Const('~' + d.name(), rng).decl()
            self.keep.append(d)
        return self.fns[k]

    def go(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self.make(t)
            self.cache[k] = r
            self.keep.append(t)
        return r

    def make(self, t):
        if z3.is_quantifier(t):
            n = t.num_vars()
            self.bound += 1
            raw = [z3.Const('%s~%d' % (t.var_name(i), self.bound), t.var_sort(i)) for i in range(n)]
            inst = lambda e: z3.substitute_vars(e, *reversed(raw))
            body = self.go(inst(t.body()))
            vs = [self.go(v) for v in raw]
            if t.is_lambda():
                return z3.Lambda(vs, body)
            pats = []
            for i in range(t.num_patterns()):
                p = [self.go(inst(c)) for c in t.pattern(i).children()]
                pats.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
            f = z3.ForAll if t.is_forall() else z3.Exists
            return f(vs, body, patterns=pats) if pats else f(vs, body)
        if z3.is_string_value(t):
            v = t.as_string()
            if v not in self.lits:
                self.lits[v] = z3.Const('text!%d' % len(self.lits), S)
            return self.lits[v]
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return self.fn(t.decl())()
        d = t.decl()
        a = [self.go(c) for c in t.children()]
        k = d.kind()
        if all(x.eq(y) for x, y in zip(a, t.children())) and self.sort(t.sort()) == t.sort():
            return t
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.fn(d)(*a)
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*a)
        if k == z3.Z3_OP_ITE:
            return z3.If(*a)
        if k == z3.Z3_OP_SELECT:
            return z3.Select(*a)
        if k == z3.Z3_OP_STORE:
            return z3.Store(*a)
        if k == z3.Z3_OP_CONST_ARRAY:
            return z3.K(self.sort(t.sort().domain()), a[0])
        if k == z3.Z3_OP_AND:
            return z3.And(*a)
        if k == z3.Z3_OP_OR:
            return z3.Or(*a)
        if k == z3.Z3_OP_NOT:
            return z3.Not(a[0])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(*a)
        if any(c.sort() == STR for c in t.children()) or t.sort() == STR:
            # other operations: uninterpreted (what is refuted so has to be checked again)
            if t.sort().kind() == z3.Z3_RE_SORT or any(c.sort().kind() == z3.Z3_RE_SORT for c in t.children()):
                raise Unsupported()
            self.lossy = True
            nm = '~%s/%d' % (d.name(), len(a))
            key = (nm,) + tuple(x.sort().name() for x in a)
            if key not in self.fns:
                self.fns[key] = z3.Function(nm, *([x.sort() for x in a] + [self.sort(t.sort())]))
            return self.fns[key](*a)
        return d(*a)

    def literals(self):
        ls = list(self.lits.values())
        return [z3.Distinct(*ls)] if len(ls) > 1 else []

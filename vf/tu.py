"""Loading of the extracted AST of one translation unit."""
import json


class TU:
    def __init__(self, path):
        self.path = path
        d = json.load(open(path))
        self.types = d['types']
        self.records = d['records']
        self.enums = d['enums']
        self.globals = {g['id']: g for g in d['globals']}
        self.fns = {}
        self.by_q = {}
        for f in d['functions']:
            self.fns[f['fn']['id']] = f
            self.by_q.setdefault(f['fn']['q'], []).append(f)
        self._anc = {}

    def find(self, q, pred=None):
        c = [f for f in self.by_q.get(q, []) if 'body' in f or f.get('defaulted')]
        if pred:
            c = [f for f in c if pred(f)]
        return c

    def ts(self, t):
        return self.types[t]['s']

    def ancestors(self, q):
        if q in self._anc:
            return self._anc[q]
        r = {q}
        self._anc[q] = r
        for b in self.records.get(q, {}).get('bases', []):
            r |= self.ancestors(b)
        return r


def walk(node, fn):
    if isinstance(node, dict):
        fn(node)
        for v in node.values():
            walk(v, fn)
    elif isinstance(node, list):
        for v in node:
            walk(v, fn)

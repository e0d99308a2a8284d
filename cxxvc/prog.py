"""Merged program: the JSON ASTs of all exported translation units."""
import json
import re
from .vals import parse_ty, kind_of, strip_targs


def noatomic(t):
    """std::atomic<T> is stored as a T."""
    m = re.match(r'(?:const )?std::atomic<(.*)>[ &]*$', t) if 'std::atomic<' in t else None
    return m.group(1).strip() if m else t


class Prog:
    def __init__(self):
        self.funcs, self.bodies, self.records, self.enums, self.globals = {}, {}, {}, {}, {}
        self.by_name = {}
        self.overriders = {}
        self.sites = {}

    def load(self, path):
        d = json.load(open(path))
        for u, f in d['funcs'].items():
            o = self.funcs.get(u)
            if o is None:
                self.funcs[u] = f
            else:
                for k, v in f.items():
                    if k not in o or o[k] in (None, '', [], {}):
                        o[k] = v
        for n, r in d['records'].items():
            self.records.setdefault(n, r)
        for n, e in d['enums'].items():
            self.enums.setdefault(n, e)
        for n, g in d['globals'].items():
            if n not in self.globals or ('init' not in self.globals[n] and 'init' in g):
                self.globals[n] = g
        for b in d['bodies']:
            if b['fn'] in self.bodies:
                continue
            self.bodies[b['fn']] = b
        return self

    def finish(self):
        for u in self.bodies:
            f = self.funcs.get(u)
            if f:
                self.by_name.setdefault(f['name'], []).append(u)
        self.stripped = {u: strip_targs(f['name']) for u, f in self.funcs.items()}
        self._mro = {}
        return self

    def find(self, name, nparams=None, tmpl=None):
        r = [u for u in self.by_name.get(name, ())]
        if not r:
            r = [u for n, us in self.by_name.items() if strip_targs(n) == name for u in us]
        if nparams is not None:
            r = [u for u in r if len(self.funcs[u]['params']) == nparams]
        if tmpl:
            r = [u for u in r if tmpl in self.funcs[u]['name'] or tmpl in json.dumps(self.funcs[u].get('targs', ''))]
        return r

    def kind(self, t):
        t = noatomic(t)
        base, args, q = parse_ty(t)
        if base in self.enums and not q.replace('&', ''):
            return 'int'
        if base in self.records and not q.replace('&', '') and base.startswith(('buildcc', 'cxxvc')):
            return 'rec'
        return kind_of(t)

    def bases(self, c):
        """c and all its bases (depth-first, bases first)."""
        if c in self._mro:
            return self._mro[c]
        out = []
        r = self.records.get(c)
        if r:
            for b in r.get('bases', ()):
                for x in self.bases(parse_ty(b)[0] if '<' not in b else b):
                    if x not in out:
                        out.append(x)
            out.append(c)
        self._mro[c] = out
        return out

    def fields(self, c):
        out = []
        for x in self.bases(c):
            for f in self.records[x].get('fields', ()):
                out.append((x, f))
        return out

    def override(self, dyn, fn):
        """final overrider of virtual method fn in dynamic class dyn."""
        f = self.funcs[fn]
        if not f.get('virtual'):
            return fn
        best = fn
        for x in self.bases(dyn):
            for m in self.records[x].get('methods', ()):
                g = self.funcs.get(m['fn'])
                if g and m['name'] == f['base'] and len(g['params']) == len(f['params']) and bool(g.get('const')) == bool(f.get('const')) and \
                        [p['type'] for p in g['params']] == [p['type'] for p in f['params']]:
                    best = m['fn']
                if g and f['kind'] == 'dtor' and g['kind'] == 'dtor':
                    best = m['fn']
        return best

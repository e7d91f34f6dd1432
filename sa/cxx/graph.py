"""Call graph and effects over the extracted program."""
from .models import *


def children(e):
    if isinstance(e, dict):
        for k, v in e.items():
            if isinstance(v, (dict, list)):
                yield v
    elif isinstance(e, list):
        for v in e:
            if isinstance(v, (dict, list)):
                yield v


def nodes(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
        st.extend(children(x))


class Graph:
    def __init__(self, P):
        self.P = P
        self.m = Machine(P)
        self.cache = {}
        self.methods = {}
        for rk, r in P.records.items():
            for m in r.get('methods') or ():
                self.methods[m['f']] = m

    def parts(self, f):
        return [f.get('body'), f.get('inits')]

    def edges(self, e):
        """function keys that evaluating the syntax e may call"""
        out = set()
        for x in nodes(e):
            k = x.get('k')
            if k in ('Call', 'MCall', 'Ctor', 'Fn', 'MemFn') and x.get('f'):
                out.add(x['f'])
                if k in ('MCall', 'MemFn') and x.get('v'):
                    out |= set(self.overriders(x['f']))
            elif k == 'Lambda':
                for m in self.P.records.get(x['r'], {}).get('methods') or ():
                    if m['n'] == 'operator()':
                        out.add(m['f'])
        return out

    def overriders(self, fk):
        out = []
        for k, m in self.methods.items():
            seen = set(m.get('ov') or ())
            todo = list(seen)
            while todo:
                a = todo.pop()
                for b in (self.methods.get(a) or {}).get('ov') or ():
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
            if fk in seen:
                out.append(k)
        return out

    def callees(self, fk):
        c = self.cache.get(fk)
        if c is None:
            f = self.P.funcs.get(fk) or {}
            c = self.cache[fk] = set()
            for p in self.parts(f):
                c |= self.edges(p)
        return c

    def reach(self, roots):
        """function -> the function it is reached from"""
        seen = {r: None for r in roots}
        todo = list(roots)
        while todo:
            a = todo.pop()
            for b in sorted(self.callees(a)):
                if b not in seen:
                    seen[b] = a
                    todo.append(b)
        return seen

    def path(self, seen, fk):
        out = []
        while fk is not None and len(out) < 12:
            out.append((self.P.funcs.get(fk) or {}).get('qn', fk))
            fk = seen.get(fk)
        return ' <- '.join(out)

    def uses(self, e, pick, mode='write'):
        """(node, effect) of every node pick() selects; effect: read, write, addr (an address that may be written through)"""
        out = []
        P = self.P

        def go(x, mode):
            if isinstance(x, list):
                for y in x:
                    go(y, mode)
                return
            if not isinstance(x, dict):
                return
            if pick(x):
                out.append((x, mode))
            k = x.get('k')
            if k == 'Cast':
                sub = x['e']
                if x.get('ck') in ('LValueToRValue',):
                    return go(sub, 'read')
                if x.get('ck') == 'NoOp' and x.get('t', '').startswith('c') and x.get('lv'):
                    return go(sub, 'read')
                if x.get('ck') == 'NoOp' and x.get('t', '').startswith(('p:c', 'cp:c')) and x.get('x') == 'i':
                    return go(sub, 'read')
                return go(sub, mode)
            if k == 'Mem':
                for n in ('b', 'e', 'o'):
                    if isinstance(x.get(n), dict):
                        go(x[n], mode if not x.get('arrow') else 'read')
                return
            if k == 'Sub':
                for n, v in x.items():
                    if isinstance(v, dict):
                        go(v, mode)
                return
            if k == 'Asg' or k == 'Bin' and x.get('op') == '=':
                go(x['a'], 'write')
                go(x['b'], 'val')
                return
            if k == 'Decl':
                for v in x.get('v') or ():
                    t = self.m.ty(v['t'])
                    go(v.get('i'), 'addr' if t['k'] == 'ref' and not str(t['to']).startswith('c') else 'read' if t['k'] == 'ref' else 'val')
                    go(v.get('bind'), 'val')
                return
            if k == 'Un':
                o = x.get('op', '')
                for v in x.values():
                    if isinstance(v, dict):
                        go(v, 'write' if '++' in o or '--' in o else 'addr' if o == '&' and mode != 'read' else mode if o == '*' else 'read')
                return
            if k == 'MCall':
                c = self.methods.get(x['f'], {}).get('c') or (P.funcs.get(x['f'], {}).get('m') or {}).get('c')
                go(x.get('o'), 'read' if c or x.get('arrow') else 'write')
                ps = P.funcs.get(x['f'], {}).get('params') or []
                for i, a in enumerate(x.get('a') or []):
                    go(a, self.parmode(ps, i))
                return
            if k in ('Call', 'Ctor'):
                ps = P.funcs.get(x['f'], {}).get('params') or []
                for i, a in enumerate(x.get('a') or []):
                    go(a, self.parmode(ps, i))
                return
            for v in x.values():
                if isinstance(v, (dict, list)):
                    go(v, 'val')
        go(e, 'val')
        return out

    def parmode(self, ps, i):
        if i >= len(ps):
            return 'val'
        t = self.m.ty(ps[i]['t'])
        if t['k'] in ('ref', 'ptr'):
            return 'read' if str(t['to']).startswith('c') else 'write'
        return 'val'

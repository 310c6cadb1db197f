"""Abstract interpreter over exported LLVM IR.

A forward, path-sensitive dataflow / typestate analysis.  The abstract domain is
a set of abstract states per program point; an abstract state consists of the
call stack (functions with a body are followed, i.e. the analysis is context
sensitive), symbolic values for SSA names, a lazily named symbolic memory, a
finite set of comparison facts and the state of the rule's monitor automaton.
Nothing is executed: unknown memory, unknown callees, unknown user code and
every exceptional edge are over-approximated by fresh symbols and by taking all
outcomes, and states are merged at join points when equal after removing dead
names, unreachable memory and facts about dead symbols.
"""
import json, re, sys, time
from collections import deque

TOP = ('u',)
NULL = 0


_BASES = {}
_TAGS = frozenset(('s', 'a', 'arg', 'h', 'o', 'l', 'g', 'vf'))


def _collect(v, out):
    if v.__class__ is tuple:
        if v and v[0].__class__ is str and v[0] in _TAGS:
            out.add(v)
        for x in v:
            c = x.__class__
            if c is tuple or c is frozenset:
                _collect(x, out)
    else:
        for x in v:
            c = x.__class__
            if c is tuple or c is frozenset:
                _collect(x, out)


def bases_of(v):
    """the objects a value mentions (memoised)"""
    r = _BASES.get(v)
    if r is None:
        o = set()
        if isinstance(v, (tuple, frozenset)):
            _collect(v, o)
        if len(_BASES) > 300000:
            _BASES.clear()
        r = _BASES[v] = frozenset(o)
    return r


class EngineError(Exception):
    pass


class Stop(Exception):
    pass


def conv(v):
    """constant encoding -> abstract value (wrapped)"""
    k = v[0]
    if k == 'c':
        return (v[2] & 1) if v[1] == 1 else v[2]
    if k == 'n':
        return 0
    if k == 'g':
        return ('p', ('g', v[1]), v[2])
    if k == 'a':
        return ('agg', tuple(conv(x) for x in v[1]))
    if k == 'md':
        return ('md', v[1])
    return TOP


class K:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def flat(t):
    out = []
    for x in t:
        if isinstance(x, tuple):
            out += flat(x)
        else:
            out.append(x)
    return tuple(out)


def op(v):
    if isinstance(v, int):
        return v
    return K(conv(v))


class Fn:
    __slots__ = ('name', 'dem', 'blocks', 'args', 'decl', 'nounwind', 'noreturn', 'file', 'line',
                 'preds', 'live', 'after', 'aftc', 'nargs', 'multi', 'diname', 'scope', 'ret', 'short')


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d['files']
        self.fns = {}
        self.globals = {g['name']: g for g in d['globals']}
        self.classes = d['classes']
        self.class_by_id = {}
        self.class_by_name = {}
        for c in self.classes:
            if c['id']:
                self.class_by_id[c['id']] = c
            self.class_by_name.setdefault(c['name'], c)
        self.vt_by_type = {}
        for g in d['globals']:
            for off, t in g.get('types', []):
                self.vt_by_type.setdefault(t, []).append((g['name'], off))
        for f in d['functions']:
            self.add_fn(f)
        self.ginit = {}

    def add_fn(self, f):
        F = Fn()
        F.name = f['name']
        F.dem = re.sub(r'\[abi:\w+\]', '', f['dem'])
        F.decl = f['decl']
        F.nounwind = f['nounwind']
        F.noreturn = f['noreturn']
        F.file = f.get('file')
        F.line = f.get('line')
        F.diname = f.get('diname')
        F.scope = f.get('scope', '')
        F.args = f['args']
        F.nargs = len(f['args'])
        F.ret = f['ret']
        F.blocks = None
        F.short = None
        self.fns[F.name] = F
        if F.decl:
            return
        F.blocks = []
        for b in f['blocks']:
            out = []
            for i in b:
                out.append(self.conv_ins(i))
            F.blocks.append(out)
        self.cfg(F)

    def conv_ins(self, i):
        o = i[0]
        if o == 'load':
            return (o, i[1], op(i[2]), i[3], i[4], self.loc(i[5]), i[6])
        if o == 'store':
            return (o, op(i[1]), op(i[2]), i[3], i[4], self.loc(i[5]), i[6])
        if o == 'gep':
            return (o, i[1], op(i[2]), i[3], tuple((op(a), s) for a, s in i[4]))
        if o == 'icmp':
            return (o, i[1], i[2], op(i[3]), op(i[4]), i[5], self.loc(i[6]))
        if o == 'bin':
            return (o, i[1], i[2], op(i[3]), op(i[4]), i[5], self.loc(i[6]))
        if o == 'cast':
            return (o, i[1], i[2], op(i[3]), i[4], i[5])
        if o == 'phi':
            return (o, i[1], {b: op(v) for b, v in i[2]})
        if o == 'sel':
            return (o, i[1], op(i[2]), op(i[3]), op(i[4]))
        if o in ('call', 'invoke'):
            r = (o, i[1], op(i[2]), [op(a) for a in i[3]], i[4], i[5], i[6], self.loc(i[7]))
            if o == 'invoke':
                r = r + (i[8], i[9])
            return r
        if o == 'br':
            return (o, op(i[1]), i[2], i[3], self.loc(i[4]))
        if o == 'switch':
            return (o, op(i[1]), i[2], i[3], self.loc(i[4]))
        if o == 'ret':
            return (o, op(i[1]) if i[1] is not None else None, self.loc(i[2]))
        if o == 'resume':
            return (o, op(i[1]), self.loc(i[2]))
        if o == 'lpad':
            return (o, i[1], i[2], [(c[0], conv(c[1]) if len(c) > 1 else None) for c in i[3]])
        if o == 'xv':
            return (o, i[1], op(i[2]), i[3])
        if o == 'iv':
            return (o, i[1], op(i[2]), op(i[3]), i[4], i[5])
        if o == 'rmw':
            return (o, i[1], i[2], op(i[3]), op(i[4]), i[5], self.loc(i[6]), i[7])
        if o == 'cmpxchg':
            return (o, i[1], op(i[2]), op(i[3]), op(i[4]), i[5], self.loc(i[6]))
        return tuple(i)

    def loc(self, l):
        if not l:
            return None
        return (l[0], l[1])

    def locstr(self, l):
        if not l:
            return '?'
        f = self.files[l[0]]
        f = re.sub(r'^.*/include/boost/statechart/', 'include/boost/statechart/', f)
        return '%s:%d' % (f, l[1])

    def cfg(self, F):
        n = len(F.blocks)
        succ = [[] for _ in range(n)]
        for b, ins in enumerate(F.blocks):
            t = ins[-1]
            if t[0] == 'br':
                succ[b] = [t[2], t[3]]
            elif t[0] == 'jmp':
                succ[b] = [t[1]]
            elif t[0] == 'switch':
                succ[b] = [t[2]] + [c[1] for c in t[3]]
            elif t[0] == 'invoke':
                succ[b] = [t[8], t[9]]
        preds = [set() for _ in range(n)]
        for b in range(n):
            for s in succ[b]:
                preds[s].add(b)
        F.preds = preds
        F.multi = [len(p) > 1 for p in preds]

        def uses(i):
            o = i[0]
            u = []
            if o == 'phi':
                return u
            for x in i[1:] if o in ('store', 'br', 'switch', 'ret', 'resume') else i[2:]:
                pass
            if o == 'load': u = [i[2]]
            elif o == 'store': u = [i[1], i[2]]
            elif o == 'gep': u = [i[2]] + [a for a, s in i[4]]
            elif o == 'icmp': u = [i[3], i[4]]
            elif o == 'bin': u = [i[3], i[4]]
            elif o == 'cast': u = [i[3]]
            elif o == 'sel': u = [i[2], i[3], i[4]]
            elif o in ('call', 'invoke'): u = [i[2]] + list(i[3])
            elif o == 'br': u = [i[1]]
            elif o == 'switch': u = [i[1]]
            elif o == 'ret': u = [i[1]]
            elif o == 'resume': u = [i[1]]
            elif o == 'xv': u = [i[2]]
            elif o == 'iv': u = [i[2], i[3]]
            elif o == 'rmw': u = [i[3], i[4]]
            elif o == 'cmpxchg': u = [i[2], i[3], i[4]]
            return [x for x in u if isinstance(x, int)]
        gen = []
        kill = []
        phiuse = [dict() for _ in range(n)]
        for b, ins in enumerate(F.blocks):
            g = set(); k = set()
            for i in ins:
                for u in uses(i):
                    if u not in k:
                        g.add(u)
                if i[0] == 'phi':
                    for pb, v in i[2].items():
                        if isinstance(v, int):
                            phiuse[b].setdefault(pb, set()).add(v)
                if i[0] not in ('store', 'br', 'switch', 'ret', 'resume', 'jmp', 'unreachable', 'fence') and len(i) > 1 and isinstance(i[1], int) and i[1] >= 0:
                    k.add(i[1])
            gen.append(g); kill.append(k)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in succ[b]:
                    o |= live[s]
                    o |= phiuse[s].get(b, set())
                li = gen[b] | (o - kill[b])
                if li != live[b]:
                    live[b] = li
                    ch = True
        def after(b, ip):
            """values used after the call at (b, ip)"""
            o = set()
            for s in succ[b]:
                o |= live[s]
                o |= phiuse[s].get(b, set())
            for i in reversed(F.blocks[b][ip + 1:]):
                if i[0] not in ('store', 'br', 'switch', 'ret', 'resume', 'jmp', 'unreachable', 'fence') and len(i) > 1 and isinstance(i[1], int) and i[1] >= 0:
                    o.discard(i[1])
                o.update(uses(i))
            return frozenset(o)
        F.after = after
        F.aftc = {}
        # names needed on entry to a block (before its phis, seen from any pred)
        F.live = []
        for b in range(n):
            pu = set()
            for s in phiuse[b].values():
                pu |= s
            F.live.append((frozenset(live[b] | pu)))

    # constant global memory
    def gload(self, name, off, ty, size):
        g = self.globals.get(name)
        if g is None or 'init' not in g:
            return None
        if not g['const']:
            return None
        if name not in self.ginit:
            cells = {}

            def walk(t, v, o):
                if isinstance(t, list) and t[0] == 's':
                    if v[0] == 'a':
                        for (eo, et, es), ev in zip(t[1], v[1]):
                            walk(et, ev, o + eo)
                else:
                    cells[o] = conv(v)
            walk(g['ty'], g['init'], 0)
            self.ginit[name] = cells
        return self.ginit[name].get(off)

    def method_of(self, tid, slot):
        """(method name, class name) for virtual slot `slot` of class with type id"""
        c = self.class_by_id.get(tid)
        seen = 0
        q = [c] if c else []
        while q and seen < 50:
            c = q.pop(0)
            seen += 1
            for nm, ln, ix in c['virtuals']:
                if ix == slot:
                    return nm, c['name']
            for bn, bo in c['bases']:
                if bo == 0:
                    b = self.class_by_name.get(bn)
                    if b:
                        q.append(b)
        return None, None

    def vtable_fn(self, tid, slot):
        for g, off in self.vt_by_type.get(tid, []):
            v = self.gload(g, off + 8 * slot, 'p', 8)
            if v is not None:
                return v
        return None

    def find_class(self, rx):
        r = re.compile(rx)
        return [c for c in self.classes if r.search(c['name'])]

    def flat_members(self, cls, base=0, depth=0):
        """all members incl. those of base classes: (name, offset, type, size, owner)"""
        out = []
        for nm, off, ty, sz in cls['members']:
            out.append((nm, base + off, ty, sz, cls['name']))
        if depth < 12:
            for bn, bo in cls['bases']:
                b = self.class_by_name.get(bn)
                if b:
                    out += self.flat_members(b, base + bo, depth + 1)
        return out


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'loc', 'ctx', 'allocas')

    def copy(self):
        f = Frame()
        f.fn = self.fn; f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.loc = dict(self.loc); f.ctx = self.ctx
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'mon', 'trace', 'exc', 'vt', 'freed')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {b: dict(c) for b, c in self.mem.items()}
        s.facts = dict(self.facts)
        s.mon = self.mon
        s.trace = self.trace
        s.exc = self.exc
        s.vt = dict(self.vt)
        return s


def subst_val(v, s, r):
    """replace symbol base s by value r (int or ('p',b,o)) inside v"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'p' and not isinstance(v[1], int):
            if v[1] == s:
                if isinstance(r, int):
                    return r + v[2] if isinstance(v[2], int) else TOP
                if r == TOP:
                    return TOP
                return ('p', r[1], r[2] + v[2])
            if isinstance(v[1], tuple):
                nb = subst_base(v[1], s, r)
                if nb is not v[1]:
                    return ('p', nb, v[2])
            return v
        if v == s:
            # bare symbol base inside a monitor
            return r[1] if isinstance(r, tuple) and r[0] == 'p' else v
        n = tuple(subst_val(x, s, r) for x in v)
        return n if n != v else v
    if isinstance(v, frozenset):
        return frozenset(subst_val(x, s, r) for x in v)
    return v


def subst_base(b, s, r):
    if b == s and isinstance(r, tuple) and r[0] == 'p' and r[2] == 0:
        return r[1]
    if isinstance(b, tuple):
        n = tuple(subst_base(x, s, r) if isinstance(x, tuple) else x for x in b)
        return n if n != b else b
    return b


def is_obj(b):
    """base that denotes an existing object (non-null)"""
    return b[0] in ('g', 'a', 'arg', 'h', 'o', 'vf')


def is_sym(b):
    return b[0] in ('s', 'l')


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def vkey(v):
    return repr(v)


class Rule:
    """base class of rules; override what is needed"""
    entry = None
    handlers = ()          # list of (compiled regex on demangled name, method)
    init_mon = ()
    widen_limit = 6

    def setup(self, eng, st, args):
        pass

    def on_store(self, eng, st, ptr, val, size, loc):
        pass

    def on_load(self, eng, st, ptr, val, size, loc):
        pass

    def on_return(self, eng, st, rv, loc):
        pass

    def on_unwind(self, eng, st, loc):
        pass

    def on_vcall(self, eng, st, call):
        return None

    def on_unknown_call(self, eng, st, call):
        return None

    def on_widen(self, eng, st, const, sym):
        pass

    def on_enter(self, eng, st, fn, args, loc):
        pass


class Call:
    __slots__ = ('name', 'dem', 'args', 'ret', 'nounwind', 'loc', 'id', 'fn', 'ins', 'method', 'cls', 'slot', 'obj', 'callee')


class OutOfTime(EngineError):
    """the exploration is incomplete; what was found so far stands"""


class Engine:
    def __init__(self, mod, rule, entry, budget=400000, follow_limit=80):
        self.m = mod
        self.rule = rule
        self.entry = entry
        self.budget = budget
        self.violations = []
        self.vkeys = set()
        self.ctxs = {}
        self.steps = 0
        self.joins = 0
        self.paths = 0
        self.returns = 0
        self.unwinds = 0
        self.calls_seen = {}
        self.fns_seen = set()
        self.visited = {}
        self.follow_limit = follow_limit
        self.deadline = None
        self.hcache = {}
        self.desc = {}
        self.events = 0
        self.covered_locs = set()

    # ---- naming -----------------------------------------------------------
    def ctx(self, parent, site, fn):
        k = (parent, site, fn)
        r = self.ctxs.get(k)
        if r is None:
            r = len(self.ctxs) + 1
            self.ctxs[k] = r
        return r

    def fresh(self, st, *site):
        """a new symbol named after `site`; older live symbols of the same
        name age (finite number of generations)"""
        g = 0
        while True:
            b = ('s',) + flat(site) + (g,)
            if not self.is_live(st, b):
                return ('p', b, 0)
            g += 1
            if g > 6:
                return TOP

    def is_live(self, st, b):
        def inside(v):
            if v == b:
                return True
            if isinstance(v, (tuple, frozenset)):
                for x in v:
                    if isinstance(x, (tuple, frozenset)) and inside(x):
                        return True
            return False
        if b in st.mem:
            return True
        for f in st.frames:
            for v in f.loc.values():
                if isinstance(v, tuple) and inside(v):
                    return True
        for bb, c in st.mem.items():
            if inside(bb):
                return True
            for v in c.values():
                if isinstance(v[0], tuple) and inside(v[0]):
                    return True
        if inside(st.mon):
            return True
        for k in st.facts:
            if inside(k):
                return True
        return False

    # ---- memory -----------------------------------------------------------
    def load(self, st, ptr, ty, size, loc, site):
        if isinstance(ty, list):  # aggregate
            if ptr == TOP or isinstance(ptr, int):
                return TOP
            return ('agg', tuple(self.load(st, ('p', ptr[1], ptr[2] + eo), et, es, loc, site + (eo,)) for eo, et, es in ty[1]))
        if not (isinstance(ptr, tuple) and ptr[0] == 'p'):
            return self.fresh(st, 'ld', site)
        b, o = ptr[1], ptr[2]
        if b[0] == 'g':
            v = self.m.gload(b[1], o, ty, size)
            if v is not None and v != TOP:
                return v
        c = st.mem.get(b)
        if c is not None:
            x = c.get(o)
            if x is not None:
                if x[1] == size:
                    return x[0]
                if isinstance(x[0], int) and x[1] > size:
                    v = x[0] & ((1 << (8 * size)) - 1)
                    return v
            else:
                for o2, x2 in c.items():
                    if o2 < o < o2 + x2[1] and x2[0] == 0:
                        return 0
        if b[0] == 'o' and b[1] == 'vt':
            v = None
        v = self.rule_lazy(st, b, o, ty, size)
        if v is None:
            if b[0] == 's' and len(b) > 1 and b[1] == 'vt':
                return ('p', ('vf', b, o), 0)
            v = self.fresh(st, 'm', *flat(site))
            if v != TOP:
                self.desc[v[1]] = (b, o)
        st.mem.setdefault(b, {})
        self.put(st, b, o, v, size)
        return v

    def rule_lazy(self, st, b, o, ty, size):
        f = getattr(self.rule, 'lazy', None)
        if f:
            return f(self, st, b, o, ty, size)
        return None

    def put(self, st, b, o, v, size):
        c = st.mem.setdefault(b, {})
        if o in c and c[o][1] == size:
            c[o] = (v, size)
            return
        for o2 in [o2 for o2, x2 in c.items() if o2 < o + size and o < o2 + x2[1]]:
            del c[o2]
        c[o] = (v, size)

    def store(self, st, ptr, v, ty, size):
        if not (isinstance(ptr, tuple) and ptr[0] == 'p'):
            return
        if isinstance(ty, list):
            for i, (eo, et, es) in enumerate(ty[1]):
                e = v[1][i] if isinstance(v, tuple) and v[0] == 'agg' and i < len(v[1]) else TOP
                self.store(st, ('p', ptr[1], ptr[2] + eo), e, et, es)
            return
        self.put(st, ptr[1], ptr[2], v, size)

    def havoc(self, st, base, lo=None, hi=None):
        c = st.mem.get(base)
        if not c:
            return
        if lo is None:
            c.clear()
            return
        for o in [o for o in c if lo <= o < hi]:
            del c[o]

    def memcpy(self, st, dst, src, n, site):
        if not (isinstance(dst, tuple) and dst[0] == 'p'):
            return
        cells = []
        if isinstance(src, tuple) and src[0] == 'p':
            if site is not None and n == 8 and src[1][0] != 'g':
                # a copied pointer equals the original, whatever that is
                sc = st.mem.get(src[1], {})
                if not any(o < src[2] + 8 and src[2] < o + x[1] for o, x in sc.items()):
                    self.load(st, src, 'p', 8, None, site)
            for o, x in st.mem.get(src[1], {}).items():
                if src[2] <= o and (n is None or o + x[1] <= src[2] + n):
                    cells.append((o - src[2], x))
            if src[1][0] == 'g':
                g = self.m.globals.get(src[1][1])
                if g and g['const'] and 'init' in g:
                    self.m.gload(src[1][1], 0, 'p', 8)
                    offs = sorted(self.m.ginit[src[1][1]])
                    for i, o in enumerate(offs):
                        sz = (offs[i + 1] - o) if i + 1 < len(offs) else min(8, g['size'] - o)
                        cells.append((o - src[2], (self.m.ginit[src[1][1]][o], sz)))
        c = st.mem.setdefault(dst[1], {})
        if n is None:
            n = max([o + x[1] for o, x in cells] or [0])
        for o2 in [o2 for o2, x2 in c.items() if o2 < dst[2] + n and dst[2] < o2 + x2[1]]:
            del c[o2]
        for o, x in cells:
            c[dst[2] + o] = x

    # ---- comparisons ------------------------------------------------------
    def cmp(self, st, pred, a, b, bits=64):
        """-> True / False / None"""
        if a == TOP or b == TOP:
            return None
        if isinstance(a, tuple) and a[0] in ('cmp', 'not') and isinstance(b, int):
            v = self.truth(st, a)
            if v is None:
                return None
            a = int(v)
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            if pred[0] == 'u':
                w = 64
                if a < 0: a += 1 << w
                if b < 0: b += 1 << w
            p = pred[1:]
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                if pred in ('eq', 'ne'):
                    return (a[2] == b[2]) == (pred == 'eq')
                p = pred[1:]
                x, y = a[2], b[2]
                if not is_sym(a[1]) or abs(x - y) < 1000:
                    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
            elif is_obj(a[1]) and is_obj(b[1]):
                if pred == 'eq': return False
                if pred == 'ne': return True
            elif pred in ('eq', 'ne'):
                f = getattr(self.rule, 'distinct', None)
                if f:
                    r = f(self, st, a, b)
                    if r:
                        return pred == 'ne'
        if pred in ('eq', 'ne') and isinstance(a, tuple) and isinstance(b, int) and a[0] == 'p' and is_obj(a[1]):
            if b == 0:
                return pred == 'ne'
        if pred in ('eq', 'ne') and isinstance(b, tuple) and isinstance(a, int) and b[0] == 'p' and is_obj(b[1]):
            if a == 0:
                return pred == 'ne'
        # a pointer known to be non-null, unsigned comparisons with 0
        if b == 0 and pred in ('ugt', 'ule') and isinstance(a, tuple):
            return self.cmp(st, 'ne' if pred == 'ugt' else 'eq', a, 0)
        if a == 0 and pred in ('ult', 'uge') and isinstance(b, tuple):
            return self.cmp(st, 'ne' if pred == 'ult' else 'eq', b, 0)
        k, neg = self.fkey(pred, a, b)
        v = st.facts.get(k)
        if v is not None:
            return v != neg
        if k[0] == 'eq':
            # x<c / x>c facts refute equality with a constant
            x, c = (a, b) if isinstance(b, int) else (b, a)
            if isinstance(c, int) and isinstance(x, tuple) and x[0] == 'p':
                for (p2, a2, b2), t in st.facts.items():
                    if p2 != 'eq' and isinstance(b2, int) and isinstance(a2, tuple) and a2[0] == 'p' and a2[1] == x[1]:
                        if self.cmp(st, p2, c - x[2] + a2[2], b2) != t:
                            return neg
        else:
            x, c = (a, b) if isinstance(b, int) else (None, None)
            if x is not None and isinstance(x, tuple) and x[0] == 'p':
                lo, hi = self.interval(st, x)
                p = pred[1:]
                if pred[0] == 's' or (lo is not None and lo >= 0):
                    if p == 'lt':
                        if hi is not None and hi < c: return True
                        if lo is not None and lo >= c: return False
                    if p == 'le':
                        if hi is not None and hi <= c: return True
                        if lo is not None and lo > c: return False
                    if p == 'gt':
                        if lo is not None and lo > c: return True
                        if hi is not None and hi <= c: return False
                    if p == 'ge':
                        if lo is not None and lo >= c: return True
                        if hi is not None and hi < c: return False
        return None

    def interval(self, st, x):
        lo = hi = None
        for (p, a, b), t in st.facts.items():
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == 'p' and a[1] == x[1]:
                d = x[2] - a[2]
                q = p if t else NEG.get(p)
                if q in ('slt', 'ult'): v = b - 1 + d; hi = v if hi is None else min(hi, v)
                elif q in ('sle', 'ule'): v = b + d; hi = v if hi is None else min(hi, v)
                elif q in ('sgt',): v = b + 1 + d; lo = v if lo is None else max(lo, v)
                elif q in ('sge',): v = b + d; lo = v if lo is None else max(lo, v)
                elif q == 'ugt' and b >= 0: v = b + 1 + d; lo = v if lo is None else max(lo, v)
                elif q == 'uge' and b >= 0: v = b + d; lo = v if lo is None else max(lo, v)
        ch = True
        while ch:
            ch = False
            for (p, a, b), t in st.facts.items():
                if p == 'eq' and not t and isinstance(b, int) and isinstance(a, tuple) and a[0] == 'p' and a[1] == x[1]:
                    v = b + x[2] - a[2]
                    if lo is not None and v == lo: lo += 1; ch = True
                    elif hi is not None and v == hi: hi -= 1; ch = True
        return lo, hi

    def fkey(self, pred, a, b):
        neg = False
        # normalise: symbol on the left with offset 0 against const
        if isinstance(a, int) or (isinstance(b, tuple) and isinstance(a, tuple) and vkey(b) < vkey(a)):
            a, b = b, a
            pred = SWAP[pred]
        if pred in ('eq', 'ne') and isinstance(a, tuple) and a[0] == 'p' and isinstance(b, int) and a[2] != 0:
            b = b - a[2]
            a = ('p', a[1], 0)
        if pred in ('ne', 'uge', 'ule', 'sge', 'sle'):
            pred = NEG[pred]
            neg = True
        return (pred, a, b), neg

    def truth(self, st, v):
        if isinstance(v, int):
            return v != 0
        if v == TOP:
            return None
        if v[0] == 'cmp':
            return self.cmp(st, v[1], v[2], v[3])
        if v[0] == 'not':
            t = self.truth(st, v[1])
            return None if t is None else not t
        if v[0] == 'p':
            return self.cmp(st, 'ne', v, 0)
        return None

    def assume(self, st, v, t):
        """restrict st (in place) so that v has truth value t; False if infeasible"""
        if isinstance(v, int):
            return (v != 0) == t
        if v == TOP:
            return True
        if v[0] == 'not':
            return self.assume(st, v[1], not t)
        if v[0] == 'p':
            return self.assume(st, ('cmp', 'ne', v, 0), t)
        if v[0] != 'cmp':
            return True
        pred, a, b = v[1], v[2], v[3]
        if isinstance(a, tuple) and a[0] in ('cmp', 'not') and isinstance(b, int):
            if pred == 'eq': return self.assume(st, a, (b != 0) == t)
            if pred == 'ne': return self.assume(st, a, (b == 0) == t)
        r = self.cmp(st, pred, a, b)
        if r is not None:
            return r == t
        if not t:
            pred = NEG[pred]
            t = True
        if a == TOP or b == TOP:
            return True
        if pred == 'eq':
            return self.equate(st, a, b)
        k, neg = self.fkey(pred, a, b)
        st.facts[k] = not neg
        f = getattr(self.rule, 'on_fact', None)
        if f:
            return f(self, st, k, not neg) is not False
        return True

    def equate(self, st, a, b):
        if a == b:
            return True
        sa = isinstance(a, tuple) and a[0] == 'p' and is_sym(a[1])
        sb = isinstance(b, tuple) and b[0] == 'p' and is_sym(b[1])
        if not sa and not sb:
            k, neg = self.fkey('eq', a, b)
            st.facts[k] = True
            return True
        if sa and (not sb or vkey(a) > vkey(b)):
            s, r = a, b
        else:
            s, r = b, a
        off = s[2]
        if isinstance(r, int):
            val = r - off
        elif isinstance(r, tuple) and r[0] == 'p':
            val = ('p', r[1], r[2] - off)
        else:
            return True
        f = getattr(self.rule, 'pre_equate', None)
        if f:
            if f(self, st, s[1], val) is False:
                return False
        return self.substitute(st, s[1], val)

    def substitute(self, st, s, val):
        for f in st.frames:
            for k, v in list(f.loc.items()):
                if isinstance(v, tuple):
                    n = subst_val(v, s, val)
                    if n is not v:
                        f.loc[k] = n
        newmem = {}
        for b, c in st.mem.items():
            for o, (v, z) in list(c.items()):
                if isinstance(v, tuple):
                    n = subst_val(v, s, val)
                    if n is not v:
                        c[o] = (n, z)
        for b, c in st.mem.items():
            if b == s:
                if isinstance(val, int):
                    continue
                nb, d = val[1], val[2]
            else:
                nb, d = subst_base(b, s, val), 0
            if nb in newmem:
                for o, x in c.items():
                    newmem[nb].setdefault(o + d, x)
            elif nb in st.mem and nb != b:
                t = newmem.setdefault(nb, dict(st.mem[nb]))
                for o, x in c.items():
                    t.setdefault(o + d, x)
            else:
                newmem[nb] = {o + d: x for o, x in c.items()} if d else c
        st.mem = newmem
        st.mon = subst_val(st.mon, s, val)
        st.exc = subst_val(st.exc, s, val) if isinstance(st.exc, tuple) else st.exc
        nvt = {}
        for k, v in st.vt.items():
            nvt[subst_base(k, s, val)] = v
        st.vt = nvt
        facts = st.facts
        st.facts = {}
        for (p, a, b), t in facts.items():
            a2 = subst_val(a, s, val)
            b2 = subst_val(b, s, val)
            r = self.cmp(st, p, a2, b2)
            if r is not None:
                if r != t:
                    return False
                continue
            k, neg = self.fkey(p, a2, b2)
            st.facts[k] = t != neg
        return True

    # ---- garbage collection / canonical form --------------------------------
    def gc(self, st):
        roots = set()
        live_ctx = set()
        n = len(st.frames)
        for i, f in enumerate(st.frames):
            lv = f.fn.live_at(f) if hasattr(f.fn, 'live_at') else None
            live_ctx.add(f.ctx)
            top = i == n - 1
            if top:
                ls = f.fn.live[f.blk]
                for k in [k for k in f.loc if k not in ls]:
                    del f.loc[k]
            for v in f.loc.values():
                if isinstance(v, tuple):
                    roots |= bases_of(v)
        for b in list(st.mem):
            if b[0] == 'a' and b[1] not in live_ctx:
                del st.mem[b]
        roots |= bases_of(st.mon)
        if st.exc:
            roots |= bases_of(st.exc)
        for b in st.mem:
            if b[0] in ('arg', 'a', 'o', 'g'):
                roots.add(b)
                if b[0] == 'o':
                    roots |= bases_of(b)
        work = list(roots)
        weak = getattr(self.rule, 'weak', None)
        weaks = []
        while work:
            b = work.pop()
            for o, (v, z) in st.mem.get(b, {}).items():
                if isinstance(v, tuple):
                    if weak and weak(self, b, o):
                        weaks.append((b, o, v))
                        continue
                    for x in bases_of(v):
                        if x not in roots:
                            roots.add(x)
                            work.append(x)
        for b, o, v in weaks:
            if v[0] == 'p' and v[1] not in roots:
                del st.mem[b][o]
        for b in list(st.mem):
            if b not in roots or not st.mem[b]:
                del st.mem[b]
        for k in list(st.vt):
            if k not in roots:
                del st.vt[k]
        for k in list(st.facts):
            for b in bases_of(k):
                if b[0] in ('s', 'l', 'a') and b not in roots:
                    del st.facts[k]
                    break

    def canon(self, st):
        fr = tuple((f.fn.name, f.blk, f.ip, f.ctx, frozenset(f.loc.items())) for f in st.frames)
        me = frozenset((b, frozenset(c.items())) for b, c in st.mem.items() if c)
        return (fr, me, frozenset(st.facts.items()), st.mon, st.exc)

    # ---- reports ----------------------------------------------------------
    def event(self, st, text, loc=None):
        st.trace = (st.trace, text, loc)
        self.events += 1

    def path(self, st):
        out = []
        t = st.trace
        while t:
            out.append('%s  [%s]' % (t[1], self.m.locstr(t[2])) if t[2] else t[1])
            t = t[0]
        out.reverse()
        if len(out) > 60:
            out = out[:25] + ['...'] + out[-34:]
        return out

    def where(self, st, loc=None):
        """innermost location inside the library, with the function"""
        chain = []
        for f in reversed(st.frames):
            l = None
            ins = f.fn.blocks[f.blk]
            i = min(f.ip, len(ins) - 1)
            while i >= 0:
                l = self.ins_loc(ins[i])
                if l:
                    break
                i -= 1
            chain.append((f.fn.diname or f.fn.name, self.m.locstr(l) if l else '%s:%s' % (f.fn.file, f.fn.line)))
        lib = [c for c in chain if 'include/boost/statechart/' in c[1]]
        best = lib[0] if lib else (chain[0] if chain else ('?', '?'))
        return best, chain

    def ins_loc(self, i):
        o = i[0]
        ix = {'load': 5, 'store': 5, 'icmp': 6, 'bin': 6, 'call': 7, 'invoke': 7, 'br': 4, 'switch': 4, 'ret': 2, 'resume': 2, 'rmw': 6, 'cmpxchg': 6}.get(o)
        if ix is None or len(i) <= ix:
            return None
        return i[ix]

    def report(self, st, rule, msg, loc=None):
        best, chain = self.where(st)
        if loc:
            best = (best[0], self.m.locstr(loc))
        key = (rule, msg, best)
        if key in self.vkeys:
            return
        self.vkeys.add(key)
        self.violations.append({'rule': rule, 'message': msg, 'where': '%s in %s' % (best[1], best[0]),
                                'entry': self.entry, 'stack': ['%s @ %s' % c for c in chain][:12],
                                'path': self.path(st)})

    # ---- main loop ----------------------------------------------------------
    def run(self, args=None):
        F = self.m.fns.get(self.entry)
        if F is None or F.decl:
            raise EngineError('entry %s not found' % self.entry)
        st = State()
        st.mem = {}
        st.facts = {}
        st.vt = {}
        st.exc = None
        st.trace = None
        st.mon = self.rule.init_mon
        fr = Frame()
        fr.fn = F; fr.blk = 0; fr.ip = 0; fr.prev = -1; fr.ctx = self.ctx(0, self.entry, F.name)
        fr.loc = {}
        for i, a in enumerate(F.args):
            fr.loc[i] = ('p', ('arg', i), 0) if a['ty'] == 'p' else ('p', ('s', 'argv', i, 0), 0)
        st.frames = [fr]
        r = self.rule.setup(self, st, fr.loc)
        self.work = r if isinstance(r, list) else [st]
        while self.work:
            s = self.work.pop()
            self.exec(s)
        return self

    def push(self, st):
        self.work.append(st)

    def val(self, f, v):
        if v.__class__ is int:
            return f.loc.get(v, TOP)
        return v.v

    def goto(self, st, blk):
        """jump in top frame; returns False if the state was already seen"""
        f = st.frames[-1]
        f.prev = f.blk
        F = f.fn
        ins = F.blocks[blk]
        upd = None
        n = 0
        for i in ins:
            if i[0] != 'phi':
                break
            n += 1
            v = i[2].get(f.prev)
            if upd is None:
                upd = {}
            upd[i[1]] = self.val(f, v) if v is not None else TOP
        if upd:
            f.loc.update(upd)
        f.blk = blk
        f.ip = n
        if F.multi[blk]:
            # liveness on entry: phi results are defined now
            keep = F.live[blk]
            phis = set(upd) if upd else ()
            for k in [k for k in f.loc if k not in keep and k not in phis]:
                del f.loc[k]
            self.gc_join(st, phis)
            self.joins += 1
            k = self.canon(st)
            key = (f.ctx, blk)
            vs = self.visited.get(key)
            if vs is None:
                vs = self.visited[key] = set()
            if k in vs:
                return False
            vs.add(k)
            if self.joins > self.budget:
                raise OutOfTime('more than %d states at joins in %s (%s)' % (self.budget, self.entry, F.dem))
        return True

    def gc_join(self, st, phis):
        f = st.frames[-1]
        saved = {k: f.loc[k] for k in phis if k in f.loc}
        # keep phis alive through gc
        allv = dict(f.loc)
        real = f.fn.live
        ls = f.fn.live[f.blk]
        # gc() filters by live set; restore the phi values afterwards but make
        # their bases roots by pretending they are part of the monitor
        mon = st.mon
        st.mon = (mon, tuple(saved.values()))
        self.gc(st)
        st.mon = mon
        f.loc.update(saved)

    def exec(self, st):
        while True:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk]
            i = ins[f.ip]
            o = i[0]
            self.steps += 1
            if not self.steps & 1023 and self.deadline and time.time() > self.deadline:
                raise OutOfTime('time ran out in %s' % self.entry)
            if o == 'load':
                p = self.val(f, i[2])
                v = self.load(st, p, i[3], i[4], i[5], (f.ctx, i[1]))
                self.rule.on_load(self, st, p, v, i[4], i[5])
                # a load hook may refine the value
                f.loc[i[1]] = v
                f.ip += 1
            elif o == 'store':
                p = self.val(f, i[1]); v = self.val(f, i[2])
                self.rule.on_store(self, st, p, v, i[4], i[5])
                self.store(st, p, v, i[3], i[4])
                f.ip += 1
            elif o == 'gep':
                b = self.val(f, i[2])
                off = i[3]
                ok = True
                for a, s in i[4]:
                    a = self.val(f, a)
                    if isinstance(a, int):
                        off += a * s
                    else:
                        ok = False
                if ok and isinstance(b, tuple) and b[0] == 'p':
                    f.loc[i[1]] = ('p', b[1], b[2] + off)
                elif ok and isinstance(b, int):
                    f.loc[i[1]] = b + off
                elif isinstance(b, tuple) and b[0] == 'p':
                    f.loc[i[1]] = ('p', ('o', 'idx', b, tuple(self.val(f, a) for a, s in i[4])), off)
                else:
                    f.loc[i[1]] = TOP
                f.ip += 1
            elif o == 'icmp':
                a = self.val(f, i[3]); b = self.val(f, i[4])
                r = self.cmp(st, i[2], a, b)
                f.loc[i[1]] = int(r) if r is not None else ('cmp', i[2], a, b)
                f.ip += 1
            elif o == 'bin':
                if i[2] in ('and', 'or', 'xor'):
                    # a connective of two undecided conditions: decide the first
                    a = self.val(f, i[3]); b = self.val(f, i[4])
                    if isinstance(a, tuple) and a[0] in ('cmp', 'not') and isinstance(b, tuple) and b[0] in ('cmp', 'not'):
                        t = self.truth(st, a)
                        if t is None:
                            s2 = st.copy()
                            if self.assume(s2, a, False):
                                f2 = s2.frames[-1]
                                f2.loc[i[1]] = 0 if i[2] == 'and' else self.val(f2, i[4])
                                f2.ip += 1
                                self.push(s2)
                            if not self.assume(st, a, True):
                                return
                            t = True
                        f = st.frames[-1]
                        b = self.val(f, i[4])
                        if t:
                            r = b if i[2] == 'and' else 1 if i[2] == 'or' else self.negate(b)
                        else:
                            r = 0 if i[2] == 'and' else b
                        q = self.truth(st, r)
                        f.loc[i[1]] = r if q is None else int(q)
                        f.ip += 1
                        continue
                f.loc[i[1]] = self.binop(st, i[2], self.val(f, i[3]), self.val(f, i[4]), i[5], (f.ctx, i[1]))
                f.ip += 1
            elif o == 'cast':
                v = self.val(f, i[3])
                if isinstance(v, int):
                    if i[2] == 'trunc':
                        b = int(i[5][1:])
                        v &= (1 << b) - 1
                        if b > 1 and v >> (b - 1):
                            v -= 1 << b
                    elif i[2] == 'zext' and v < 0:
                        v &= (1 << int(i[4][1:])) - 1
                    elif i[2] == 'sext' and i[4] == 'i1':
                        v = -v
                elif i[2] == 'sext' and isinstance(v, tuple) and v[0] == 'cmp':
                    v = TOP
                elif i[2] == 'trunc' and i[5] == 'i1' and isinstance(v, tuple) and v[0] == 'p':
                    v = ('cmp', 'ne', v, 0)
                    t = self.truth(st, v)
                    if t is not None:
                        v = int(t)
                f.loc[i[1]] = v
                f.ip += 1
            elif o == 'phi':
                raise EngineError('unexpected phi')
            elif o == 'sel':
                c = self.val(f, i[2])
                t = self.truth(st, c)
                if t is None:
                    s2 = st.copy()
                    f2 = s2.frames[-1]
                    if self.assume(s2, c, False):
                        f2 = s2.frames[-1]
                        f2.loc[i[1]] = self.val(f2, i[4])
                        f2.ip += 1
                        self.push(s2)
                    if not self.assume(st, c, True):
                        return
                    f = st.frames[-1]
                    f.loc[i[1]] = self.val(f, i[3])
                else:
                    f.loc[i[1]] = self.val(f, i[3] if t else i[4])
                f.ip += 1
            elif o == 'jmp':
                if not self.goto(st, i[1]):
                    return
            elif o == 'br':
                c = self.val(f, i[1])
                t = self.truth(st, c)
                if t is None:
                    s2 = st.copy()
                    if self.assume(s2, c, False):
                        if self.interesting(i[4]):
                            self.event(s2, 'branch not taken: ' + self.show(c), i[4])
                        if self.goto(s2, i[3]):
                            self.push(s2)
                    if not self.assume(st, c, True):
                        return
                    if self.interesting(i[4]):
                        self.event(st, 'branch taken: ' + self.show(c), i[4])
                    if not self.goto(st, i[2]):
                        return
                else:
                    if not self.goto(st, i[2] if t else i[3]):
                        return
            elif o == 'switch':
                v = self.val(f, i[1])
                if isinstance(v, int):
                    for c, b in i[3]:
                        if c == v:
                            break
                    else:
                        b = i[2]
                    if not self.goto(st, b):
                        return
                else:
                    for c, b in i[3]:
                        s2 = st.copy()
                        if self.assume(s2, ('cmp', 'eq', v, c), True):
                            self.event(s2, 'switch case %s' % c, i[4])
                            if self.goto(s2, b):
                                self.push(s2)
                    for c, b in i[3]:
                        if not self.assume(st, ('cmp', 'eq', v, c), False):
                            return
                    self.event(st, 'switch default', i[4])
                    if not self.goto(st, i[2]):
                        return
            elif o == 'call' or o == 'invoke':
                if not self.call(st, f, i):
                    return
            elif o == 'ret':
                v = self.val(f, i[1]) if i[1] is not None else None
                if not self.do_return(st, v, i[2]):
                    return
            elif o == 'resume':
                if not self.unwind(st, pop=True):
                    return
            elif o == 'unreachable':
                return
            elif o == 'lpad':
                if not self.landing(st, f, i):
                    return
            elif o == 'xv':
                v = self.val(f, i[2])
                for ix in i[3]:
                    v = v[1][ix] if isinstance(v, tuple) and v[0] == 'agg' and ix < len(v[1]) else TOP
                f.loc[i[1]] = v
                f.ip += 1
            elif o == 'iv':
                v = self.val(f, i[2]); e = self.val(f, i[3])
                n = len(i[5][1]) if isinstance(i[5], list) else 2
                l = list(v[1]) if isinstance(v, tuple) and v[0] == 'agg' else [TOP] * n
                l[i[4][0]] = e if len(i[4]) == 1 else TOP
                f.loc[i[1]] = ('agg', tuple(l))
                f.ip += 1
            elif o == 'rmw':
                p = self.val(f, i[3]); v = self.val(f, i[4])
                old = self.load(st, p, 'i%d' % (8 * i[5]), i[5], i[6], (f.ctx, i[1]))
                new = self.binop(st, i[2], old, v, 'i%d' % (8 * i[5]), (f.ctx, i[1], 'n')) if i[2] in ('add', 'sub') else (v if i[2] == 'xchg' else TOP)
                g = getattr(self.rule, 'on_rmw', None)
                if g:
                    g(self, st, i[2], p, v, old, i[6])
                self.rule.on_store(self, st, p, new, i[5], i[6])
                self.store(st, p, new, 'i', i[5])
                f.loc[i[1]] = old
                g = getattr(self.rule, 'after_rmw', None)
                if g:
                    g(self, st, i[2], p, v, old, i[7], i[6])
                f.ip += 1
            elif o == 'alloca':
                f.loc[i[1]] = ('p', ('a', f.ctx, i[1]), 0)
                st.mem.pop(('a', f.ctx, i[1]), None)
                f.ip += 1
            elif o == 'fence':
                g = getattr(self.rule, 'on_fence', None)
                if g:
                    g(self, st)
                f.ip += 1
            elif o == 'cmpxchg':
                p = self.val(f, i[2])
                f.loc[i[1]] = TOP
                if isinstance(p, tuple) and p[0] == 'p':
                    self.havoc(st, p[1], p[2], p[2] + i[5])
                f.ip += 1
            elif o == 'unk':
                if isinstance(i[1], int) and i[1] >= 0:
                    f.loc[i[1]] = TOP
                f.ip += 1
            else:
                raise EngineError('unhandled op %s' % o)

    def interesting(self, loc):
        return loc is not None and 'statechart' in self.m.files[loc[0]]

    def show(self, v):
        if isinstance(v, int):
            return str(v)
        if v == TOP:
            return '?'
        if v[0] == 'cmp':
            return '%s %s %s' % (self.show(v[2]), v[1], self.show(v[3]))
        if v[0] == 'p':
            b = v[1]
            f = getattr(self.rule, 'name_of', None)
            if f:
                n = f(v)
                if n:
                    return n
            s = self.bname(b)
            return s + ('+%d' % v[2] if v[2] else '')
        if v[0] == 'not':
            return '!(' + self.show(v[1]) + ')'
        return '?'

    def bname(self, b, depth=0):
        if b[0] == 'g':
            return b[1]
        if b[0] == 'arg':
            return 'arg%d' % b[1]
        if b in self.desc and depth < 4:
            q = self.desc[b]
            f = getattr(self.rule, 'name_of', None)
            n = f(('p', q[0], q[1])) if f else None
            return '*(%s)' % (n or '%s+%s' % (self.bname(q[0], depth + 1), q[1]))
        if b[0] == 's':
            return '$' + '.'.join(str(x) for x in b[1:2]) 
        if b[0] == 'a':
            return 'local'
        return str(b[0]) + (':' + str(b[1]) if len(b) > 1 and isinstance(b[1], str) else '')

    def binop(self, st, o, a, b, ty, site):
        if ty == 'i1':
            if o == 'xor':
                if b == 1: return self.negate(a)
                if a == 1: return self.negate(b)
                if b == 0: return a
            if o == 'and':
                if a == 0 or b == 0: return 0
                if a == 1: return b
                if b == 1: return a
            if o == 'or':
                if a == 1 or b == 1: return 1
                if a == 0: return b
                if b == 0: return a
            if isinstance(a, int) and isinstance(b, int):
                return {'xor': a ^ b, 'and': a & b, 'or': a | b}.get(o, TOP)
            return TOP
        if isinstance(a, int) and isinstance(b, int):
            try:
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
                     'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b if 0 <= b < 64 else TOP,
                     'lshr': lambda: (a & (2 ** 64 - 1)) >> b, 'ashr': lambda: a >> b,
                     'sdiv': lambda: int(a / b) if b else TOP, 'udiv': lambda: a // b if b else TOP,
                     'urem': lambda: a % b if b else TOP, 'srem': lambda: a % b if b else TOP}[o]()
            except KeyError:
                return TOP
            if r != TOP:
                bits = int(ty[1:]) if ty[0] == 'i' else 64
                r &= (1 << bits) - 1
                if r >> (bits - 1):
                    r -= 1 << bits
                if o in ('add', 'sub') and abs(r) > self.rule.widen_limit and abs(r) < 1000 and abs(r) > abs(a):
                    # widening of counters
                    s = self.fresh(st, 'w', site)
                    if s != TOP:
                        self.rule.on_widen(self, st, r, s)
                    return s
            return r
        if o == 'add':
            if isinstance(a, tuple) and a[0] == 'p' and isinstance(b, int):
                return self.affine(st, a, b, site)
            if isinstance(b, tuple) and b[0] == 'p' and isinstance(a, int):
                return self.affine(st, b, a, site)
        if o == 'sub' and isinstance(a, tuple) and a[0] == 'p':
            if isinstance(b, int):
                return self.affine(st, a, -b, site)
            if isinstance(b, tuple) and b[0] == 'p' and b[1] == a[1]:
                return a[2] - b[2]
        if o == 'and' and isinstance(b, int) and isinstance(a, tuple) and a[0] == 'p' and is_obj(a[1]) and b in (1, 3, 7):
            return a[2] & b
        if o in ('or', 'xor') and b == 0:
            return a
        if o == 'xor' and b == 1 and isinstance(a, tuple) and a[0] in ('cmp', 'not'):
            return self.negate(a)
        if o == 'and' and b == 1 and isinstance(a, tuple) and a[0] in ('cmp', 'not'):
            return a
        return self.fresh(st, 'b', site)

    def affine(self, st, a, k, site):
        off = a[2] + k
        if is_sym(a[1]) and abs(off) > 4 and a[1][1] in ('w', 'b', 'argv', 'm', 'cnt'):
            # rebase: forget the relation to the old symbol
            s = self.fresh(st, 'w', site)
            if s != TOP:
                f = getattr(self.rule, 'on_rebase', None)
                if f:
                    f(self, st, ('p', a[1], off), s)
            return s
        return ('p', a[1], off)

    def negate(self, v):
        if isinstance(v, int):
            return 1 - (v & 1)
        if v == TOP:
            return TOP
        if v[0] == 'cmp':
            return ('cmp', NEG[v[1]], v[2], v[3])
        if v[0] == 'not':
            return v[1]
        return ('not', v)

    # ---- calls --------------------------------------------------------------
    def call(self, st, f, i):
        callee = self.val(f, i[2])
        args = [self.val(f, a) for a in i[3]]
        c = Call()
        c.args = args; c.ret = i[4]; c.nounwind = i[5]; c.loc = i[7]; c.id = i[1]; c.ins = i; c.fn = None
        c.method = c.cls = c.slot = c.obj = None
        c.name = c.dem = None
        c.callee = callee
        if isinstance(callee, tuple) and callee[0] == 'p' and callee[1][0] == 'g' and callee[2] == 0:
            name = callee[1][1]
            c.name = name
            F = self.m.fns.get(name)
            c.fn = F
            c.dem = F.dem if F else name
            return self.call_fn(st, f, i, c)
        if isinstance(callee, tuple) and callee[0] == 'p' and callee[1][0] == 'vf':
            vb, off = callee[1][1], callee[1][2]
            c.slot = off // 8
            tid = st.vt.get(vb)
            if tid:
                c.method, c.cls = self.m.method_of(tid, c.slot)
            c.obj = args[0] if args else None
            if c.fn is None and c.ret == 'v' and args and i[6] == [] and False:
                pass
            r = self.rule.on_vcall(self, st, c)
            if r is None:
                raise EngineError('virtual call %s slot %s of %s not handled (%s)' % (c.method, c.slot, tid, self.m.locstr(c.loc)))
            if isinstance(r, str):
                # resolved to a known function
                c.name = r
                c.fn = self.m.fns.get(r)
                c.dem = c.fn.dem if c.fn else r
                return self.call_fn(st, f, i, c)
            return self.outcomes(st, f, i, r)
        r = self.rule.on_unknown_call(self, st, c)
        if r is None:
            raise EngineError('indirect call not handled at %s: %s' % (self.m.locstr(c.loc), self.show(callee)))
        return self.outcomes(st, f, i, r)

    def handler_for(self, F):
        h = self.hcache.get(F.name, 0)
        if h != 0:
            return h
        h = None
        for rx, fn in self.rule.handlers:
            if rx.search(F.dem):
                h = fn
                break
        if h is None:
            for rx, fn in DEFAULT_HANDLERS:
                if rx.search(F.dem):
                    h = fn
                    break
        self.hcache[F.name] = h
        return h

    def call_fn(self, st, f, i, c):
        F = c.fn
        if F is None:
            raise EngineError('unknown function %s' % c.name)
        h = self.handler_for(F)
        if h is not None:
            r = h(self.rule, self, st, c)
            if r.__class__ is tuple:
                F = c.fn = self.m.fns[r[1]]
                c.args = r[2]
            elif r is not None:
                return self.outcomes(st, f, i, r)
        if F.decl:
            r = self.rule.on_unknown_call(self, st, c)
            if r is None:
                raise EngineError('call of external function %s not handled (%s)' % (F.dem, self.m.locstr(c.loc)))
            return self.outcomes(st, f, i, r)
        # follow
        if len(st.frames) > self.follow_limit:
            raise EngineError('call depth exceeded at %s' % F.dem)
        if sum(1 for fr in st.frames if fr.fn is F) > 3:
            raise EngineError('recursion at %s' % F.dem)
        self.fns_seen.add(F.name)
        if self.rule.on_enter(self, st, F, c.args, c.loc) is False:
            return False
        nf = Frame()
        nf.fn = F; nf.blk = 0; nf.ip = 0; nf.prev = -1
        nf.ctx = self.ctx(f.ctx, (f.blk, f.ip), F.name)
        nf.loc = {}
        for k, a in enumerate(c.args[:F.nargs]):
            nf.loc[k] = a
        for k, size in (i[6] if len(i[3]) == len(c.args) else ()):
            b = ('a', nf.ctx, 'bv%d' % k)
            st.mem.pop(b, None)
            self.memcpy(st, ('p', b, 0), c.args[k], size, None)
            nf.loc[k] = ('p', b, 0)
        k = (f.blk, f.ip)
        keep = f.fn.aftc.get(k)
        if keep is None:
            keep = f.fn.aftc[k] = f.fn.after(*k)
        if len(f.loc) > len(keep):
            f.loc = {x: v for x, v in f.loc.items() if x in keep}
        st.frames.append(nf)
        return True

    def outcomes(self, st, f, i, r):
        """r: list of (state, kind, value) with kind 'ret' | 'throw' | 'stop'"""
        cont = False
        for s, kind, v in r:
            if kind == 'stop':
                continue
            if kind == 'ret':
                fr = s.frames[-1]
                if i[1] >= 0:
                    if v is None:
                        v = TOP
                    fr.loc[i[1]] = v
                if i[0] == 'invoke':
                    if not self.goto(s, i[8]):
                        continue
                else:
                    fr.ip += 1
            elif kind == 'throw':
                if v is not None:
                    s.exc = v
                elif s.exc is None:
                    s.exc = ('exc', 'user')
                if not self.unwind(s, pop=False):
                    continue
            if s is st:
                cont = True
            else:
                self.push(s)
        return cont

    def simple(self, st, v=None):
        return [(st, 'ret', v)]

    def may_throw(self, st, c, v, exc=('exc', 'user')):
        """normal return with v and, if allowed, an exceptional outcome"""
        if c.nounwind or (c.fn is not None and c.fn.nounwind):
            return [(st, 'ret', v)]
        s2 = st.copy()
        return [(st, 'ret', v), (s2, 'throw', exc)]

    def do_return(self, st, v, loc):
        f = st.frames.pop()
        for b in [b for b in st.mem if b[0] == 'a' and b[1] == f.ctx]:
            del st.mem[b]
        if not st.frames:
            self.returns += 1
            st.frames.append(f)
            self.rule.on_return(self, st, v, loc)
            return False
        g = st.frames[-1]
        i = g.fn.blocks[g.blk][g.ip]
        h = getattr(self.rule, 'on_leave', None)
        if h:
            h(self, st, f.fn, v, loc)
        if i[1] >= 0:
            g.loc[i[1]] = v if v is not None else TOP
        if i[0] == 'invoke':
            return self.goto(st, i[8])
        g.ip += 1
        return True

    def unwind(self, st, pop):
        """propagate the exception; pop: leave the current frame first"""
        if pop:
            f = st.frames.pop()
            h = getattr(self.rule, 'on_unwind_leave', None)
            if h and st.frames:
                h(self, st, f.fn)
            for b in [b for b in st.mem if b[0] == 'a' and b[1] == f.ctx]:
                del st.mem[b]
            last = f
        while st.frames:
            g = st.frames[-1]
            i = g.fn.blocks[g.blk][g.ip]
            if i[0] == 'invoke':
                return self.goto(st, i[9])
            last = st.frames.pop()
            h = getattr(self.rule, 'on_unwind_leave', None)
            if h and st.frames:
                h(self, st, last.fn)
            for b in [b for b in st.mem if b[0] == 'a' and b[1] == last.ctx]:
                del st.mem[b]
        self.unwinds += 1
        st.frames.append(last)
        self.rule.on_unwind(self, st, None)
        return False

    def landing(self, st, f, i):
        clauses = i[3]
        exc = st.exc or ('exc', 'user')
        ep = ('p', ('o',) + exc, 0)
        opts = []   # selectors to try
        caught_all = False
        for kind, v in clauses:
            if kind == 'catch':
                if v == 0:
                    opts.append(('all', 1))
                    caught_all = True
                    break
                nm = v[1][1] if isinstance(v, tuple) and v[0] == 'p' else '?'
                m = self.exc_matches(exc, nm)
                if m is not False:
                    opts.append((nm, ('p', ('o', 'tid', nm), 0)))
                if m is True:
                    caught_all = True
                    break
            else:
                # exception specification (filter) with cleanup semantics
                opts.append(('filter', -1))
                caught_all = True
        if not caught_all:
            opts.append((None, 0 if i[2] else None))
        for n, (nm, sel) in enumerate(opts):
            s = st if n == len(opts) - 1 else st.copy()
            if sel is None:
                if self.unwind(s, pop=True):
                    if s is st:
                        return True
                    self.push(s)
                continue
            g = s.frames[-1]
            g.loc[i[1]] = ('agg', (ep, sel))
            g.ip += 1
            h = getattr(self.rule, 'on_landing', None)
            if h:
                h(self, s, nm, g.fn)
            if s is not st:
                self.push(s)
            else:
                return True
        return False

    def exc_matches(self, exc, tname):
        """True / False / None (unknown)"""
        if len(exc) > 1 and exc[1] == 'type':
            return exc[2] == tname or None if exc[2] != tname else True
        return None


# ---- default models of runtime and standard library primitives ----------------
def h_nop(rule, eng, st, c):
    return eng.simple(st, None)


def h_stop(rule, eng, st, c):
    return [(st, 'stop', None)]


def h_memcpy(rule, eng, st, c):
    n = c.args[2] if isinstance(c.args[2], int) else None
    if n is not None:
        eng.memcpy(st, c.args[0], c.args[1], n, (st.frames[-1].ctx, c.id))
    return eng.simple(st, c.args[0])


def h_memset(rule, eng, st, c):
    p, v, n = c.args[0], c.args[1], c.args[2]
    if isinstance(p, tuple) and p[0] == 'p' and isinstance(n, int):
        eng.havoc(st, p[1], p[2], p[2] + n)
        if v == 0:
            o = 0
            while o < n and n <= 512:
                z = min(8, n - o)
                eng.put(st, p[1], p[2] + o, 0, z)
                o += z
    return eng.simple(st, p)


def h_typetest(rule, eng, st, c):
    p = c.args[0]
    if isinstance(p, tuple) and p[0] == 'p':
        b = p[1]
        if b[0] in ('s',) and c.args[1][0] == 'md' and c.args[1][1]:
            if b[1] != 'vt':
                # give the vtable pointer its dedicated kind of symbol
                nb = ('s', 'vt') + b[1:]
                eng.substitute(st, b, ('p', nb, 0))
                b = nb
            st.vt[b] = c.args[1][1]
    return eng.simple(st, 1)


def h_new(rule, eng, st, c):
    site = (st.frames[-1].ctx, c.id)
    g = 0
    while True:
        b = ('h',) + site + (g,)
        if not eng.is_live(st, b):
            break
        g += 1
        if g > 6:
            b = ('h',) + site + (0,)
            break
    st.mem.pop(b, None)
    f = getattr(rule, 'on_new', None)
    if f:
        f(eng, st, ('p', b, 0), c)
    r = [(st, 'ret', ('p', b, 0))]
    if not c.nounwind and getattr(rule, 'new_throws', False):
        s2 = st.copy()
        r.append((s2, 'throw', ('exc', 'bad_alloc')))
    return r


def h_delete(rule, eng, st, c):
    p = c.args[0]
    f = getattr(rule, 'on_delete', None)
    if f:
        f(eng, st, p, c)
    if isinstance(p, tuple) and p[0] == 'p' and p[1][0] in ('h', 's'):
        st.mem.pop(p[1], None)
    return eng.simple(st, None)


def h_begin_catch(rule, eng, st, c):
    f = getattr(rule, 'on_begin_catch', None)
    if f:
        f(eng, st, c)
    return eng.simple(st, c.args[0])


def h_end_catch(rule, eng, st, c):
    f = getattr(rule, 'on_end_catch', None)
    if f:
        f(eng, st, c)
    return eng.simple(st, None)


def h_rethrow(rule, eng, st, c):
    f = getattr(rule, 'on_rethrow', None)
    if f:
        f(eng, st, c)
    return [(st, 'throw', None)]


def h_alloc_exc(rule, eng, st, c):
    return eng.simple(st, ('p', ('h', 'exc', st.frames[-1].ctx, c.id), 0))


def h_throw(rule, eng, st, c):
    f = getattr(rule, 'on_throw', None)
    if f:
        f(eng, st, c)
    t = c.args[1][1][1] if isinstance(c.args[1], tuple) and c.args[1][0] == 'p' else '?'
    return [(st, 'throw', ('exc', 'type', t))]


def h_dyncast(rule, eng, st, c):
    # a successful cast (the library only uses it in assertions, see
    # polymorphic_downcast); rules about casts override this
    p, hint = c.args[0], c.args[3]
    if isinstance(p, tuple) and p[0] == 'p' and isinstance(hint, int) and 0 <= hint < (1 << 31):
        return eng.simple(st, ('p', p[1], p[2] - hint))
    return eng.simple(st, p)


def h_typeid_for(rule, eng, st, c):
    p = c.args[0]
    return eng.simple(st, ('p', ('o', 'tid', p[1][1]), 0) if isinstance(p, tuple) and p[0] == 'p' else TOP)


def h_terminate(rule, eng, st, c):
    f = getattr(rule, 'on_terminate', None)
    if f:
        f(eng, st, c)
    return [(st, 'stop', None)]


def h_assert_fail(rule, eng, st, c):
    f = getattr(rule, 'on_assert_fail', None)
    if f:
        f(eng, st, c)
    return [(st, 'stop', None)]


def R(x):
    return re.compile(x)


DEFAULT_HANDLERS = [
    (R(r'^llvm\.(lifetime|dbg|assume|donothing|experimental)'), h_nop),
    (R(r'^llvm\.(public\.)?type\.test'), h_typetest),
    (R(r'^llvm\.(memcpy|memmove)'), h_memcpy),
    (R(r'^(memcpy|memmove)$'), h_memcpy),
    (R(r'^llvm\.memset'), h_memset),
    (R(r'^llvm\.eh\.typeid\.for'), h_typeid_for),
    (R(r'^llvm\.(trap|ubsantrap)'), h_stop),
    (R(r'^__clang_call_terminate'), h_terminate),
    (R(r'^std::terminate\(\)'), h_terminate),
    (R(r'^(abort|exit|_exit)$'), h_stop),
    (R(r'^__assert_fail'), h_assert_fail),
    (R(r'^operator new(\[\])?\((unsigned long)(, std::nothrow_t const&)?\)$'), h_new),
    (R(r'^operator delete'), h_delete),
    (R(r'^__cxa_begin_catch'), h_begin_catch),
    (R(r'^__cxa_end_catch'), h_end_catch),
    (R(r'^__cxa_rethrow'), h_rethrow),
    (R(r'^__cxa_allocate_exception'), h_alloc_exc),
    (R(r'^__cxa_free_exception'), h_nop),
    (R(r'^__cxa_throw$'), h_throw),
    (R(r'^__dynamic_cast$'), h_dyncast),
    (R(r'^std::__throw_'), lambda r, e, s, c: [(s, 'throw', ('exc', 'std'))]),
]

"""Rules for type identities, event life time primitives and shared state
(C15, C16, C23)."""
from engine import *
from lib import *
from machine_rules import Mon


class ValRule(Mon):
    """collects the values returned by straight-line entries"""
    args0 = None

    def __init__(self, mod, prop=None, args=None, unk_throw=False):
        self.mod = mod
        self.prop = prop
        self.counts = {}
        self.vals = []
        self.args0 = args
        self.unk_throw = unk_throw
        self.stores = []
        self.asserts = []

    def setup(self, eng, st, args):
        if self.args0:
            for k, v in self.args0.items():
                args[k] = v

    def on_store(self, eng, st, ptr, val, size, loc):
        if isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[1][0] == 'g':
            self.stores.append((ptr, val, loc))

    def on_load(self, eng, st, ptr, val, size, loc):
        pass

    def name_of(self, v):
        return None

    def on_return(self, eng, st, rv, loc):
        self.vals.append(rv)
        self.count('values')

    def on_vcall(self, eng, st, c):
        return self.on_unknown_call(eng, st, c)

    def on_assert_fail(self, eng, st, c):
        self.asserts.append((eng.where(st, c.loc), c.args[0] if c.args else None))

    def on_unknown_call(self, eng, st, c):
        c.method = c.dem
        v = eng.fresh(st, 'unk', st.frames[-1].ctx, c.id) if c.ret != 'v' else None
        if v is not None and c.ret == 'p':
            eng.assume(st, ('cmp', 'ne', v, 0), True)
        return [(st, 'ret', v)]

    def h_tieq(self, eng, st, c):
        return self.rel(eng, st, c, 'eq')

    def h_tine(self, eng, st, c):
        return self.rel(eng, st, c, 'ne')

    def h_before(self, eng, st, c):
        return self.rel(eng, st, c, 'lt')

    def rel(self, eng, st, c, w):
        a, b = c.args[0], c.args[1]
        if isinstance(a, int) and isinstance(b, int):
            return [(st, 'ret', int({'eq': a == b, 'ne': a != b, 'lt': a < b}[w]))]
        if a == b:
            return [(st, 'ret', int(w == 'eq'))]
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p' and a[1][0] == 'g' and b[1][0] == 'g' and w != 'lt':
            return [(st, 'ret', int((a[1] == b[1]) == (w == 'eq')))]
        s2 = st.copy()
        return [(st, 'ret', 1), (s2, 'ret', 0)]

    handlers = [
        (R(r'\bstd::type_info::operator==\('), h_tieq),
        (R(r'\bstd::type_info::operator!=\('), h_tine),
        (R(r'\bstd::type_info::before\('), h_before),
    ]


def V(rule, msg, where, stack=()):
    return {'rule': rule, 'message': msg, 'where': where, 'stack': list(stack), 'path': []}


def fwhere(m, entry):
    f = m.fns[entry]
    return '%s:%s' % (f.file, f.line)


class Runs:
    """helper of module level obligations: runs entries, keeps the totals"""

    def __init__(self, m, prop):
        self.m = m; self.prop = prop
        self.steps = 0
        self.fns = set()
        self.vio = []
        self.cnt = {}

    def run(self, entry, args=None, rule=None):
        r = rule or ValRule(self.m, self.prop, args)
        e = Engine(self.m, r, entry)
        e.run()
        self.steps += e.steps
        for f in e.fns_seen:
            if self.m.fns[f].file and 'statechart' in self.m.fns[f].file:
                self.fns.add(self.m.fns[f].diname or f)
        for v in e.violations:
            if v['rule'] == self.prop:
                self.vio.append(v)
        self.eng = e
        return r

    def add(self, msg, entry, libfile=None):
        self.vio.append(V(self.prop, msg, libfile or fwhere(self.m, entry)))

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def result(self):
        c = dict(self.cnt)
        c['_steps'] = self.steps
        c['_fns'] = self.fns
        return self.vio, c


def gbase(v):
    """the global object a value denotes"""
    if isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'g':
        return v[1][1], v[2]
    return None


RTTI = 'detail/rtti_policy.hpp'


def identities(m, prop='C16', native=False):
    """dynamic_type() == static_type() of the most derived type, identities of
    different types differ and are unique in the program"""
    r = Runs(m, prop)
    st, dy, cp = {}, {}, {}
    names = []
    for e in sorted(m.fns):
        for pre, d in (('entry_evst_', st), ('entry_stst_', st), ('entry_evid_', dy), ('entry_stid_', dy), ('entry_cpid_', cp)):
            if e.startswith(pre):
                n = e[len(pre):]
                k = ('s' if '_st' in pre[5:8] else 'e') + n
                x = r.run(e)
                if len(x.vals) != 1:
                    if not x.vals:
                        raise EngineError('%s never returns' % e)
                d[k] = (x.vals, e)
                r.count('identities computed')
    if len(st) < 10 or len(dy) < 10 or len(cp) < 5:
        raise EngineError('identity entries are missing')
    seen = {}
    for k, (vs, e) in st.items():
        for v in vs:
            if v != vs[0]:
                r.add('static_type() of %s is not a single value' % k[1:], e)
        b = gbase(vs[0])
        if b is None:
            r.add('static_type() of %s does not denote a unique object of its type (%s)' % (k[1:], r.eng.show(vs[0])), e)
            continue
        if b in seen:
            r.add('types %s and %s have the same identity' % (k[1:], seen[b]), e)
        seen[b] = k[1:]
        g = m.globals.get(b[0], {})
        # ExternalLinkage 0, LinkOnceODR 3, WeakODR 5: one object per program
        r.count('identity objects')
        if not g.get('decl') and g.get('linkage') not in (0, 2, 3, 4, 5, 10):
            r.add('the identity of %s is not unique across translation units (internal linkage)' % k[1:], e)
    for d, what in ((dy, 'an object of type'), (cp, 'a copy of an object of type')):
        for k, (vs, e) in d.items():
            for v in vs:
                r.count('comparisons')
                if v != st[k][0][0]:
                    r.add('dynamic_type() of %s %s is %s instead of its static_type()' % (what, k[1:], r.eng.show(v)), e)
    return r.result()


REL = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'gt': lambda a, b: a > b, 'le': lambda a, b: a <= b, 'ge': lambda a, b: a >= b}
WORLDS = (('the left identity orders before the right one', 16, 32), ('equal identities', 16, 16), ('the left identity orders behind the right one', 32, 16))


def comparisons(m, prop='C16'):
    r = Runs(m, prop)
    for o, f in REL.items():
        e = 'entry_cmp_' + o
        if e not in m.fns:
            raise EngineError('%s is missing' % e)
        for w, a, b in WORLDS:
            x = r.run(e, {0: a, 1: b})
            r.count('comparisons')
            if not x.vals:
                raise EngineError('%s does not return' % e)
            for v in x.vals:
                v = v & 1 if isinstance(v, int) else r.eng.show(v)
                if v != int(f(a, b)):
                    r.add('operator%s yields %s for %s' % ({'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}[o], v, w), e)
    return r.result()


class KeyRule(ValRule):
    """history keys at args 0 and 1 hold the given identities and regions"""

    def __init__(self, m, prop, kt, a, b):
        super().__init__(m, prop)
        self.kt = kt
        self.k = (a, b)

    def setup(self, eng, st, args):
        for n in (0, 1):
            for i, (off, size) in enumerate(self.kt):
                eng.put(st, ('arg', n), off, self.k[n][i], size)


def keys(m, prop='C16'):
    """history keys: a strict total order that distinguishes context and region"""
    r = Runs(m, prop)
    cs = [c for c in m.classes if re.search(r'^boost::statechart::detail::history_key<', c['name'])]
    if not cs:
        raise EngineError('history_key not found')
    mem = [(off, sz, ty) for nm, off, ty, sz, ow in m.flat_members(cs[0])]
    idm = [x for x in mem if x[1] == 8]
    rg = [x for x in mem if x[1] < 8]
    if len(idm) != 1 or len(rg) != 1:
        raise EngineError('history_key is not a context identity and a region (%s)' % mem)
    kt = [(idm[0][0], 8), (rg[0][0], rg[0][1])]
    vals = [(t, g) for t in (16, 32, 48) for g in (0, 1, 2)]
    lt = {}
    for a in vals:
        for b in vals:
            x = r.run('entry_key_lt', rule=KeyRule(m, prop, kt, a, b))
            r.count('key comparisons')
            if not x.vals or any(not isinstance(v, int) for v in x.vals) or len(set(v & 1 for v in x.vals)) != 1:
                r.add('the order of history keys depends on more than the context identities and regions', 'entry_key_lt')
                return r.result()
            lt[a, b] = x.vals[0] & 1
    for a in vals:
        for b in vals:
            if a == b:
                if lt[a, b]:
                    r.add('the order of history keys is not irreflexive', 'entry_key_lt')
            elif lt[a, b] == lt[b, a]:
                r.add('history keys with %s are %s' % ('different contexts' if a[0] != b[0] else 'different regions', 'treated as equal' if not lt[a, b] else 'ordered both ways'), 'entry_key_lt')
            for c in vals:
                if lt[a, b] and lt[b, c] and not lt[a, c]:
                    r.add('the order of history keys is not transitive', 'entry_key_lt')
    for s, ctx in (('S1', 'S0'), ('S3', 'S0')):
        x = r.run('entry_key_type_' + s)
        w = r.run('entry_stst_' + ctx)
        if x.vals[:1] != w.vals[:1]:
            r.add('the history key of %s does not carry the identity of its context' % s, 'entry_key_type_' + s)
    return r.result()


def customs(m, prop='C16'):
    """custom type identifiers"""
    r = Runs(m, prop)
    P, Q = ('p', ('arg', 0), 0), ('p', ('arg', 1), 0)
    n = 0
    for e in sorted(m.fns):
        if not e.startswith('entry_c'):
            continue
        k = e[6:].split('_')[0]
        if k not in ('cget', 'cset', 'csetget', 'cdyn', 'coth'):
            continue
        n += 1
        x = r.run(e)
        r.count('accessors')
        if not x.vals:
            raise EngineError('%s does not return' % e)
        t = e.split('_')[2]
        if k == 'cset':
            st = r.run(next(q for q in ('entry_evst_' + t, 'entry_stst_' + t) if q in m.fns)).vals[0]
            own = gbase(st)
            wr = {gbase(p) for p, v, l in x.stores}
            if not any(v == P for p, v, l in x.stores):
                r.add('setting the custom type identifier of %s does not store it' % t, e)
            for p, v, l in x.stores:
                b = gbase(p)
                if own and b[0] != own[0]:
                    r.add('setting the custom type identifier of %s changes data of another type (%s)' % (t, b[0]), e)
        elif k == 'csetget':
            for v in x.vals:
                if v != P:
                    r.add('custom_static_type_ptr() of %s returns %s instead of the identifier that was set' % (t, r.eng.show(v)), e)
        elif k == 'cdyn':
            for v in x.vals:
                if v != Q:
                    r.add('custom_dynamic_type_ptr() of an object of type %s returns %s instead of the identifier set for its type' % (t, r.eng.show(v)), e)
        elif k == 'coth':
            for v in x.vals:
                if v != Q:
                    r.add('setting the custom type identifier of one type changes that of another (%s)' % t, e)
        if k in ('csetget', 'cdyn', 'coth'):
            for w, a in x.asserts:
                r.add('an assertion fails although the custom identifier is used with the type it was set with', e, w)
    if n < 20:
        raise EngineError('custom identifier entries are missing')
    return r.result()


CNT_CLASS = r'^boost::statechart::event_base$'


class EventRule(Mon):
    """reference counts, copies and destruction of events"""
    EV0 = ('arg', 0)

    def __init__(self, m, kind, prop=None, cls=None):
        self.mod = m; self.kind = kind; self.prop = prop; self.cls = cls
        self.counts = {}
        self.co = field_offset(m, CNT_CLASS, 'count_')
        if self.co is None:
            for c in m.find_class(r'^boost::statechart::detail::count_base<true>$'):
                self.co = None
            raise EngineError('the reference count of event_base was not found')
        self.cs = 4
        for c in m.find_class(CNT_CLASS):
            for nm, off, ty, sz, ow in m.flat_members(c):
                if nm == 'count_':
                    self.cs = sz or 4
        # position of the event_base subobject and the payload in the class
        self.eo = 0
        self.po = None
        if cls:
            c = m.class_by_name.get(cls)
            if c is None:
                raise EngineError('class %s not found' % cls)
            self.size = c['size']
            fl = m.flat_members(c)
            for nm, off, ty, sz, ow in fl:
                if nm == 'count_':
                    self.eo = off - self.co
                if nm in ('payload', 'b', 'a') and ow != 'Mix':
                    self.po = off
            if cls.startswith('ET<1'):
                self.po += 8

    def setup(self, eng, st, args):
        if self.kind in ('addref', 'release', 'from_this'):
            v = eng.fresh(st, 'count')
            eng.put(st, self.EV0, self.co, v, self.cs)
            self.s(st, c0=v)
        if self.kind in ('from_this',):
            eng.put(st, ('arg', 1), 0, 0, 8)
        if self.kind == 'clone':
            eng.put(st, ('arg', 1), 0, 0, 8)
        if self.kind in ('assign', 'copy'):
            if self.kind == 'assign':
                v = eng.fresh(st, 'count', 1)
                eng.put(st, ('arg', 0), self.co, v, self.cs)
                self.s(st, c0=v)
            w = eng.fresh(st, 'count', 2)
            eng.put(st, ('arg', 1), self.co, w, self.cs)
            p = eng.fresh(st, 'payload')
            eng.put(st, ('arg', 1), self.po, p, 8)
            self.s(st, c1=w, pay=p)
        self.s(st, dels=0, live=(), copies=0, dtors=0)

    def cell(self, st, b, o):
        c = st.mem.get(b, {}).get(o)
        return c[0] if c else None

    def on_load(self, eng, st, ptr, val, size, loc):
        self.touch(eng, st, ptr, loc)

    def on_store(self, eng, st, ptr, val, size, loc):
        self.touch(eng, st, ptr, loc)

    def name_of(self, v):
        return 'event+%d' % v[2] if isinstance(v, tuple) and v[0] == 'p' and v[1] == self.EV0 else None

    def touch(self, eng, st, ptr, loc):
        if isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[1] in self.g(st, 'dead', ()):
            self.rep(eng, st, 'C15', 'an event is used after it was destroyed', loc)

    def on_new(self, eng, st, p, c):
        self.s(st, live=self.g(st, 'live') + (p[1],), nsize=c.args[0])
        self.count('allocations')
        if self.cls and c.args[0] != self.size:
            self.rep(eng, st, ('C15', 'C21'), 'memory of %s instead of %d bytes is allocated for an event' % (eng.show(c.args[0]), self.size), c.loc)

    def on_delete(self, eng, st, p, c):
        self.count('deallocations')
        if p == 0:
            return
        lv = self.g(st, 'live')
        if isinstance(p, tuple) and p[0] == 'p' and p[1] in lv:
            if p[2] != 0:
                self.rep(eng, st, ('C15', 'C21'), 'memory is returned at another address than the one it was obtained at', c.loc)
            self.s(st, live=tuple(x for x in lv if x != p[1]))
        else:
            self.rep(eng, st, 'C15', 'memory that is not owned by the event is freed', c.loc)

    def on_vcall(self, eng, st, c):
        self.count('virtual calls')
        if c.method is None and c.slot in (0, 1) or (c.method or '').startswith('~'):
            if c.slot != 1:
                self.rep(eng, st, 'C15', 'an event is destroyed without being freed', c.loc)
            if c.args[0] != ('p', self.EV0, 0):
                self.rep(eng, st, 'C15', 'something other than the event is destroyed', c.loc)
            n = self.g(st, 'dels') + 1
            if n > 1:
                self.rep(eng, st, 'C15', 'an event is destroyed twice', c.loc)
            self.s(st, dels=min(n, 2), dead=self.g(st, 'dead', ()) + (self.EV0,))
            c1 = self.g(st, 'c0')
            if eng.cmp(st, 'eq', c1, 1) is not True:
                self.rep(eng, st, 'C15', 'an event is destroyed although its last reference was not dropped', c.loc)
            return [(st, 'ret', None)]
        if c.method == 'clone':
            v = eng.fresh(st, 'clone')
            eng.assume(st, ('cmp', 'ne', v, 0), True)
            if eng.cmp(st, 'eq', self.g(st, 'c0'), 0) is not True:
                self.rep(eng, st, 'C15', 'an event managed by a reference-counting pointer is copied instead of shared', c.loc)
            if len(c.args) < 2 or c.args[1] != ('p', self.EV0, 0):
                self.rep(eng, st, 'C15', 'another event is copied', c.loc)
            eng.store(st, c.args[0], v, 'p', 8)
            self.s(st, clone=v, own=1)
            return [(st, 'ret', None), (st.copy(), 'throw', ('exc', 'user'))]
        return None

    def h_addref(self, eng, st, c):
        if self.kind == 'from_this':
            p = c.args[0]
            if p == ('p', self.EV0, 0):
                self.s(st, refs=self.g(st, 'refs', 0) + 1)
            elif p == self.g(st, 'clone'):
                self.s(st, own=self.g(st, 'own', 0) + 1)
            return [(st, 'ret', None)]
        return None

    def h_release(self, eng, st, c):
        if self.kind == 'from_this':
            p = c.args[0]
            if p == ('p', self.EV0, 0):
                self.s(st, refs=self.g(st, 'refs', 0) - 1)
            elif p == self.g(st, 'clone'):
                self.s(st, own=self.g(st, 'own', 0) - 1)
            return [(st, 'ret', None)]
        return None

    def on_unknown_call(self, eng, st, c):
        k = re.match(r'^hook_(\w+)', c.dem)
        k = k.group(1) if k else c.dem
        if k == 'copy':
            self.s(st, copies=min(3, self.g(st, 'copies') + 1), csrc=c.args[1], cdst=c.args[0])
            return [(st, 'ret', None), (st.copy(), 'throw', ('exc', 'user'))]
        if k == 'dtor_event':
            self.s(st, dtors=min(3, self.g(st, 'dtors') + 1))
            self.count('event destructors')
            return [(st, 'ret', None)]
        if k == 'use':
            n = self.g(st, 'uses', 0)
            lv = self.g(st, 'live')
            if n == 0 and len(lv) != 1:
                self.rep(eng, st, 'C15', 'a referenced event does not exist any more', c.loc)
            if n == 0 and len(lv) == 1 and self.cell(st, lv[0], self.eo + self.co) != 1:
                self.rep(eng, st, 'C15', 'one reference to an event is counted as %s' % eng.show(self.cell(st, lv[0], self.eo + self.co)), c.loc)
            if n == 1 and lv:
                self.rep(eng, st, 'C15', 'an event is not destroyed when its last reference is dropped', c.loc)
            if n == 1 and self.cls == 'E1' and self.g(st, 'dtors') != 1:
                self.rep(eng, st, 'C15', "an event's destructor is called %s times when its last reference is dropped" % self.g(st, 'dtors'), c.loc)
            self.s(st, uses=n + 1)
            return [(st, 'ret', None), (st.copy(), 'throw', ('exc', 'user'))]
        if k == 'payload':
            v = eng.fresh(st, 'payload')
            self.s(st, pay=v)
            return [(st, 'ret', v)]
        return None

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        k = self.kind
        if k in ('addref', 'release'):
            c = self.cell(st, self.EV0, self.co)
            w = self.g(st, 'c0')
            dead = self.EV0 in self.g(st, 'dead', ())
            d = 1 if k == 'addref' else -1
            if eng.cmp(st, 'eq', w, 1) is True and k == 'release':
                if not dead:
                    self.rep(eng, st, 'C15', 'an event is not destroyed when its last reference is dropped', loc)
            elif dead:
                self.rep(eng, st, 'C15', 'an event is destroyed although its last reference was not dropped', loc)
            if k == 'release' and not dead and eng.cmp(st, 'eq', w, 1) is not False:
                self.rep(eng, st, 'C15', 'a dropped reference may have been the last one, yet the event is not destroyed', loc)
            if not dead:
                if self.plus(w, d) != c:
                    self.rep(eng, st, 'C15', '%s changes the reference count of an event from n to %s' % ('taking a reference' if d > 0 else 'dropping a reference', 'n' if c == w else eng.show(c)), loc)
        elif k == 'from_this':
            r = self.cell(st, ('arg', 1), 0)
            cl = self.g(st, 'clone')
            z = eng.cmp(st, 'eq', self.g(st, 'c0'), 0)
            if z is True:
                if cl is None or r != cl:
                    self.rep(eng, st, 'C15', 'an event that is not managed by a reference-counting pointer is referenced without being copied', loc)
                elif self.g(st, 'own') != 1:
                    self.rep(eng, st, 'C15', 'the returned pointer owns %s references to the copy of the event' % self.g(st, 'own'), loc)
            elif z is False:
                if r != ('p', self.EV0, 0):
                    self.rep(eng, st, 'C15', 'a pointer to something other than the event is returned', loc)
                elif self.g(st, 'refs') != 1:
                    self.rep(eng, st, 'C15', 'the returned pointer owns %s references to the event' % self.g(st, 'refs'), loc)
            else:
                self.rep(eng, st, 'C15', 'an event is referenced whether or not it is managed by a reference-counting pointer', loc)
        elif k == 'clone':
            r = self.cell(st, ('arg', 1), 0)
            lv = self.g(st, 'live')
            if len(lv) != 1 or not (isinstance(r, tuple) and r[0] == 'p' and r[1] == lv[0] and r[2] == self.eo):
                self.rep(eng, st, 'C15', 'a copy of the event is not made', loc)
                return
            if self.cell(st, lv[0], self.eo + self.co) != 1:
                self.rep(eng, st, 'C15', 'the copy of an event starts with %s references instead of one' % eng.show(self.cell(st, lv[0], self.eo + self.co)), loc)
            if self.cell(st, ('arg', 0), self.eo + self.co) != 0:
                self.rep(eng, st, 'C15', 'copying an event changes its own reference count', loc)
            if self.cell(st, lv[0], self.po) != self.g(st, 'pay'):
                self.rep(eng, st, 'C15', 'the copy of an event does not have its content', loc)
            if self.cls == 'E1' and (self.g(st, 'copies') != 1 or self.g(st, 'csrc') != ('p', ('arg', 0), 0) or self.g(st, 'cdst') != ('p', lv[0], 0)):
                self.rep(eng, st, 'C15', 'the copy constructor of the event is called %s times' % self.g(st, 'copies'), loc)
        elif k in ('copy', 'assign'):
            c = self.cell(st, ('arg', 0), self.co)
            w = 0 if k == 'copy' else self.g(st, 'c0')
            if c != w:
                self.rep(eng, st, 'C15', '%s an event %s' % ('copying' if k == 'copy' else 'assigning to', 'takes over references' if k == 'copy' else 'changes its reference count'), loc)
            if self.cell(st, ('arg', 1), self.co) != self.g(st, 'c1'):
                self.rep(eng, st, 'C15', 'copying from an event changes its reference count', loc)
            if self.cell(st, ('arg', 0), self.po) != self.g(st, 'pay'):
                self.rep(eng, st, 'C15', 'the copy of an event does not have its content', loc)
        elif k == 'make':
            if self.cell(st, ('arg', 0), self.co) != 0:
                self.rep(eng, st, 'C15', 'a new event starts with %s references' % eng.show(self.cell(st, ('arg', 0), self.co)), loc)
        elif k == 'life':
            if self.g(st, 'uses') != 2:
                raise EngineError('life entry not run')

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        if self.g(st, 'live'):
            self.rep(eng, st, 'C15', 'an event is leaked when an exception is thrown', loc)
        if self.kind in ('from_this',) and (self.g(st, 'refs', 0) or 0) != 0:
            self.rep(eng, st, 'C15', 'a reference is leaked when an exception is thrown', loc)

    def on_assert_fail(self, eng, st, c):
        # count > 0 is the obligation of whoever drops the reference
        if self.kind not in ('release',):
            self.rep(eng, st, 'C15', 'an assertion about an event fails', c.loc)

    def on_rmw(self, eng, st, o, p, v, old, loc):
        self.touch(eng, st, p, loc)

    def plus(self, v, d):
        if isinstance(v, int):
            return v + d
        return ('p', v[1], v[2] + d) if isinstance(v, tuple) and v[0] == 'p' else None

    handlers = [
        (R(r'\bintrusive_ptr_add_ref\b'), h_addref),
        (R(r'\bintrusive_ptr_release\b'), h_release),
    ]

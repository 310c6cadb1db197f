"""Rules over whole modules (no path exploration): mutable state outside of
objects (C23), throwing and catching sites (C25), sources of memory (C21)."""
import re
from engine import *
from type_rules import V, EventRule


def is_lib(F):
    return bool(F.file) and 'boost/statechart/' in F.file


def kglobals(x, out):
    if isinstance(x, K):
        x = x.v
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'p' and isinstance(x[1], tuple) and x[1][0] == 'g':
            out.append(x[1][1])
            return
        for y in x:
            kglobals(y, out)
    elif isinstance(x, (list, dict)):
        for y in (x.values() if isinstance(x, dict) else x):
            kglobals(y, out)


def gname(x):
    if isinstance(x, K):
        x = x.v
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'p' and x[1][0] == 'g':
        return x[1][1]
    return None


def callees(m, F):
    """directly called functions (names), and whether it calls through pointers"""
    out = set()
    ind = False
    for b in F.blocks or ():
        for i in b:
            if i[0] in ('call', 'invoke'):
                n = gname(i[2])
                if n:
                    out.add(n)
                elif isinstance(i[2], K) and i[2].v == TOP:
                    pass
                else:
                    ind = True
    return out, ind


class Graph:
    def __init__(self, m):
        self.m = m
        self.out = {}
        self.ind = {}
        self.inn = {}
        for n, F in m.fns.items():
            o, i = callees(m, F)
            self.out[n] = o
            self.ind[n] = i
            for x in o:
                self.inn.setdefault(x, set()).add(n)
        # functions whose address is used otherwise (vtables, callbacks)
        self.addr = set()
        for n, F in m.fns.items():
            for b in F.blocks or ():
                for i in b:
                    g = []
                    kglobals(i[3:] if i[0] in ('call', 'invoke') else i, g)
                    for x in g:
                        if x in m.fns and not (i[0] in ('call', 'invoke') and x == gname(i[2])):
                            self.addr.add(x)

    def reach(self, n):
        seen = {n}
        w = [n]
        while w:
            x = w.pop()
            for y in self.out.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return seen

    def only_through(self, n, ok):
        """is every chain of callers of n (up to functions nobody calls) through a function satisfying ok"""
        seen = {n}
        w = [n]
        while w:
            x = w.pop()
            if ok(self.m.fns[x]):
                continue
            cs = self.inn.get(x, set())
            if not cs:
                return x
            if x in self.addr:
                return x
            for y in cs:
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return None


def pat(F, loc, m):
    return '%s in %s' % (m.locstr(loc) if loc else '%s:%s' % (F.file, F.line), F.dem[:160])


# ---- C23: mutable state --------------------------------------------------------
def writes_through(m):
    """(function, parameter index) pairs through which the function may write"""
    res = set()
    info = {}
    for n, F in m.fns.items():
        if F.decl:
            continue
        taint = {k: {k} for k in range(F.nargs)}
        calls = []
        ch = True
        rounds = 0
        while ch and rounds < 20:
            ch = False
            rounds += 1
            for b in F.blocks:
                for i in b:
                    src = None
                    if i[0] == 'gep':
                        src = [i[2]]
                    elif i[0] == 'cast':
                        src = [i[3]]
                    elif i[0] == 'phi':
                        src = list(i[2].values())
                    elif i[0] == 'sel':
                        src = [i[3], i[4]]
                    if src:
                        s = set()
                        for x in src:
                            if isinstance(x, int):
                                s |= taint.get(x, set())
                        if s - taint.get(i[1], set()):
                            taint[i[1]] = taint.get(i[1], set()) | s
                            ch = True
        for b in F.blocks:
            for i in b:
                p = {'store': 1, 'rmw': 3, 'cmpxchg': 2}.get(i[0])
                if p is not None and isinstance(i[p], int):
                    for k in taint.get(i[p], ()):
                        res.add((n, k))
                if i[0] in ('call', 'invoke'):
                    calls.append(i)
        info[n] = (taint, calls)
    ch = True
    while ch:
        ch = False
        for n, (taint, calls) in info.items():
            for i in calls:
                c = gname(i[2])
                if not c:
                    continue
                for ai, a in enumerate(i[3]):
                    if isinstance(a, int) and taint.get(a) and wr_call(m, res, c, ai):
                        for k in taint[a]:
                            if (n, k) not in res:
                                res.add((n, k))
                                ch = True
    return res


def wr_call(m, res, c, ai):
    if (c, ai) in res:
        return True
    return bool(re.match(r'^(llvm\.)?mem(cpy|move|set)', c)) and ai == 0


def mutable_state(m, prop='C23'):
    vio = []
    cnt = {'functions scanned': 0, 'mutable globals': 0, 'write sites': 0}
    fns = set()
    G = Graph(m)
    wt = writes_through(m)
    user = lambda g: (g.get('file') or '').startswith('/verif') or '/harness/' in (g.get('file') or '')
    refs = {}
    writes = {}
    for n, F in m.fns.items():
        if F.decl:
            continue
        if is_lib(F):
            fns.add(F.diname or n)
            cnt['functions scanned'] += 1
        derived = {}
        for b in F.blocks:
            for i in b:
                g = []
                kglobals(i, g)
                for x in g:
                    G0 = m.globals.get(x)
                    if G0 is not None and not G0['const']:
                        refs.setdefault(x, []).append((F, i))
                if i[0] in ('gep', 'cast', 'phi', 'sel'):
                    s = set(x for x in g if x in m.globals and not m.globals[x]['const'])
                    for y in ([i[2]] if i[0] == 'gep' else [i[3]] if i[0] == 'cast' else list(i[2].values()) if i[0] == 'phi' else [i[3], i[4]]):
                        if isinstance(y, int):
                            s |= derived.get(y, set())
                    if s:
                        derived[i[1]] = s

                def gs(x):
                    if isinstance(x, int):
                        return derived.get(x, set())
                    y = gname(x)
                    return {y} if y in m.globals and not m.globals[y]['const'] else set()
                p = {'store': 1, 'rmw': 3, 'cmpxchg': 2}.get(i[0])
                if p is not None:
                    for x in gs(i[p]):
                        writes.setdefault(x, []).append((F, i[5] if i[0] == 'store' else i[6]))
                if i[0] in ('call', 'invoke'):
                    c = gname(i[2])
                    for ai, a in enumerate(i[3]):
                        for x in gs(a):
                            if c is None or wr_call(m, wt, c, ai) or (c in m.fns and m.fns[c].decl and not re.match(r'^(llvm\.|__cxa_guard|__cxa_throw|_ZNKSt9type_info)', c)):
                                writes.setdefault(x, []).append((F, i[7]))
    setter = lambda F: bool(re.search(r'::custom_static_type_ptr<', F.dem)) and is_lib(F)
    for x, g in m.globals.items():
        if g['const'] or x.startswith('llvm.') or x.startswith('_ZGV') or x.startswith('__dso') or user(g) or x.startswith('_ZTV') or x.startswith('_ZTI'):
            continue
        own = 'boost/statechart/' in (g.get('file') or '') or 'boost::statechart::' in g['dem']
        libref = [F for F, i in refs.get(x, ()) if is_lib(F)]
        if not own and not libref:
            continue
        cnt['mutable globals'] += 1
        if g['tls']:
            pass
        for F, loc in writes.get(x, ()):
            cnt['write sites'] += 1
            bad = G.only_through(F.name, setter)
            if bad and not F.dem.startswith('__cxx_global_var_init'):
                vio.append(V(prop, 'state outside of any machine, state, event or scheduler (%s) is modified other than by setting a custom type identifier' % g['dem'][:120], pat(F, loc, m)))
        if not own and not g['decl'] and not writes.get(x):
            pass
        elif not own:
            F = libref[0]
            vio.append(V(prop, 'the library uses mutable state outside of any machine, state, event or scheduler (%s)' % g['dem'][:120], pat(F, None, m)))
    cnt['_fns'] = fns
    return vio, cnt


class SharedCountRule(EventRule):
    """the reference count of an event other threads hold references to: it may
    change at any time between two accesses"""

    def __init__(self, m, kind, prop='C23'):
        super().__init__(m, kind, None, None)
        self.prop = prop

    def setup(self, eng, st, args):
        self.s(st, dels=0, live=(), copies=0, dtors=0, net=0)

    def shared(self, ptr):
        return isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[1] == self.EV0 and self.co <= ptr[2] < self.co + self.cs

    def atomic(self, st):
        f = st.frames[-1]
        i = f.fn.blocks[f.blk][f.ip]
        return i[0] in ('rmw', 'cmpxchg') or (i[0] in ('load', 'store') and i[6])

    def on_load(self, eng, st, ptr, val, size, loc):
        super().on_load(eng, st, ptr, val, size, loc)
        if self.shared(ptr):
            self.count('accesses of the count')
            if not self.atomic(st):
                self.rep(eng, st, self.prop, 'the reference count of an event is read by a plain access', loc)
            st.mem.get(ptr[1], {}).pop(ptr[2], None)

    def on_store(self, eng, st, ptr, val, size, loc):
        super().on_store(eng, st, ptr, val, size, loc)
        if self.shared(ptr):
            self.count('accesses of the count')
            f = st.frames[-1]
            if not self.atomic(st):
                self.rep(eng, st, self.prop, 'the reference count of an event is written by a plain access', loc)
            elif f.fn.blocks[f.blk][f.ip][0] == 'store':
                self.rep(eng, st, self.prop, 'the reference count of an event is overwritten instead of changed by an atomic operation', loc)

    def after_rmw(self, eng, st, o, p, v, old, order, loc):
        if not self.shared(p):
            return
        self.count('atomic changes')
        d = v if isinstance(v, int) else None
        if d is not None and d >= (1 << 31):
            d -= 1 << 32
        if o == 'sub' and d is not None:
            d = -d
        if o not in ('add', 'sub') or d is None:
            self.rep(eng, st, self.prop, 'the reference count of an event is changed by an operation other than an increment or decrement', loc)
            d = 0
        self.s(st, net=self.g(st, 'net') + d, old=old if d < 0 else self.g(st, 'old'), order=order if d < 0 else None)
        st.mem.get(p[1], {}).pop(p[2], None)

    def on_fence(self, eng, st):
        if self.g(st, 'order') == 5:
            self.s(st, order=6)

    def on_vcall(self, eng, st, c):
        if c.method is None and c.slot in (0, 1) or (c.method or '').startswith('~'):
            self.count('destructions')
            old = self.g(st, 'old')
            if old is None or eng.cmp(st, 'eq', old, 1) is not True:
                self.rep(eng, st, self.prop, 'the decision to destroy an event does not use the result of the atomic decrement', c.loc)
            if self.g(st, 'order') not in (6, 7):
                self.rep(eng, st, self.prop, "the atomic decrement does not order the other threads' accesses before the destruction of the event", c.loc)
            self.s(st, dels=1)
            return [(st, 'ret', None)]
        if c.method == 'clone':
            v = eng.fresh(st, 'clone')
            eng.store(st, c.args[0], v, 'p', 8)
            return [(st, 'ret', None)]
        return None

    def h_none(self, eng, st, c):
        return None

    handlers = []

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        want = {'addref': 1, 'release': -1}[self.kind]
        if self.g(st, 'net') != want:
            self.rep(eng, st, self.prop, '%s changes the count by %s' % ('taking a reference' if want > 0 else 'dropping a reference', self.g(st, 'net')), loc)
        if self.kind == 'release' and not self.g(st, 'dels'):
            old = self.g(st, 'old')
            if old is None or eng.cmp(st, 'eq', old, 1) is not False:
                self.rep(eng, st, self.prop, 'the event is not destroyed although the atomic decrement may have dropped the last reference', loc)

    def on_unwind(self, eng, st, loc):
        pass


# ---- C25: throwing and catching -------------------------------------------------
THROW_OK = ('_ZTISt8bad_cast',)


def exceptions(m, prop='C25', queries=False):
    vio = []
    cnt = {'functions scanned': 0, 'throw sites': 0, 'catch sites': 0, 'noexcept functions': 0, 'catch handlers that end the exception': 0}
    fns = set()
    G = Graph(m)
    may = may_throw(m, G)
    for n, F in m.fns.items():
        if F.decl or not is_lib(F):
            continue
        fns.add(F.diname or n)
        cnt['functions scanned'] += 1
        # throwing
        for b in F.blocks:
            for i in b:
                if i[0] not in ('call', 'invoke'):
                    continue
                c = gname(i[2])
                if c == '__cxa_throw':
                    cnt['throw sites'] += 1
                    t = gname(i[3][1])
                    if t not in THROW_OK:
                        vio.append(V(prop, 'the library throws an exception of its own (%s)' % (m.globals.get(t, {}).get('dem') or t), pat(F, i[7], m)))
                    else:
                        bad = [e for e in m.fns if e.startswith('entry_') and n in G.reach(e) and not re.search('_(cast|down)', e)]
                        for e in bad:
                            vio.append(V(prop, 'an operation other than a reference state query may throw bad_cast (%s)' % e, pat(F, i[7], m)))
                elif c and re.match(r'^_ZN5boost(15throw_exception|16exception_detail)|^_ZSt1[0-9]__throw_|^_ZSt2[0-9]__throw_', c) and not re.match(r'^_ZN5boost4', c):
                    if is_lib(F):
                        vio.append(V(prop, 'the library throws an exception of its own (through %s)' % m.fns[c].dem[:80], pat(F, i[7], m)))
        ls = {bi: b for bi, b in enumerate(F.blocks) for i in b if i[0] == 'lpad' and i[3]}
        implicit = is_implicit_noexcept(F)
        if not ls:
            continue
        fate = {bi: handler_fate(m, F, bi) for bi in ls}
        clean = cleanup_blocks(F)
        for bi, b in ls.items():
            cnt['catch sites'] += 1
            f = fate[bi]
            if f == 'terminate':
                # who unwinds here from regular code
                for bj, bb in enumerate(F.blocks):
                    if bj in clean:
                        continue
                    i = bb[-1]
                    if i[0] == 'invoke' and i[9] == bi:
                        c = gname(i[2])
                        if not implicit:
                            cnt['noexcept functions'] += 1
                            if c is None or c in may:
                                vio.append(V(prop, 'an exception may end the program instead of reaching the caller', pat(F, i[7], m)))
            elif f == 'swallow':
                cnt['catch handlers that end the exception'] += 1
                types = [gname(x[1]) if x[1] not in (0, None) else '...' for i in b if i[0] == 'lpad' for x in i[3]]
                if re.search(r'^boost::statechart::exception_translator<', strip_ret(F.dem)):
                    continue
                if set(types) <= set(THROW_OK) and local_cast(m, F, bi):
                    continue
                vio.append(V(prop, 'an exception may be swallowed outside of the exception translator (catch of %s)' % ', '.join(str(m.globals.get(t, {}).get('dem') or t) for t in types), pat(F, None, m)))
    cnt['_fns'] = fns
    return vio, cnt


def strip_ret(d):
    """demangled name without the return type template functions carry"""
    i = d.find('boost::statechart::exception_translator<')
    if i >= 0 and '(' not in d[:i].replace('(anonymous', ''):
        return d[i:]
    return d


def local_cast(m, F, bi):
    """do only failing casts unwind to this handler"""
    for b in F.blocks:
        i = b[-1]
        if i[0] == 'invoke' and i[9] == bi:
            c = gname(i[2])
            if c == '__cxa_bad_cast':
                continue
            if c is None and outer_call(m, F, i):
                continue
            C = m.fns.get(c)
            if C is None or C.decl:
                return False
            if not (C.nounwind or pure_cast(m, C)):
                return False
    return True


def outer_call(m, F, i):
    """is i a virtual call of state_base::outer_state_ptr() (one
    argument, a pointer as result), none of whose overriders throws"""
    defs = {x[1]: x for b in F.blocks for x in b if x[0] in ('load', 'gep')}
    d = defs.get(i[2]) if isinstance(i[2], int) else None
    if d is None or d[0] != 'load' or len(i[3]) != 1 or i[4] not in ('p', 'ptr'):
        return False
    v = defs.get(d[2]) if isinstance(d[2], int) else None
    slot = 0
    if v is not None and v[0] == 'gep' and not v[4]:
        slot = v[3] // 8
        v = defs.get(v[2]) if isinstance(v[2], int) else None
    if v is None or v[0] != 'load' or v[2] != i[3][0]:
        return False
    over = [f for f in m.fns.values() if not f.decl and re.search(r'::outer_state_ptr\(\) const$', f.dem)]
    slot0 = {nm for k in m.classes if k['name'].startswith('boost::statechart::') for nm, ln, ix in k['virtuals'] if ix == slot and not nm.startswith('~')}
    slot0.discard('clone')      # two arguments
    return slot0 == {'outer_state_ptr'} and all(f.nounwind or not any(x[0] in ('call', 'invoke') and gname(x[2]) is None for b in f.blocks for x in b) for f in over)


def pure_cast(m, C, depth=0):
    if depth > 4 or C.decl:
        return False
    for b in C.blocks:
        for i in b:
            if i[0] in ('call', 'invoke'):
                c = gname(i[2])
                if c is None and outer_call(m, C, i):
                    continue
                D = m.fns.get(c) if c else None
                if D is None:
                    return False
                if c in ('__cxa_bad_cast', '__dynamic_cast') or D.nounwind or c.startswith('llvm.'):
                    continue
                if not pure_cast(m, D, depth + 1):
                    return False
    return True


def is_implicit_noexcept(F):
    d = F.dem
    return bool(re.search(r'::~', d)) or 'operator delete' in d


def succs(i, normal_only=False):
    if i[0] == 'br':
        return [i[2], i[3]]
    if i[0] == 'jmp':
        return [i[1]]
    if i[0] == 'switch':
        return [i[2]] + [c[1] for c in i[3]]
    if i[0] == 'invoke':
        return [i[8]] if normal_only else [i[8], i[9]]
    return []


def cleanup_blocks(F):
    """blocks only reached through landing pads"""
    seen = {0}
    w = [0]
    while w:
        b = w.pop()
        for s in succs(F.blocks[b][-1], True):
            if s not in seen:
                seen.add(s)
                w.append(s)
    return set(range(len(F.blocks))) - seen


def handler_fate(m, F, bi):
    """what becomes of an exception caught by landing pad bi: 'terminate',
    'rethrow' (leaves the function again on every path), 'swallow'"""
    seen = set()
    w = [bi]
    term = False
    swallow = False
    cont = False
    while w:
        b = w.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for i in F.blocks[b]:
            if i[0] in ('call', 'invoke'):
                c = gname(i[2]) or ''
                if c == '__clang_call_terminate' or 'terminate' in c and c.startswith('_ZSt'):
                    term = True
                    stop = True
                elif c == '__cxa_rethrow':
                    cont = True
                    stop = True
                elif c == '__cxa_end_catch':
                    # on the regular way out of a handler: the exception ends here
                    if b not in F_clean_after(F, bi):
                        swallow = True
                        stop = True
            elif i[0] == 'ret':
                swallow = True
            elif i[0] == 'resume':
                cont = True
        if stop:
            continue
        i = F.blocks[b][-1]
        for s in succs(i, True):
            w.append(s)
    if swallow:
        return 'swallow'
    if cont:
        return 'rethrow'
    if term:
        return 'terminate'
    return 'rethrow'


def F_clean_after(F, bi):
    """blocks reached from handler bi only by further unwinding"""
    seen = {bi}
    w = [bi]
    while w:
        b = w.pop()
        for s in succs(F.blocks[b][-1], True):
            if s not in seen:
                seen.add(s)
                w.append(s)
    return set(range(len(F.blocks))) - seen


def may_throw(m, G):
    """functions an exception may leave (user code, allocation, throw)"""
    base = set()
    for n, F in m.fns.items():
        if F.decl and not F.nounwind and not n.startswith('llvm.') and not n.startswith('__cxa_begin') and not n.startswith('__cxa_end'):
            base.add(n)
        elif not F.decl and not F.nounwind:
            for b in F.blocks:
                for i in b:
                    if i[0] in ('call', 'invoke') and not i[5] and gname(i[2]) is None:
                        base.add(n)
    out = set(base)
    w = list(base)
    while w:
        x = w.pop()
        for y in G.inn.get(x, ()):
            if y not in out and not m.fns[y].nounwind:
                out.add(y)
                w.append(y)
    return out

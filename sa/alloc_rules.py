"""Which allocator memory comes from and goes back to (C21)."""
import re
from engine import *
from lib import *
import engine
from type_rules import V, ValRule, Runs
from scan_rules import Graph, is_lib
from state_rules import *

TA = re.compile(r'^hook_(de)?alloc\(TA<(\d+), (.*)>\*, (?:void\*, )?unsigned long\)$')
NEW = re.compile(r'^operator new(\[\])?\((unsigned long|unsigned int)')
DEL = re.compile(r'^operator delete(\[\])?\(')
MALLOC = {'malloc', 'calloc', 'realloc', 'aligned_alloc', 'posix_memalign', 'strdup'}


def ta(dem):
    k = TA.match(dem)
    return (int(k.group(2)), k.group(3), bool(k.group(1))) if k else None


STDALLOC = re.compile(r'^std::(__new_allocator|allocator|new_allocator|allocator_traits<std::allocator)<|^__gnu_cxx::new_allocator<')


def user(fd):
    """a function of a state or event class"""
    return bool(re.match(r'^(\w+|boost::statechart::(simple_state|state|event)<.*>)::~\w+\(\)$', fd)) and not fd.startswith('M::')


def sites(m):
    for n, F in sorted(m.fns.items()):
        for b in F.blocks or ():
            for i in b:
                if i[0] in ('call', 'invoke'):
                    yield n, F, i


def callee(i):
    from scan_rules import gname
    return gname(i[2])


def scan(m, prop, what, tag, users=(), std=False, expect=(), forbid_std=True):
    """every allocation and deallocation site of a module. tag: the allocator
    all of the library's memory has to come from; users: types whose memory
    comes from allocator 2 (events)"""
    vio = []
    cnt = {'allocation sites': 0, 'deallocation sites': 0, 'global allocation sites': 0, 'calls inspected': 0}
    seen = {}
    fns = set()
    for n, F, i in sites(m):
        c = callee(i)
        if not c:
            continue
        cnt['calls inspected'] += 1
        if is_lib(F):
            fns.add(F.diname or n)
        d = m.fns[c].dem if c in m.fns else c
        fd = F.dem
        k = ta(d)
        w = '%s in %s' % (m.locstr(i[7]) if i[7] else F.file, fd[:160])
        if k:
            t, T, de = k
            cnt['deallocation sites' if de else 'allocation sites'] += 1
            seen.setdefault((t, T), [0, 0])[de] += 1
            want = 2 if T in users else tag
            if t != want:
                vio.append(V(prop, 'memory for %s is %s allocator %d instead of the configured one (%d)' % (T[:120], 'returned to' if de else 'obtained from', t, want), w))
            continue
        if NEW.match(d) or c in MALLOC:
            cnt['global allocation sites'] += 1
            container = bool(STDALLOC.search(fd))
            if what == 'scheduler' and not container:
                continue    # processors, their handles and what the user's processors need
            if not container and not is_lib(F) and not user(fd):
                continue    # exception objects of other libraries and the like
            if not std:
                vio.append(V(prop, 'memory is obtained from the global heap instead of from the configured allocator', w))
        elif DEL.match(d) or c == 'free':
            d0 = n.endswith('D0Ev')
            if what == 'scheduler':
                if STDALLOC.search(fd) and not std:
                    vio.append(V(prop, 'memory is returned to the global heap instead of to the configured allocator', w))
                continue
            if std:
                continue
            if not is_lib(F) and not STDALLOC.search(fd) and not user(fd):
                continue
            if d0 and not user(fd):
                continue    # deleting destructors of base classes and of the machine
            vio.append(V(prop, 'memory is returned to the global heap instead of to the configured allocator', w))
        elif what == 'scheduler' and d.startswith('hook_workalloc('):
            cnt['work items created'] = cnt.get('work items created', 0) + 1
            if not d.startswith('hook_workalloc(TA<%d, ' % tag):
                vio.append(V(prop, "a work item is created with %s instead of the scheduler's allocator" % d[15:-1][:100], w))
    if std:
        return vio, dict(cnt, _fns=fns)
    for (t, T), (a, d) in sorted(seen.items()):
        if a and not d:
            vio.append(V(prop, 'memory for %s is obtained from allocator %d but never returned to it' % (T[:120], t), what))
        if d and not a:
            vio.append(V(prop, 'memory for %s is returned to allocator %d but never obtained from it' % (T[:120], t), what))
    for x in expect:
        if not any(re.search(x, T) for t, T in seen):
            vio.append(V(prop, 'no memory for %s is obtained from the configured allocator' % x, what))
    cnt['types allocated'] = len(seen)
    return vio, dict(cnt, _fns=fns)


class Tracker:
    """follows the blocks handed out by the configured allocators"""

    def tag_of(self, T):
        return 1

    def h_alloc(self, eng, st, c):
        k = ta(c.dem)
        if not k:
            return None
        t, T, de = k
        if de:
            p, n = c.args[1], c.args[2]
            self.count('deallocations')
            if n != 1:
                self.rep(eng, st, 'C21', '%s objects are returned to the allocator for %s' % (eng.show(n), T), c.loc)
            al = dict(self.g(st, 'al', ()))
            b = p[1] if isinstance(p, tuple) and p[0] == 'p' else None
            if b in al:
                if al[b] != (t, T):
                    self.rep(eng, st, 'C21', 'memory obtained for %s from allocator %d is returned as %s to allocator %d' % (al[b][1], al[b][0], T, t), c.loc)
                if p[2] != 0:
                    self.rep(eng, st, 'C21', 'memory is returned at another address than the one it was obtained at', c.loc)
                del al[b]
                self.s(st, al=tuple(sorted(al.items(), key=repr)))
            else:
                self.foreign(eng, st, p, t, T, c)
            f = getattr(self, 'on_delete_obj', None)
            c.args = [p]
            return engine.h_delete(self, eng, st, c)
        n = c.args[1]
        self.count('allocations')
        if n != 1:
            self.rep(eng, st, 'C21', 'memory for %s objects is requested from the allocator for %s' % (eng.show(n), T), c.loc)
        if t != self.tag_of(T):
            self.rep(eng, st, 'C21', 'memory for %s is obtained from allocator %d instead of the configured one (%d)' % (T, t, self.tag_of(T)), c.loc)
        self.quiet_new = True
        r = engine.h_new(self, eng, st, c)
        self.quiet_new = False
        out = []
        for s, k2, v in r:
            if k2 == 'ret':
                self.s(s, al=tuple(sorted(dict(self.g(s, 'al', ()), **{}).items(), key=repr)) + ((v[1], (t, T)),))
                s2 = s.copy()
                self.s(s2, al=tuple(x for x in self.g(s2, 'al') if x[0] != v[1]))
                s2.mem.pop(v[1], None)
                out.append((s2, 'throw', ('exc', 'bad_alloc')))
            out.append((s, k2, v))
        return out

    def foreign(self, eng, st, p, t, T, c):
        self.rep(eng, st, 'C21', 'memory that was not obtained from it is returned to allocator %d as %s' % (t, T), c.loc)

    def on_new(self, eng, st, p, c):
        if not getattr(self, 'quiet_new', False):
            self.rep(eng, st, 'C21', 'memory is obtained from the global heap instead of from the configured allocator', c.loc)

    def built(self, eng, st, this, who, loc):
        """`who` is constructed at `this`"""
        al = dict(self.g(st, 'al', ()))
        b = this[1] if isinstance(this, tuple) and this[0] == 'p' else None
        if b not in al:
            self.rep(eng, st, 'C21', '%s is not created in memory of the configured allocator' % who, loc)
        elif al[b][1] != who:
            self.rep(eng, st, 'C21', 'a %s is created in memory obtained for %s' % (who, al[b][1]), loc)
        else:
            self.count('objects built')


class AllocEventRule(Tracker, ValRule):
    new_throws = False

    def __init__(self, mod, cls, prop='C21'):
        super().__init__(mod, prop)
        self.cls = cls

    def tag_of(self, T):
        return 2

    def on_unknown_call(self, eng, st, c):
        d = c.dem or ''
        if re.match(r'^hook_ctor\(%s\*' % self.cls, d):
            self.built_if_heap(eng, st, c)
            s2 = st.copy()
            self.s(s2, bad=1)
            return [(st, 'ret', None), (s2, 'throw', ('exc', 'user'))]
        if d.startswith('hook_use'):
            self.count('uses')
            if not any(T == self.cls for b, (t, T) in self.g(st, 'al', ())):
                self.rep(eng, st, 'C21', 'a referenced event is not in memory of its allocator', c.loc)
            return [(st, 'ret', None)]
        return super().on_unknown_call(eng, st, c)

    def built_if_heap(self, eng, st, c):
        p = c.args[0]
        if isinstance(p, tuple) and p[0] == 'p' and p[1][0] == 'h':
            self.built(eng, st, p, self.cls, c.loc)

    def on_delete(self, eng, st, p, c):
        pass

    def end(self, eng, st, loc):
        for b, (t, T) in self.g(st, 'al', ()):
            self.rep(eng, st, 'C21', 'memory obtained for %s from allocator %d is not returned' % (T, t), loc)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        self.end(eng, st, loc)

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        self.end(eng, st, loc)

    handlers = [(R(r'^hook_(de)?alloc\('), Tracker.h_alloc)] + ValRule.handlers


def tracked(Base):
    """the rule `Base` over states that use allocator 1"""

    class T(Tracker, Base):
        handlers = [(R(r'^hook_(de)?alloc\('), Tracker.h_alloc)] + Base.handlers
        quiet_new = False

        def foreign(self, eng, st, p, t, T, c):
            n = self.oname(st, p)
            if n:
                self.count('objects returned')
                if n != T or t != 1:
                    self.rep(eng, st, 'C21', 'the memory of a %s is returned as %s to allocator %d' % (n, T, t), c.loc)
                return
            Tracker.foreign(self, eng, st, p, t, T, c)

        def ev_hook(self, eng, st, loc, k, who, args):
            if k == 'enter':
                self.built(eng, st, args[0], who, loc)
            if k == 'dtor' and who != 'M':
                self.s(st, due=tuple(sorted(set(self.g(st, 'due', ())) | {args[0][1]}, key=repr)))
            return super().ev_hook(eng, st, loc, k, who, args)

        def on_delete(self, eng, st, p, c):
            if isinstance(p, tuple) and p[0] == 'p':
                self.s(st, due=tuple(x for x in self.g(st, 'due', ()) if x != p[1]))
            super().on_delete(eng, st, p, c)

        def done(self, eng, st, loc):
            for b in self.g(st, 'due', ()):
                self.rep(eng, st, 'C21', 'the memory of a destroyed state is not returned to the configured allocator', loc)

        def on_return(self, eng, st, rv, loc):
            self.done(eng, st, loc)
            super().on_return(eng, st, rv, loc)

        def on_unwind(self, eng, st, loc):
            self.done(eng, st, loc)
            # blocks whose object was never completed
            known = {b for n, b in self.g(st, 'obj')}
            for b, (t, x) in self.g(st, 'al', ()):
                if b not in known and b[0] == 'h' and x in self.ch.st:
                    self.rep(eng, st, 'C21', 'memory obtained for %s is not returned after an exception' % x, loc)
            super().on_unwind(eng, st, loc)
    T.__name__ = 'Alloc' + Base.__name__
    return T


def scan_std(m, prop):
    """the scan sees what it forbids: with the standard allocator there are
    global allocation sites"""
    v, c = scan(m, prop, 'machine', 0, std=True)
    if not c['global allocation sites'] or c['allocation sites']:
        raise EngineError('the positive example shows no global allocation site')
    return [], c

"""Rules for single operations on states of generated charts: transitions,
initial entry, exits, reactions, history."""
from engine import *
from lib import *
from machine_rules import Mon


class Offs:
    def __init__(self, m, name):
        c = m.class_by_name.get(name)
        if not c:
            raise EngineError('no debug info for state class %s' % name)
        mem = m.flat_members(c)

        def pick(own, nm, pred):
            l = [x for x in mem if x[4].startswith('boost::statechart::' + own)]
            for x in l:
                if x[0] == nm:
                    return x[1]
            for x in l:
                if pred(x) and not x[0].startswith('_vptr'):
                    return x[1]
            return None
        self.size = c['size']
        self.ctx = pick('simple_state<', 'pContext_', lambda x: x[3] == 8)
        self.cnt = pick('detail::count', 'count_', lambda x: x[3] in (4, 8))
        self.defer = pick('detail::state_base<', 'deferredEvents_', lambda x: x[3] == 1)
        self.inner = pick('detail::node_state<', 'pInnerStates', lambda x: x[3] >= 8)
        self.listpos = pick('detail::leaf_state<', 'listPosition_', lambda x: x[3] == 8)
        for k in ('ctx', 'cnt', 'defer'):
            if getattr(self, k) is None:
                raise EngineError('no member of %s plays the role %s' % (name, k))
        if self.inner is None and self.listpos is None:
            raise EngineError('no inner states or list position in %s' % name)


class StateRule(Mon):
    MACHINE = ('o', 'M')
    MBASE = ('o', 'M')
    widen_limit = 60

    def __init__(self, mod, lay, ch, prop=None):
        super().__init__(mod, lay)
        self.ch = ch
        self.prop = prop
        self.counts = {}
        self.offs = {}

    def o(self, name):
        r = self.offs.get(name)
        if r is None:
            r = self.offs[name] = Offs(self.mod, name)
        return r

    # -- objects ---------------------------------------------------------------
    def place(self, eng, st, src, base):
        """describe active state `src` (at base) and all its contexts"""
        obj = {src: base, '': self.MACHINE}
        for c in self.ch.ctxs(src):
            if c:
                obj[c] = ('o', 'S', c)
        for n, b in obj.items():
            if not n:
                continue
            o = self.o(n)
            st.mem.setdefault(b, {})
            eng.put(st, b, o.ctx, ('p', obj[self.ch.st[n].ctx], 0), 8)
            s = ('s', 'refcnt', n, 0)
            eng.put(st, b, o.cnt, ('p', s, 0), 8)
            eng.assume(st, ('cmp', 'sgt', ('p', s, 0), 0), True)
        top = self.ch.top(src, '')
        st.mem.setdefault(self.MACHINE, {})
        eng.put(st, self.MACHINE, self.lay.off['outermost'], ('p', obj[top], 0), 8)
        c = src
        while self.ch.st[c].ctx:
            p = self.ch.st[c].ctx
            eng.put(st, obj[p], self.o(p).inner + 8 * self.ch.st[c].region, ('p', obj[c], 0), 8)
            c = p
        self.s(st, obj=tuple(sorted(obj.items())), dead=())

    def obj(self, st, n):
        if isinstance(n, tuple):
            return ('o', 'R', n[1])
        return dict(self.g(st, 'obj')).get(n)

    def oname(self, st, p):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return None
        for n, b in self.g(st, 'obj'):
            if b == p[1]:
                return n
        return None

    def name_of(self, v):
        n = super().name_of(v)
        if n:
            return n
        b = v[1]
        if b[0] == 'o' and b[1] == 'S':
            return '%s+%d' % (b[2], v[2])
        if b == self.MACHINE:
            return 'machine+%d' % v[2]
        return None

    def fld(self, eng, st, n, k, d=0):
        b = self.obj(st, n)
        c = st.mem.get(b, {}).get(getattr(self.o(n), k) + d)
        return c[0] if c else None

    def held(self, eng, st, n):
        """references taken minus references dropped since the beginning"""
        v = self.fld(eng, st, n, 'cnt')
        if isinstance(v, tuple) and v[0] == 'p':
            return v[2]
        return None

    def vcall(self, eng, st, c):
        n = self.oname(st, c.args[0]) if c.args else None
        if n and c.args[0][2] == 0 and c.slot in (1, 2):
            # destructor of an object whose dynamic type is known
            fn = self.mod.vtable_fn('_ZTS%d%s' % (len(n), n), c.slot)
            if fn:
                return fn[1][1]
        return super().vcall(eng, st, c)

    # -- states are reference counted concretely ----------------------------------
    def h_addref(self, eng, st, c):
        if 'event_base' in c.dem:
            return LibRule.h_addref(self, eng, st, c)
        return None

    def h_release(self, eng, st, c):
        if 'event_base' in c.dem:
            return LibRule.h_release(self, eng, st, c)
        return None

    # -- use of destroyed objects ---------------------------------------------------
    def touch(self, eng, st, ptr, loc, what):
        if isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[1] in self.g(st, 'dead', ()):
            self.rep(eng, st, ('C06', 'C15'), '%s a state object that is already destroyed' % what, loc)

    def on_load(self, eng, st, ptr, val, size, loc):
        self.touch(eng, st, ptr, loc, 'reads')
        if isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[2] == 16 and self.past_end(eng, ptr[1]):
            return
        super().on_load(eng, st, ptr, val, size, loc)

    def on_store(self, eng, st, ptr, val, size, loc):
        self.touch(eng, st, ptr, loc, 'writes')
        super().on_store(eng, st, ptr, val, size, loc)

    # -- slots behind the last active innermost state hold no state --------------------
    def past_end(self, eng, b):
        n = 0
        while n < 8:
            if b[0] != 's':
                return False
            q = eng.desc.get(b)
            if not q:
                return False
            if q[0] == self.MACHINE:
                return self.lay.role_at(q[1])[0] == 'statesEnd'
            if q[1] != 0:
                return False
            b = q[0]
            n += 1
        return False

    def lazy(self, eng, st, b, o, ty, size):
        if o == 16 and size == 8 and self.past_end(eng, b):
            return 0
        return LibRule.lazy(self, eng, st, b, o, ty, size)

    handlers = [(R(r'\bintrusive_ptr_add_ref\b'), h_addref), (R(r'\bintrusive_ptr_release\b'), h_release)] + LibRule.handlers

    # -- entering states ------------------------------------------------------------------
    # entry order: list of (state, context); a state may be ('sh'|'dh', default)
    # (entered through history, not decided yet) or ('re', default) (resumed)
    def ord(self, st):
        return self.g(st, 'ord', self.order)

    def hname(self, x):
        return x[1] if isinstance(x, tuple) else x

    def pair(self, x):
        return (x, self.ch.st[self.hname(x)].ctx)

    def region_full(self, st, n, upto):
        """are all regions of n (entered by this operation) occupied"""
        if isinstance(n, tuple):
            return True
        kids = {self.ch.st[self.hname(x)].region for x, p in self.ord(st)[:upto] if p == n}
        return len(kids) == len(self.ch.st[n].regions)

    def expected_unstable(self, st, upto):
        for x, p in self.ord(st)[:upto]:
            if not self.region_full(st, x, upto):
                return x
        return None

    def settled(self, eng, st, upto, loc, what):
        """the first `upto` states of the entry order are completely registered"""
        for x, p in self.ord(st)[:upto]:
            if isinstance(x, tuple):
                continue
            b = self.obj(st, x)
            if b is None:
                continue
            self.registered(eng, st, x, p, loc, what)
            o = self.o(x)
            if not self.ch.st[x].regions:
                self.in_list(eng, st, x, loc, what)
            if b in self.g(st, 'dead', ()):
                self.rep(eng, st, ('C05', 'C06'), '%s was destroyed again before %s' % (x, what), loc)

    def registered(self, eng, st, x, p, loc, what):
        b = self.obj(st, x)
        want = ('p', self.obj(st, p), 0)
        v = self.fld(eng, st, x, 'ctx')
        if v != want:
            self.rep(eng, st, ('C24', 'C05'), 'the context of %s is not the enclosing %s before %s' % (x, p or 'machine', what), loc)
        if p:
            for r in range(len(self.ch.st[p].regions)):
                w = self.fld(eng, st, p, 'inner', 8 * r)
                if r == self.ch.st[x].region:
                    if w != ('p', b, 0):
                        self.rep(eng, st, ('C24', 'C06'), '%s is not registered for region %d of %s before %s' % (x, r, p, what), loc)
                elif w == ('p', b, 0):
                    self.rep(eng, st, ('C24', 'C06'), '%s is registered for the wrong region %d of %s' % (x, r, p), loc)
        else:
            w = self.get(eng, st, 'outermost')
            if w != ('p', b, 0):
                self.rep(eng, st, ('C24', 'C14'), 'the machine does not know its outermost state %s before %s' % (x, what), loc)

    def in_list(self, eng, st, x, loc, what):
        b = self.obj(st, x)
        nodes = [n for (y, n, k) in self.g(st, 'act', ()) if y == b]
        if not nodes and any(isinstance(y, tuple) for y, q in self.ord(st)[:self.g(st, 'k', 0)]):
            return
        if not nodes:
            self.rep(eng, st, ('C14', 'C02', 'C05'), '%s is not added to the active innermost states before %s' % (x, what), loc)
            return
        if len(nodes) > 1:
            self.rep(eng, st, ('C14', 'C02'), '%s is added to the active innermost states more than once' % x, loc)
        lp = self.fld(eng, st, x, 'listpos')
        if lp != nodes[-1]:
            self.rep(eng, st, ('C14', 'C06'), 'the list position stored in %s is not where it is in the list of active states' % x, loc)
        y, n, k = self.g(st, 'act')[-1]
        if y == b:
            e = self.get(eng, st, 'statesEnd')
            if k == 'reuse':
                nx = st.mem.get(n[1], {}).get(n[2])
                if e is None or not nx or nx[0] != e:
                    self.rep(eng, st, ('C14', 'C02'), 'the end of the active innermost states is not behind %s before %s' % (x, what), loc)
            elif e is None or e != k:
                self.rep(eng, st, ('C14', 'C02'), 'the end of the active innermost states does not enclose %s before %s' % (x, what), loc)

    def enter(self, eng, st, loc, who, this):
        self.count('states entered')
        k = self.g(st, 'k', 0)
        if k < len(self.ord(st)) and isinstance(self.ord(st)[k][0], tuple):
            self.use_default(eng, st, loc)
        if k >= len(self.ord(st)):
            self.rep(eng, st, ('C05', 'C07'), 'state %s is entered although the destination is complete' % who, loc)
            return
        x, p = self.ord(st)[k]
        if who != x:
            self.rep(eng, st, ('C05', 'C07'), 'state %s is entered where %s is due' % (who, x), loc)
            return
        if not (isinstance(this, tuple) and this[0] == 'p' and this[1][0] == 'h' and this[2] == 0):
            self.rep(eng, st, ('C05', 'C21'), 'state %s is not created in memory of its own' % who, loc)
            return
        obj = dict(self.g(st, 'obj'))
        obj[x] = this[1]
        self.s(st, obj=tuple(sorted(obj.items())), k=k + 1, cur=x)
        what = 'the entry of %s' % x
        if self.ch.st[x].kind == 'state':
            self.registered(eng, st, x, p, loc, 'its own constructor')
        self.settled(eng, st, k, loc, what)
        u = self.get(eng, st, 'unstable')
        if k == 0:
            want = self.u0
        else:
            want = self.expected_unstable(st, k)
        w = 0 if not want else ('p', self.obj(st, want), 0)
        if u is None or (u != w and eng.cmp(st, 'eq', u, w) is not True):
            self.rep(eng, st, 'C09', 'during %s the outermost unstable state is not %s' % (what, want or 'none'), loc)

    def ev_store(self, eng, st, loc, ptr, val, size):
        # a node behind the end of the active states is reused
        if ptr[2] == 16 and self.past_end(eng, ptr[1]) and isinstance(val, tuple):
            e = self.get(eng, st, 'statesEnd')
            if e is None or e != ('p', ptr[1], 0):
                self.rep(eng, st, ('C14', 'C02'), 'a list node other than the one behind the last active innermost state is used for a new state', loc)
            self.s(st, act=self.g(st, 'act', ()) + ((val[1], ('p', ptr[1], 0), 'reuse'),))

    def ev_insert(self, eng, st, loc, role, where, val, node):
        if role == 'states':
            e = self.get(eng, st, 'statesEnd')
            ok = where == 'end' or (where == 'back' and e == self.fptr('states'))
            if not ok:
                self.rep(eng, st, ('C14', 'C02'), 'a new innermost state is inserted elsewhere than at the end of the active ones', loc)
            if isinstance(val, tuple):
                self.s(st, act=self.g(st, 'act', ()) + ((val[1], node, e),))
        elif role in ('eventQueue', 'deferred') or role is None:
            self.rep(eng, st, ('C01', 'C04'), 'an event is queued by the library itself (%s)' % role, loc)

    def ev_remove(self, eng, st, loc, role, where, val, node):
        self.rep(eng, st, ('C01', 'C04', 'C14'), 'an element is removed from %s' % (role or 'a list'), loc)

    def ev(self, eng, st, kind, *d, loc=None):
        f = getattr(self, 'ev_' + kind, None)
        if f:
            f(eng, st, loc, *d)

    def on_delete(self, eng, st, p, c):
        if isinstance(p, tuple) and p[0] == 'p':
            n = self.oname(st, p)
            if p[1] in self.g(st, 'dead', ()):
                self.rep(eng, st, ('C06', 'C15'), 'a state object is freed twice', c.loc)
            if n is not None and n != '':
                self.s(st, dead=tuple(sorted(set(self.g(st, 'dead', ())) | {p[1]}, key=repr)))
                self.died(eng, st, n, c.loc)

    def died(self, eng, st, n, loc):
        p = self.ch.st[n].ctx
        b = self.obj(st, n)
        if p and self.obj(st, p) not in self.g(st, 'dead', ()):
            for r in range(len(self.ch.st[p].regions)):
                if self.fld(eng, st, p, 'inner', 8 * r) == ('p', b, 0):
                    self.rep(eng, st, ('C24', 'C06'), 'the destroyed %s stays registered with %s' % (n, p), loc)
        if not p and self.get(eng, st, 'outermost') == ('p', b, 0):
            self.rep(eng, st, ('C24', 'C10'), 'the destroyed %s stays registered as the outermost state' % n, loc)
        if self.get(eng, st, 'unstable') == ('p', b, 0):
            self.rep(eng, st, ('C09', 'C06'), 'the destroyed %s stays the outermost unstable state' % n, loc)

    def on_throw(self, eng, st, c):
        self.rep(eng, st, 'C25', 'the library throws an exception of its own', c.loc)

    def on_terminate(self, eng, st, c):
        self.rep(eng, st, 'C25', 'an exception may end the program', c.loc)

    def ownership(self, eng, st):
        """after an exception: every state whose constructor completed is
        either destroyed or still owned by something reachable"""
        if self.g(st, 'resumed'):
            return      # what the resumed entry function leaves behind is decided for that function
        dead = self.g(st, 'dead', ())
        alive = [(x, p) for x, p in self.ord(st)[:self.g(st, 'k', 0)] if not isinstance(x, tuple) and self.obj(st, x) is not None and self.obj(st, x) not in dead]
        u = self.get(eng, st, 'unstable')
        act = {y for y, n, k in self.g(st, 'act', ())} | set(self.g(st, 'old', ()))
        if self.g(st, 'cur') and alive and alive[-1][0] == self.g(st, 'cur') and self.g(st, 'inctor'):
            alive = alive[:-1]
        for x, p in alive:
            b = self.obj(st, x)
            if b in act or u == ('p', b, 0):
                continue
            if any(q == x for y, q in alive) or any(q == x for y, q in self.ord(st)[:self.g(st, 'k', 0)] if isinstance(y, tuple)):
                continue
            self.rep(eng, st, ('C08', 'C10'), 'state %s is neither destroyed nor owned by anything after an exception (leak)' % x)


    # -- history -----------------------------------------------------------------------------
    def keyname(self, eng, st, i, q):
        """(context, region) named by a history key"""
        t = None
        if isinstance(i, tuple) and i[0] == 'p' and i[1][0] == 'g':
            for n in self.ch.order:
                if re.search(r'(I|_ZTI)%d%s(E|$)' % (len(n), n), i[1][1]):
                    t = n
        return '%s/%s' % (t or eng.show(i), eng.show(q))

    def key(self, x):
        s = self.ch.st[x]
        return '%s/%d' % (s.ctx, s.region)

    def ev_maphit(self, eng, st, loc, mp, k):
        self.count('history lookups')
        self.s(st, look=(mp, k, 'hit'))

    def ev_mapmiss(self, eng, st, loc, mp, k):
        self.s(st, look=(mp, k, 'miss'))

    def looked(self, eng, st, item, loc):
        """value found for the history point `item`: None unknown, 0 or a pointer"""
        l = self.g(st, 'look')
        want = ({'sh': 'shallow', 'dh': 'deep'}[item[0]], self.key(item[1]))
        if l is None:
            self.rep(eng, st, 'C12', 'history is entered without looking it up', loc)
            return None
        if l[:2] != want:
            self.rep(eng, st, 'C12', 'the %s history of %s is looked up instead of the %s history of %s' % (l[0], l[1], want[0], want[1]), loc)
            return None
        if l[2] == 'miss':
            return 0
        for b, o in ((('o', 'mapnode', l[0], l[1]), 48), (('o', 'slot', l[0], l[1]), 0)):
            v = st.mem.get(b, {}).get(o)
            if v:
                return v[0]
        return None

    def use_default(self, eng, st, loc):
        k = self.g(st, 'k', 0)
        od = self.ord(st)
        item = od[k][0]
        v = self.looked(eng, st, item, loc)
        if v is None or eng.cmp(st, 'eq', v, 0) is not True:
            self.rep(eng, st, 'C12', 'the default state of %s is entered although history may be recorded' % item[1], loc)
        self.count('default entries')
        new = tuple(self.pair(n) for n in self.ch.deep(item[1]))
        self.s(st, ord=od[:k] + new + od[k + 1:], look=None)

    def resume(self, eng, st, c):
        """indirect call of a recorded entry function"""
        k = self.g(st, 'k', 0)
        od = self.ord(st)
        self.count('resumptions')
        if k >= len(od) or not isinstance(od[k][0], tuple):
            self.rep(eng, st, ('C12', 'C05'), 'recorded history is entered where no history is due', c.loc)
            return [(st, 'stop', None)]
        item, p = od[k]
        v = self.looked(eng, st, item, c.loc)
        if v is None or v != c.callee or eng.cmp(st, 'eq', v, 0) is not False:
            self.rep(eng, st, 'C12', 'something other than what was recorded for %s is entered' % self.key(item[1]), c.loc)
        self.settled(eng, st, k, c.loc, 'history of %s is resumed' % self.key(item[1]))
        a = c.args
        m = st.mem.get(a[0][1], {}).get(a[0][2]) if isinstance(a[0], tuple) and a[0][0] == 'p' else None
        if not m or m[0] != ('p', self.obj(st, p), 0):
            self.rep(eng, st, ('C12', 'C24'), 'recorded history is entered below another context than %s' % (p or 'the machine'), c.loc)
        if len(a) < 2 or a[1] != ('p', self.MACHINE, 0):
            self.rep(eng, st, ('C12', 'C24'), 'recorded history is entered in another machine', c.loc)
        u = self.get(eng, st, 'unstable')
        want = self.u0 if k == 0 else self.expected_unstable(st, k)
        w = 0 if not want else ('p', self.obj(st, want), 0)
        if u is None or (u != w and eng.cmp(st, 'eq', u, w) is not True):
            self.rep(eng, st, 'C09', 'when history of %s is resumed the outermost unstable state is not %s' % (item[1], want or 'none'), c.loc)
        thrown = st.copy()
        self.s(thrown, thrown=1, resumed=1)
        eng.event(thrown, 'resuming history throws', c.loc)
        self.havoc_roles(eng, thrown, keep=('trigger', 'fullExit', 'translator'))
        self.havoc_roles(eng, st, only=('eventQueue', 'shallow', 'deep', 'states', 'statesEnd'))
        eng.put(st, self.MACHINE, self.lay.off['common'], 0, 1)
        self.s(st, ord=od[:k] + ((('re', item[1]), p),) + od[k + 1:], k=k + 1, look=None, act=(), old=self.g(st, 'old', ()) + tuple(y for y, n, j in self.g(st, 'act', ())))
        x = self.expected_unstable(st, k + 1)
        o = self.o(p)
        eng.put(st, self.obj(st, p), o.inner + 8 * self.ch.st[item[1]].region, ('p', ('o', 'R', item[1]), 0), 8)
        # references: the resumed state holds its context, the machine the unstable state
        for n, d in ((p, 1), (self.oname(st, u) if isinstance(u, tuple) else None, -1), (x, 1)):
            if n:
                v = self.fld(eng, st, n, 'cnt')
                v = v + d if isinstance(v, int) else ('p', v[1], v[2] + d)
                eng.put(st, self.obj(st, n), self.o(n).cnt, v, 8)
        eng.put(st, self.MACHINE, self.lay.off['unstable'], 0 if not x else ('p', self.obj(st, x), 0), 8)
        return [(st, 'ret', None), (thrown, 'throw', ('exc', 'user'))]

    def unknown(self, eng, st, c):
        if c.name is None:
            return self.resume(eng, st, c)
        return None


class InitialRule(StateRule):
    """deep construction from the outermost state"""

    def __init__(self, mod, lay, ch, prop=None, top=None):
        super().__init__(mod, lay, ch, prop)
        t = top or ch.initial
        self.order = tuple(self.pair(n) for n in ch.deep(t))
        self.u0 = None
        self.mbase = ('arg', 0)
        self.MACHINE = ('arg', 0)

    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}
        self.s(st, obj=(('', self.MACHINE),), dead=())
        eng.put(st, self.MACHINE, self.lay.off['unstable'], 0, 8)
        eng.put(st, self.MACHINE, self.lay.off['outermost'], 0, 8)

    def ev_hook(self, eng, st, loc, k, who, args):
        if k == 'enter':
            self.enter(eng, st, loc, who, args[0])
        elif k in ('exit', 'action', 'unconsumed', 'react'):
            self.rep(eng, st, ('C05', 'C07'), 'user code (%s of %s) runs while states are entered' % (k, who), loc)

    def complete(self, eng, st, loc):
        od = self.ord(st)
        if self.g(st, 'k', 0) != len(od):
            self.rep(eng, st, ('C05', 'C07'), 'not all states are entered: %s is missing' % self.hname(od[self.g(st, 'k', 0)][0]), loc)
            return
        self.settled(eng, st, len(od), loc, 'the end of the entry')
        u = self.get(eng, st, 'unstable')
        if u != 0:
            self.rep(eng, st, 'C09', 'the machine is not stable after all states have been entered', loc)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        self.complete(eng, st, loc)

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        self.ownership(eng, st)


class TransitRule(StateRule):
    def __init__(self, mod, lay, ch, s, d, act, prop=None, relax=False, has_action=True):
        super().__init__(mod, lay, ch, prop)
        self.src = s; self.dst = d
        self.c = ch.common(s, d)
        self.top = ch.top(s, self.c)
        self.order = tuple(self.pair(n) for n in ch.entry(s, d))
        self.u0 = self.c
        self.act = act        # action context ('' machine) or None
        ctxs = [s] + ch.ctxs(s)
        uml = ctxs.index(self.c)
        if act is None or not relax or ctxs.index(act) >= uml:
            self.plan = [('exit', self.top)] + ([('action', act)] if act is not None else [])
        elif act == s and not ch.st[s].regions:
            self.plan = [('action', act), ('exit', self.top)]
        else:
            self.plan = [('exit', act), ('action', act), ('exit', self.top)]

    def setup(self, eng, st, args):
        self.place(eng, st, self.src, ('arg', 0))
        self.s(st, n=0)

    def step(self, eng, st, kind, loc):
        n = self.g(st, 'n')
        if n < len(self.plan) and self.plan[n][0] == kind:
            self.s(st, n=n + 1)
            return self.plan[n][1]
        if kind == 'exit':
            m = 'states are exited at the wrong time or more often than the transition from %s to %s asks for' % (self.src, self.dst)
        else:
            m = 'the action of the transition from %s to %s runs at the wrong time or more than once' % (self.src, self.dst)
        self.rep(eng, st, 'C07', m, loc)
        return None

    def vcall(self, eng, st, c):
        if c.method not in ('remove_from_state_list', 'exit_impl'):
            return super().vcall(eng, st, c)
        eng.event(st, 'virtual call %s(%s)' % (c.method, ', '.join(eng.show(a) for a in c.args)), c.loc)
        self.count('exit calls')
        t = self.step(eng, st, 'exit', c.loc)
        if t is None:
            return [(st, 'stop', None)]
        last = t == self.top and not any(k == 'exit' for k, x in self.plan[self.g(st, 'n'):])
        if self.g(st, 'k', 0):
            self.rep(eng, st, 'C07', 'states are exited after states have been entered', c.loc)
        if c.method == 'remove_from_state_list':
            if c.args[0] != ('p', self.obj(st, t), 0):
                self.rep(eng, st, ('C07', 'C06', 'C24'), 'the transition from %s to %s exits something else than %s' % (self.src, self.dst, t), c.loc)
            if c.args[1] != self.fptr('statesEnd') or c.args[2] != self.fptr('unstable'):
                self.rep(eng, st, ('C06', 'C09'), 'the machine\'s own state list end and unstable state are not passed to the exit', c.loc)
            full = c.args[3]
        else:
            u = self.get(eng, st, 'unstable')
            if u is None or eng.cmp(st, 'eq', u, 0) is not True:
                self.rep(eng, st, ('C06', 'C09'), 'the exit shortcut for a single innermost state is used although the machine may be unstable', c.loc)
            if c.args[2] != self.fptr('unstable'):
                self.rep(eng, st, ('C06', 'C09'), 'the machine\'s own unstable state is not passed to the exit', c.loc)
            self.single(eng, st, c)
            full = c.args[3]
        fv = self.get(eng, st, 'fullExit')
        if fv is None or full not in (fv, ('cmp', 'ne', fv, 0)):
            if not (fv is not None and eng.truth(st, full) is not None and eng.truth(st, full) == eng.truth(st, fv)):
                self.rep(eng, st, ('C06', 'C09', 'C11'), 'the exit does not use the machine\'s current full-exit mode', c.loc)
        hold = t if t == self.act and not last else self.c
        if hold and not (self.held(eng, st, hold) or 0) >= 1:
            self.rep(eng, st, ('C06', 'C07'), 'nothing keeps %s alive while its inner states are exited' % hold, c.loc)
        p = self.src
        chain = []
        while p != hold:
            chain.append(p)
            p = self.ch.st[p].ctx
        dead = set(self.g(st, 'dead', ()))
        un = self.get(eng, st, 'unstable')
        for x in chain:
            if self.obj(st, x) in dead:
                continue
            if self.held(eng, st, x) != (1 if un == ('p', self.obj(st, x), 0) else 0):
                self.rep(eng, st, ('C06', 'C07'), 'an extra reference keeps %s alive although it must be exited' % x, c.loc)
        self.havoc_roles(eng, st, keep=('trigger', 'fullExit', 'common', 'outermost', 'translator'))
        thrown = st.copy()
        for x in chain:
            dead.add(self.obj(st, x))
        self.s(st, dead=tuple(sorted(dead, key=repr)))
        inner = chain[-1] if chain else None
        u = 0
        if hold:
            h = self.held(eng, st, hold)
            b = self.obj(st, hold)
            sy = ('s', 'refcnt', hold, self.g(st, 'n'))
            # the reference of the unstable state pointer is counted as well
            eng.put(st, b, self.o(hold).cnt, ('p', sy, (h or 0) + 1), 8)
            eng.assume(st, ('cmp', 'sgt', ('p', sy, 0), -1), True)
            if inner:
                eng.put(st, b, self.o(hold).inner + 8 * self.ch.st[inner].region, 0, 8)
            u = ('p', b, 0)
        elif not self.c:
            eng.put(st, self.MACHINE, self.lay.off['outermost'], 0, 8)
        eng.put(st, self.MACHINE, self.lay.off['unstable'], u, 8)
        self.s(thrown, thrown=1)
        eng.event(thrown, '%s throws' % c.method, c.loc)
        return [(st, 'ret', None), (thrown, 'throw', ('exc', 'user'))]

    def single(self, eng, st, c):
        """the shortcut requires that the list of active states has one element"""
        slot = c.args[1]
        e = self.get(eng, st, 'statesEnd')
        b = self.get(eng, st, 'states', 0)
        if not (isinstance(slot, tuple) and slot[0] == 'p') or e is None or b is None or slot != ('p', e[1], e[2] + 16) or eng.cmp(st, 'eq', e, b) is not True:
            self.rep(eng, st, ('C06', 'C02'), 'the exit shortcut is used without a single active innermost state at the front of the list', c.loc)
            return
        v = st.mem.get(slot[1], {}).get(slot[2])
        if not v or v[0] != c.args[0]:
            self.rep(eng, st, 'C06', 'the exit shortcut does not exit the only active innermost state', c.loc)

    def ev_hook(self, eng, st, loc, k, who, args):
        if self.g(st, 'thrown'):
            if k != 'dtor':
                self.rep(eng, st, ('C08', 'C25'), 'user code (%s of %s) is called although an exception is pending' % (k, who), loc)
            return
        if k == 'enter':
            if self.g(st, 'n') != len(self.plan):
                self.rep(eng, st, 'C07', 'a state is entered before the states inside the common context are exited and the action has run', loc)
            self.enter(eng, st, loc, who, args[0])
        elif k == 'action':
            self.count('actions')
            t = self.step(eng, st, 'action', loc)
            if t is None:
                return
            if args[0] != ('p', self.obj(st, t), 0):
                self.rep(eng, st, ('C07', 'C24'), 'the transition action is not called on the %s object' % (t or 'machine'), loc)
            if args[1] != ('p', ('arg', 1), 0):
                self.rep(eng, st, 'C07', 'the transition action does not receive the triggering event', loc)
        elif k == 'dtor' or k == 'exit':
            if who in ('M',):
                return
            b = args[0]
            self.rep(eng, st, ('C06', 'C07'), 'state %s is destroyed during a transition other than by exiting the source' % who, loc)

    def ev_throw(self, eng, st, loc, what):
        self.s(st, thrown=1)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if self.g(st, 'thrown'):
            self.rep(eng, st, ('C25', 'C08'), 'an exception is swallowed', loc)
        if self.g(st, 'n') != len(self.plan):
            self.rep(eng, st, 'C07', 'the transition from %s to %s returns without %s' % (
                self.src, self.dst, 'exiting the source' if self.plan[self.g(st, 'n')][0] == 'exit' else 'running its action'), loc)
        od = self.ord(st)
        if self.g(st, 'k', 0) != len(od):
            self.rep(eng, st, ('C05', 'C07'), 'the transition from %s to %s does not enter %s' % (self.src, self.dst, self.hname(od[self.g(st, 'k', 0)][0])), loc)
        else:
            self.settled(eng, st, len(od), loc, 'the end of the transition')
            if self.get(eng, st, 'unstable') != 0:
                self.rep(eng, st, 'C09', 'the machine is not stable after the transition from %s to %s' % (self.src, self.dst), loc)
        if rv != 2:
            self.rep(eng, st, ('C07', 'C02'), 'a transition does not consume the event', loc)
        if self.c:
            h = self.held(eng, st, self.c)
            kids = sum(1 for x, p in od if p == self.c and not isinstance(x, tuple))
            if (h is None or h != kids) and not any(isinstance(x, tuple) for x, p in od):
                self.rep(eng, st, ('C06', 'C24'), 'the common context %s is referenced by %s instead of %s new owners after the transition' % (self.c, h, kids), loc)
        for x, p in od:
            b = self.obj(st, x)
            if b is None or isinstance(x, tuple):
                continue
            kids = sum(1 for y, q in od if q == x and not isinstance(y, tuple))
            if any(q == x and isinstance(y, tuple) for y, q in od):
                continue
            want = kids if kids else 1
            v = self.fld(eng, st, x, 'cnt')
            if v != want:
                self.rep(eng, st, ('C06', 'C24'), 'the reference count of the entered state %s is %s instead of %s' % (x, eng.show(v) if v is not None else '?', want), loc)

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        self.ownership(eng, st)


class ResumeRule(InitialRule):
    """what a recorded entry function enters: analysed with the function itself
    as the entry; arg 0 is a reference to the context pointer"""

    def __init__(self, mod, lay, ch, ctx, items, prop=None):
        super().__init__(mod, lay, ch, prop)
        self.order = tuple(self.pair(n) for n in items)
        self.ctx = ctx
        self.u0 = ctx
        self.MACHINE = ('arg', 1)

    def setup(self, eng, st, args):
        self.place(eng, st, self.ctx, ('o', 'S', self.ctx)) if self.ctx else self.s(st, obj=(('', self.MACHINE),), dead=())
        st.mem.setdefault(self.MACHINE, {})
        eng.put(st, ('arg', 0), 0, ('p', self.obj(st, self.ctx), 0), 8)
        # the context is the outermost unstable state: all its earlier regions are
        # complete, this one is the last missing one, or a transition goes on
        w = 0 if not self.ctx else ('p', self.obj(st, self.ctx), 0)
        eng.put(st, self.MACHINE, self.lay.off['unstable'], w, 8)
        eng.put(st, self.MACHINE, self.lay.off['common'], 1, 1)
        if self.ctx:
            b = self.obj(st, self.ctx)
            sy = ('s', 'refcnt', self.ctx, 9)
            eng.put(st, b, self.o(self.ctx).cnt, ('p', sy, 1), 8)
            eng.assume(st, ('cmp', 'sgt', ('p', sy, 0), 0), True)
            eng.put(st, b, self.o(self.ctx).inner + 8 * self.ch.st[self.order[0][0]].region, 0, 8)


class ClearRule(StateRule):
    """clear_shallow_history / clear_deep_history"""

    def __init__(self, mod, lay, ch, src, kind, key, prop=None, via_machine=False):
        super().__init__(mod, lay, ch, prop)
        self.src = src; self.kind = kind; self.want = key; self.via = via_machine
        if via_machine:
            self.MACHINE = ('arg', 0)

    def setup(self, eng, st, args):
        if self.via:
            st.mem[self.MACHINE] = {}
        else:
            self.place(eng, st, self.src, ('arg', 0))
        self.s(st, n=0)

    def touchmap(self, eng, st, loc, mp, k):
        if (mp, k) != (self.kind, self.want):
            self.rep(eng, st, 'C12', 'clearing the %s history of %s changes the %s history of %s' % (self.kind, self.want, mp, k), loc)

    def ev_mapstore(self, eng, st, loc, mp, k, v):
        self.touchmap(eng, st, loc, mp, k)
        self.count('cleared entries')
        if v != 0:
            self.rep(eng, st, 'C12', 'clearing history records a state', loc)
        self.s(st, n=1)

    def ev_maperase(self, eng, st, loc, mp, k):
        self.touchmap(eng, st, loc, mp, k)
        self.count('cleared entries')
        self.s(st, n=1)

    def ev_mapmiss(self, eng, st, loc, mp, k):
        if (mp, k) == (self.kind, self.want):
            self.s(st, n=1)

    def ev_mapclear(self, eng, st, loc, mp):
        self.rep(eng, st, 'C12', 'clearing one history clears all of them', loc)

    def ev_vcall(self, eng, st, loc, m, a):
        self.rep(eng, st, 'C12', 'clearing history calls %s' % m, loc)

    def ev_fstore(self, eng, st, loc, role, val):
        self.rep(eng, st, 'C12', 'clearing history changes %s' % role, loc)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if not self.g(st, 'n'):
            self.rep(eng, st, ('C12', 'C24'), 'the %s history of %s is not cleared' % (self.kind, self.want), loc)


class ExitRule(StateRule):
    """simple_state::exit_impl and everything it leads to.
    others: states of the chain with references from elsewhere;
    unst: '' none, a state of the chain, or 'X' an unrelated state"""

    def __init__(self, mod, lay, ch, src, others, unst, full, prop=None):
        super().__init__(mod, lay, ch, prop)
        self.src = src; self.others = others; self.unst = unst; self.full = full
        self.order = ()
        chain = [src] + [c for c in ch.ctxs(src) if c]
        self.exited = []
        for x in chain:
            if x in others:
                break
            self.exited.append(x)
        self.stored = {}

    def setup(self, eng, st, args):
        self.place(eng, st, self.src, ('arg', 0))
        x = self.src
        args[2] = self.fptr('unstable')
        args[3] = self.full
        slot = ('o', 'slotself')
        args[1] = ('p', slot, 0)
        eng.put(st, slot, 0, ('p', ('arg', 0), 0), 8)
        eng.put(st, self.MACHINE, self.lay.off['unstable'], 0 if not self.unst else ('p', ('o', 'X'), 0) if self.unst == 'X' else ('p', self.obj(st, self.unst), 0), 8)
        for n in [self.src] + [c for c in self.ch.ctxs(self.src) if c]:
            base = 1 + (1 if self.unst == n else 0)
            b = self.obj(st, n)
            if n in self.others:
                sy = ('s', 'refcnt', n, 1)
                eng.put(st, b, self.o(n).cnt, ('p', sy, base), 8)
                eng.assume(st, ('cmp', 'sgt', ('p', sy, 0), 0), True)
            else:
                eng.put(st, b, self.o(n).cnt, base, 8)
                if n != self.src:
                    # without further references all other regions are empty
                    for r in range(len(self.ch.st[n].regions)):
                        if st.mem[b].get(self.o(n).inner + 8 * r) is None:
                            eng.put(st, b, self.o(n).inner + 8 * r, 0, 8)
        if self.ch.st[self.src].regions:
            for r in range(len(self.ch.st[self.src].regions)):
                eng.put(st, ('arg', 0), self.o(self.src).inner + 8 * r, 0, 8)
        for f in ('n',):
            pass
        self.s(st, i=0, ph=0, rec=())

    def u_at(self, i):
        """outermost unstable state while the i-th state is exited"""
        u = self.unst
        for x in self.exited[:i + 1]:
            if u == '' or u == x:
                u = self.ch.st[x].ctx
        return u

    def check_u(self, eng, st, i, what, loc):
        w = self.u_at(i)
        want = 0 if not w else ('p', ('o', 'X'), 0) if w == 'X' else ('p', self.obj(st, w), 0)
        u = self.get(eng, st, 'unstable')
        if u != want:
            self.rep(eng, st, ('C09', 'C06'), 'when %s the outermost unstable state is not %s' % (what, w or 'none'), loc)

    def ev_hook(self, eng, st, loc, k, who, args):
        i = self.g(st, 'i')
        if k == 'exit':
            self.count('exit handlers')
            if not self.full:
                self.rep(eng, st, ('C06', 'C08', 'C09'), 'exit() of %s is called although no regular exit takes place' % who, loc)
            if self.g(st, 'thrown'):
                self.rep(eng, st, ('C06', 'C08'), 'exit() of %s is called while an exception is pending' % who, loc)
            if i >= len(self.exited) or self.exited[i] != who or self.g(st, 'ph') != 0:
                self.rep(eng, st, 'C06', 'exit() of %s is called at the wrong time, twice, or for a state that is not to be exited' % who, loc)
                return
            if args[0] != ('p', self.obj(st, who), 0):
                self.rep(eng, st, 'C06', 'exit() is called on another object', loc)
            self.check_u(eng, st, i, 'exit() of %s runs' % who, loc)
            for x in self.exited[:i]:
                if self.obj(st, x) not in self.g(st, 'dead'):
                    self.rep(eng, st, 'C06', 'exit() of %s runs before %s is destroyed' % (who, x), loc)
            self.s(st, ph=1)
        elif k == 'dtor':
            if who == 'M':
                return
            self.count('destructors')
            t = self.g(st, 'thrown')
            if i >= (len(self.exited) if not t else self.after_throw(t - 1)) or self.exited[i] != who:
                self.rep(eng, st, ('C06', 'C08') if t else 'C06', '%s is destroyed %s' % (who, 'out of order or unnecessarily after an exception' if t else 'although it is not to be exited'), loc)
                return
            if args[0] != ('p', self.obj(st, who), 0):
                self.rep(eng, st, 'C06', 'another object is destroyed', loc)
            if self.full and self.g(st, 'ph') != 1 and not t:
                self.rep(eng, st, 'C06', '%s is destroyed without calling exit()' % who, loc)
            if not t:
                self.check_u(eng, st, i, '%s is destroyed' % who, loc)
            self.history(eng, st, who, loc)
            self.rel_close(eng, st, loc)
            self.s(st, i=i + 1, ph=0, dst=self.g(st, 'dst', ()) + ((who, 0),))
        else:
            self.rep(eng, st, ('C06',), 'user code (%s of %s) is called by an exit' % (k, who), loc)

    def want_history(self, x):
        out = set()
        c = self.ch.st[x].ctx
        if c and self.ch.st[c].hist in ('s', 'f'):
            out.add(('shallow', '%s/%d' % (c, self.ch.st[x].region)))
        if not self.ch.st[x].regions:
            p = x
            while self.ch.st[p].ctx:
                c = self.ch.st[p].ctx
                if self.ch.st[c].hist in ('d', 'f'):
                    out.add(('deep', '%s/%d' % (c, self.ch.st[p].region)))
                p = c
        return out

    def history(self, eng, st, x, loc):
        want = self.want_history(x) if self.full and not self.g(st, 'thrown') else set()
        got = set(self.g(st, 'rec'))
        for k in want - got:
            self.rep(eng, st, 'C11', '%s history of %s is not recorded when %s is exited' % (k[0], k[1], x), loc)
        for k in got - want:
            self.rep(eng, st, 'C11', '%s history of %s is recorded when %s is %s' % (k[0], k[1], x, 'exited' if self.full else 'destroyed without a regular exit'), loc)
        self.s(st, rec=())

    def ev_mapstore(self, eng, st, loc, mp, k, v):
        self.count('history records')
        if self.g(st, 'ph') != 1 or self.g(st, 'thrown') or not self.full:
            self.rep(eng, st, 'C11', 'history is recorded other than after a successful exit handler', loc)
        i = self.g(st, 'i')
        x = self.exited[i] if i < len(self.exited) else None
        if isinstance(v, tuple) and v[0] == 'p' and v[1][0] == 'g' and v[2] == 0:
            self.stored.setdefault((mp, k, x), set()).add(v[1][1])
        else:
            self.rep(eng, st, 'C11', 'what is recorded as the %s history of %s is not an entry function' % (mp, k), loc)
        self.s(st, rec=tuple(sorted(set(self.g(st, 'rec')) | {(mp, k)})))

    def ev_mapclear(self, eng, st, loc, mp):
        self.rep(eng, st, ('C11', 'C12'), 'the %s history is cleared by an exit' % mp, loc)

    def ev_maperase(self, eng, st, loc, mp, k):
        self.rep(eng, st, ('C11', 'C12'), 'the %s history of %s is erased by an exit' % (mp, k), loc)

    # -- releasing deferred events: what the two queues consist of ---------------------
    # Q/D: what was in the event queue/the deferred queue before; Dp/Ds: a front/back part
    # of D (in the deferred queue: what is left there)
    def rel(self, st):
        return self.g(st, 'eq', ('Q',)), self.g(st, 'df', ('D',))

    def rel_drop(self, eng, st):
        # parts known to be empty need not be tracked
        eq, df = self.rel(st)
        gone = self.g(st, 'none', ())
        if self.empty(eng, st, 'eventQueue') is True:
            gone += eq
            eq = ()
        if self.empty(eng, st, 'deferred') is True:
            gone += df
            df = ()
        self.s(st, none=tuple(sorted(set(gone))))
        return eq, df

    def rel_set(self, eng, st, eq, df, loc):
        gone = self.g(st, 'none', ())
        if df == () and eq == tuple(x for x in ('D', 'Q') if x not in gone):
            self.s(st, none=())
            self.count('releases of deferred events')
            d = self.g(st, 'dst', ())
            if d:
                self.s(st, dst=d[:-1] + ((d[-1][0], d[-1][1] + 1),))
            eq, df = ('Q',), ('D',)
        self.s(st, eq=eq, df=df)

    def rel_close(self, eng, st, loc):
        """the destructor of a state has released what it wants to release"""
        eq, df = self.rel(st)
        if (eq, df) == (('Q',), ('D',)) and self.g(st, 'pend', None) is None:
            return
        if (eq, df) in ((('Ds', 'Q'), ('Dp',)), (('Dp', 'Q'), ('Ds',))) and self.empty(eng, st, 'deferred') is True:
            eq, df = ('D', 'Q'), ()
        else:
            eq, df = self.rel_drop(eng, st)
        if self.g(st, 'pend', None) is None:
            self.rel_set(eng, st, eq, df, loc)
        if self.g(st, 'pend', None) is not None or self.rel(st) != (('Q',), ('D',)):
            self.rel_bad(eng, st, loc)

    def rel_op(self, eng, st, loc):
        if not self.g(st, 'dst', ()):
            self.rep(eng, st, 'C04', 'deferred events are released before the exited state is destroyed', loc)
            return False
        return True

    def rel_bad(self, eng, st, loc):
        self.rep(eng, st, 'C04', 'deferred events are not moved as a whole and in order to the front of the event queue', loc)
        self.s(st, eq=('Q',), df=('D',), pend=None)

    def ev_transfer(self, eng, st, loc, dst, where, src, whole):
        two = ('eventQueue', 'deferred')
        if src not in two and dst not in two:
            return
        if not self.rel_op(eng, st, loc):
            return
        if src in two and dst in two and src != dst and where in ('front', 'back') and whole is True:
            eq, df = self.rel_drop(eng, st)
            a, b = (eq, df) if dst == 'eventQueue' else (df, eq)
            a = b + a if where == 'front' else a + b
            self.rel_set(eng, st, *((a, ()) if dst == 'eventQueue' else ((), a)), loc)
        elif (dst, where, src, whole) == ('eventQueue', 'front', 'deferred', 'last'):
            self.rel_move(eng, st, 'back', loc)
        elif (dst, src, whole) == ('eventQueue', 'deferred', 'first') and self.rel(st) == (('Q',), ('D',)) and where == 'front':
            self.s(st, qs1=self.trpos)
            self.rel_move(eng, st, 'front', loc)
        elif (src, whole) == ('deferred', 'first') and self.rel(st)[0][0] == 'Dp' and self.trpos is not None and self.trpos == self.g(st, 'qs', None):
            self.rel_move(eng, st, 'front', loc)
        else:
            self.rel_bad(eng, st, loc)

    def rel_move(self, eng, st, end, loc):
        """one deferred event is moved to the event queue"""
        eq, df = self.rel(st)
        if (eq, df) == (('Q',), ('D',)):
            n = (('Ds', 'Q'), ('Dp',)) if end == 'back' else (('Dp', 'Q'), ('Ds',))
            self.s(st, eq=n[0], df=n[1])
            if end == 'front':
                self.s(st, qs=self.g(st, 'qs1', None))
        elif (end, eq, df) not in (('back', ('Ds', 'Q'), ('Dp',)), ('front', ('Dp', 'Q'), ('Ds',))):
            self.rel_bad(eng, st, loc)
        self.s(st, pend=None, qs1=None)

    def ev_copyall(self, eng, st, loc, dst, where, src):
        eq, df = self.rel(st)
        if (dst, where, src, eq, df) == ('eventQueue', 'front', 'deferred', ('Q',), ('D',)) and self.rel_op(eng, st, loc):
            self.s(st, eq=('D', 'Q'))
        else:
            self.rel_bad(eng, st, loc)

    def ev_lclear(self, eng, st, loc, role):
        if role == 'deferred':
            eq, df = self.rel(st)
            if df == ('D',) and eq != ('D', 'Q'):
                self.rep(eng, st, 'C04', 'deferred events are discarded by an exit', loc)
            self.rel_set(eng, st, eq, (), loc)
        elif role == 'eventQueue':
            self.rep(eng, st, ('C01', 'C04'), 'queued events are discarded by an exit', loc)

    def ev_lswap(self, eng, st, loc, a, b):
        if {a, b} == {'eventQueue', 'deferred'} and self.rel_op(eng, st, loc):
            eq, df = self.rel_drop(eng, st)
            self.rel_set(eng, st, df, eq, loc)
        else:
            self.rep(eng, st, ('C04', 'C01'), 'an exit swaps %s and %s' % (a, b), loc)

    def ev_insert(self, eng, st, loc, role, where, val, node):
        pend = self.g(st, 'pend', None)
        pos = getattr(self, 'hookpos', None)
        eq, df = self.rel(st)
        if self.g(st, 'dst', ()) and isinstance(val, tuple):
            atq = where == 'front' and role == 'eventQueue' if eq[0] != 'Dp' else pos == self.g(st, 'qs', None) and pos is not None
            if atq:
                self.hookrole = 'eventQueue'
                if eq == ('Q',):
                    self.s(st, qs1=pos)
                if pend is None:
                    self.s(st, pend=('ins', val))
                    return
                if pend[:2] == ('rem', val):
                    self.rel_move(eng, st, pend[2], loc)
                    return
        super().ev_insert(eng, st, loc, role, where, val, node)

    def ev_remove(self, eng, st, loc, role, where, val, node):
        pend = self.g(st, 'pend', None)
        if self.g(st, 'dst', ()) and role == 'deferred' and where in ('front', 'back') and isinstance(val, tuple):
            if pend is None:
                self.s(st, pend=('rem', val, where))
                return
            if pend == ('ins', val):
                self.rel_move(eng, st, where, loc)
                return
        super().ev_remove(eng, st, loc, role, where, val, node)

    def ev_fstore(self, eng, st, loc, role, val):
        if role in ('fullExit', 'trigger', 'statesEnd', 'common'):
            self.rep(eng, st, ('C06', 'C09'), 'an exit changes %s of the machine' % role, loc)

    def died(self, eng, st, n, loc):
        super().died(eng, st, n, loc)
        d = self.g(st, 'dst', ())
        if not d or d[-1][0] != n:
            self.rep(eng, st, 'C06', '%s is freed without running its destructor' % n, loc)
            return
        self.rel_close(eng, st, loc)
        d = self.g(st, 'dst', ())
        self.defer_check(eng, st, n, d[-1][1], loc)
        self.s(st, dst=d[:-1])

    def defer_check(self, eng, st, n, rel, loc):
        b = self.obj(st, n)
        v = st.mem.get(b, {}).get(self.o(n).defer)
        t = eng.cmp(st, 'ne', v[0], 0) if v else None
        if t is None:
            self.rep(eng, st, 'C04', 'whether %s deferred events is not taken into account when it is destroyed' % n, loc)
        elif t and rel == 0 and self.empty(eng, st, 'deferred') is not True:
            self.rep(eng, st, 'C04', 'deferred events are not released when %s, which deferred events, is exited' % n, loc)
        elif not t and rel:
            self.rep(eng, st, 'C04', 'deferred events are released when %s, which did not defer events, is exited' % n, loc)
        if rel > 1:
            self.rep(eng, st, 'C04', 'deferred events are released more than once', loc)

    def after_throw(self, i):
        """how many states of the chain are gone when exit() of the i-th threw"""
        u = self.u_at(i)
        j = i + 1
        while j < len(self.exited) and self.exited[j] != u:
            j += 1
        return j

    def ev_throw(self, eng, st, loc, what):
        self.s(st, thrown=1 + self.g(st, 'i'))

    def finish(self, eng, st, n, loc):
        dead = self.g(st, 'dead')
        for x in self.exited[:n]:
            if self.obj(st, x) not in dead:
                self.rep(eng, st, 'C06', '%s is not exited although nothing keeps it active' % x, loc)
        chain = [self.src] + [c for c in self.ch.ctxs(self.src) if c]
        for x in chain[n:]:
            if self.obj(st, x) in dead:
                self.rep(eng, st, 'C06', '%s is destroyed although it must stay active' % x, loc)
        for x in chain[n:]:
            c = self.ch.st[x].ctx
            if self.obj(st, x) in dead:
                continue
            if c:
                if self.fld(eng, st, c, 'inner', 8 * self.ch.st[x].region) != ('p', self.obj(st, x), 0):
                    self.rep(eng, st, ('C24', 'C06'), '%s is no longer registered with %s' % (x, c), loc)
            if self.fld(eng, st, x, 'ctx') != ('p', self.obj(st, c), 0):
                self.rep(eng, st, ('C24', 'C06'), 'the context of %s changes when inner states are exited' % x, loc)
        t = self.g(st, 'thrown')
        if n:
            self.check_u(eng, st, t - 1 if t else n - 1, 'the exit is complete', loc)
        else:
            u = self.get(eng, st, 'unstable')
            w = 0 if not self.unst else ('p', ('o', 'X'), 0) if self.unst == 'X' else ('p', self.obj(st, self.unst), 0)
            if u != w:
                self.rep(eng, st, ('C09', 'C06'), 'the outermost unstable state changes although nothing is exited', loc)
        # balanced references of the first survivor
        if n < len(chain):
            x = chain[n]
            v = self.fld(eng, st, x, 'cnt')
            u = self.u_at(t - 1 if t else n - 1) if n else self.unst
            want = (1 if u == x else 0) + (0 if n or x == self.src else 1)
            if x in self.others and isinstance(v, tuple) and v[2] != want:
                self.rep(eng, st, ('C06', 'C24'), 'the references of %s are not balanced after the exit' % x, loc)
        s = st.mem.get(('o', 'slotself'), {}).get(0)
        if not s or s[0] != 0:
            self.rep(eng, st, ('C06', 'C02'), 'the pointer to the exited state is not cleared', loc)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if self.g(st, 'thrown'):
            self.rep(eng, st, ('C25', 'C08'), 'an exception thrown by exit() is swallowed', loc)
        self.finish(eng, st, len(self.exited), loc)

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        # the state whose exit() threw is destroyed (with contexts that nothing
        # else owns), nothing else is exited
        t = self.g(st, 'thrown')
        self.finish(eng, st, self.after_throw(t - 1) if t else len(self.exited), loc)

"""Rules for state queries (C14)."""
from engine import *
from lib import *
from machine_rules import Mon


class QueryRule(Mon):
    """kind: castp / castr / downp / downr / iter"""
    post_only = ()
    sticky_nodes = True

    def __init__(self, mod, lay, kind, target=None, prop=None, native=False):
        super().__init__(mod, lay)
        self.kind = kind; self.prop = prop; self.native = native
        self.target = target
        self.counts = {}
        self.down = kind.startswith('down')
        self.ref = kind.endswith('r') and kind != 'iter'
        self.idoff = None if native else field_offset(mod, r'^boost::statechart::detail::state_base<', 'idProvider_', r'id_provider')
        if self.down and not native and self.idoff is None:
            raise EngineError('the identity of states was not found')
        self.delta = 0
        if self.down:
            c = mod.class_by_name.get(target)
            if c is None:
                raise EngineError('class %s not found' % target)
            off = [o for nm, o, ty, sz, ow in mod.flat_members(c) if nm == 'count_']
            b = [o for c2 in mod.find_class(r'^boost::statechart::detail::state_base<')[:1] for nm, o, ty, sz, ow in mod.flat_members(c2) if nm == 'count_']
            if not off or not b:
                raise EngineError('state_base subobject of %s not found' % target)
            self.delta = off[0] - b[0]

    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}
        eng.load(st, self.fptr('states'), 'p', 8, None, ('first',))
        e = eng.load(st, self.fptr('statesEnd'), 'p', 8, None, ('end',))
        self.s(st, end=e, tested=0)

    # -- the walk ------------------------------------------------------------------
    def on_load(self, eng, st, ptr, val, size, loc):
        super().on_load(eng, st, ptr, val, size, loc)
        if size == 8 and isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[2] == 16 and self.is_node(eng, ptr[1]):
            self.visit(eng, st, ('p', ptr[1], 0), val, loc)

    def nxt(self, st):
        n = self.g(st, 'node')
        if n is None:
            return self.get(None, st, 'states', 0)
        c = st.mem.get(n[1], {}).get(n[2])
        return c[0] if c else None

    def visit(self, eng, st, node, val, loc):
        if node == self.g(st, 'node'):
            return
        self.count('innermost states visited')
        if self.g(st, 'node') is not None:
            self.chain_done(eng, st, loc)
        if self.nxt(st) != node:
            self.rep(eng, st, 'C14', 'the active innermost states are not visited one after the other', loc)
        if eng.cmp(st, 'ne', node, self.g(st, 'end')) is not True:
            self.rep(eng, st, 'C14', 'a state is taken from the list although it may be behind the last active innermost state', loc)
        eng.event(st, 'visit innermost state %s' % eng.show(val), loc)
        self.s(st, node=node, cur=val, tested=0, hooked=0, elem=val)

    def chain_done(self, eng, st, loc):
        if self.kind == 'iter':
            if self.g(st, 'hooked') != 1:
                self.rep(eng, st, 'C14', 'an active innermost state is enumerated %s times' % self.g(st, 'hooked'), loc)
            return
        cur = self.g(st, 'cur')
        if eng.cmp(st, 'eq', cur, 0) is not True:
            self.rep(eng, st, 'C14', 'the search goes on although not all outer states of an innermost state were tested', loc)

    def test(self, eng, st, x, loc):
        cur = self.g(st, 'cur')
        if cur is None or x != cur:
            self.rep(eng, st, 'C14', 'a state that is not the next one of the search is tested', loc)
        self.count('states tested')

    def negative(self, eng, st, x):
        """is x known not to be what is searched for"""
        if not self.down or self.native:
            return bool(self.g(st, 'tested'))
        c = st.mem.get(x[1], {}).get(x[2] + self.idoff)
        return c is not None and eng.cmp(st, 'eq', c[0], self.tid()) is False

    def tid(self):
        for g in self.mod.globals.values():
            if g['dem'] == 'boost::statechart::detail::id_holder<%s>::idProvider_' % self.target:
                return ('p', ('g', g['name']), 0)
        raise EngineError('identity of %s not found' % self.target)

    def vcall(self, eng, st, c):
        if c.method == 'outer_state_ptr':
            x = c.args[0]
            self.count('steps outwards')
            if x != self.g(st, 'cur'):
                self.rep(eng, st, 'C14', 'the search does not go on with the direct outer state', c.loc)
            elif self.kind != 'iter' and not self.negative(eng, st, x):
                self.rep(eng, st, 'C14', 'the search goes on although the state was not tested or matches', c.loc)
            v = eng.fresh(st, 'outer', st.frames[-1].ctx, c.id)
            self.s(st, cur=v, tested=0)
            return [(st, 'ret', v)]
        self.rep(eng, st, 'C14', 'a state query calls %s' % c.method, c.loc)
        return [(st, 'ret', None)]

    def h_dyncast(self, eng, st, c):
        x = c.args[0]
        if self.down:
            return None     # assertion in polymorphic_downcast
        self.test(eng, st, x, c.loc)
        want = c.args[2]
        t = self.mod.globals.get(want[1][1], {}).get('dem', '') if isinstance(want, tuple) and want[0] == 'p' else ''
        if t != 'typeinfo for ' + self.target:
            self.rep(eng, st, 'C14', 'a state is tested against %s instead of %s' % (t, self.target), c.loc)
        s2 = st.copy()
        v = eng.fresh(st, 'cast', st.frames[-1].ctx, c.id)
        eng.assume(st, ('cmp', 'ne', v, 0), True)
        self.s(st, hit=v)
        eng.event(st, 'the state is a %s' % self.target, c.loc)
        self.s(s2, tested=1)
        return [(st, 'ret', v), (s2, 'ret', 0)]

    def dyntype(self, eng, v):
        """v is the type_info of an object found through its vtable: the vtable"""
        if isinstance(v, tuple) and v[0] == 'p' and is_sym(v[1]):
            q = eng.desc.get(v[1])
            if q and q[1] == -8:
                return ('p', q[0], 0)
            if q and q[0][0] == 'vf' and q[0][2] + q[1] == -8:
                return ('p', q[0][1], 0)
        return None

    def tirel(self, eng, st, c, yes):
        a, b = c.args[0], c.args[1]
        if isinstance(a, tuple) and a[0] == 'p' and a[1][0] == 'g':
            a, b = b, a
        dt = self.dyntype(eng, a)
        if dt is None or not (isinstance(b, tuple) and b[0] == 'p' and b[1][0] == 'g'):
            return None
        cur = self.g(st, 'cur')
        vp = st.mem.get(cur[1], {}).get(cur[2]) if isinstance(cur, tuple) and cur[0] == 'p' else None
        if vp is None or vp[0] != dt:
            self.rep(eng, st, 'C14', 'a state that is not the next one of the search is tested', c.loc)
        self.count('states tested')
        t = self.mod.globals.get(b[1][1], {}).get('dem', '')
        if t != 'typeinfo for ' + self.target:
            self.rep(eng, st, 'C14', 'a state is tested against %s instead of %s' % (t, self.target), c.loc)
        s2 = st.copy()
        self.s(st, hit=cur)
        self.s(s2, tested=1)
        return [(st, 'ret', yes), (s2, 'ret', 1 - yes)]

    def h_tieq(self, eng, st, c):
        return self.tirel(eng, st, c, 1)

    def h_tine(self, eng, st, c):
        return self.tirel(eng, st, c, 0)

    def h_badcast(self, eng, st, c):
        return [(st, 'throw', ('exc', 'type', '_ZTISt8bad_cast'))]

    def h_badcast_ctor(self, eng, st, c):
        return [(st, 'ret', None)]

    handlers = [
        (R(r'^__dynamic_cast$'), h_dyncast),
        (R(r'^__cxa_bad_cast'), h_badcast),
        (R(r'^std::bad_cast::~?bad_cast\('), h_badcast_ctor),
        (R(r'\bstd::type_info::operator==\('), h_tieq),
        (R(r'\bstd::type_info::operator!=\('), h_tine),
    ] + LibRule.handlers

    def exhausted(self, eng, st, loc, what):
        if self.g(st, 'node') is not None:
            self.chain_done(eng, st, loc)
        n = self.nxt(st)
        if n is None or eng.cmp(st, 'eq', n, self.g(st, 'end')) is not True:
            self.rep(eng, st, 'C14', '%s although not all active states were tested' % what, loc)

    def ev(self, eng, st, kind, *d, loc=None):
        if kind == 'hook':
            self.count('states enumerated')
            if self.kind == 'iter':
                x = d[2][0]
                if x != self.g(st, 'elem'):
                    self.rep(eng, st, 'C14', 'something other than the innermost state is enumerated', loc)
                self.s(st, hooked=min(3, (self.g(st, 'hooked') or 0) + 1))
        elif kind in ('insert', 'remove', 'transfer', 'lswap', 'lclear', 'mapclear', 'mapstore', 'fstore', 'maperase'):
            self.rep(eng, st, 'C14', 'a state query changes the machine (%s %s)' % (kind, d[0]), loc)

    def havoc_roles(self, eng, st, keep=(), only=None):
        pass

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if self.kind == 'iter':
            self.exhausted(eng, st, loc, 'the enumeration ends')
            return
        if eng.cmp(st, 'eq', rv, 0) is True:
            if self.ref:
                self.rep(eng, st, 'C14', 'a null reference is returned', loc)
            self.count('not found')
            self.exhausted(eng, st, loc, 'the query yields null')
            return
        self.count('found')
        if self.down:
            cur = self.g(st, 'cur')
            if not (isinstance(rv, tuple) and rv[0] == 'p' and isinstance(cur, tuple) and rv[1] == cur[1] and rv[2] == cur[2] - self.delta):
                self.rep(eng, st, 'C14', 'the query yields something other than the tested state', loc)
                return
            if self.native:
                ok = self.g(st, 'hit') == cur
            else:
                c = st.mem.get(cur[1], {}).get(cur[2] + self.idoff)
                ok = c is not None and eng.cmp(st, 'eq', c[0], self.tid()) is True
            if not ok:
                self.rep(eng, st, 'C14', 'the query yields a state although its type is not known to be %s' % self.target, loc)
        elif self.g(st, 'hit') is None or rv != self.g(st, 'hit'):
            self.rep(eng, st, 'C14', 'the query yields something other than a state that is a %s' % self.target, loc)

    def on_throw(self, eng, st, c):
        t = c.args[1][1][1] if isinstance(c.args[1], tuple) and c.args[1][0] == 'p' else '?'
        if not self.ref or t != '_ZTISt8bad_cast':
            self.rep(eng, st, ('C14', 'C25'), 'a state query throws %s' % t, c.loc)
        self.exhausted(eng, st, c.loc, 'the query throws bad_cast')
        self.count('bad_cast')

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        if self.kind == 'iter' and st.exc == ('exc', 'user'):
            return
        if st.exc != ('exc', 'type', '_ZTISt8bad_cast'):
            self.rep(eng, st, 'C14', 'a state query lets an exception escape', loc)
        elif not self.ref:
            self.rep(eng, st, 'C14', 'a state query for a pointer throws bad_cast', loc)
        elif self.counts.get('bad_cast', 0) == 0:
            self.exhausted(eng, st, loc, 'the query throws bad_cast')


class TerminatedRule(Mon):
    """terminated() of a machine with / without active states"""

    def __init__(self, mod, lay, active, prop=None):
        super().__init__(mod, lay)
        self.prop = prop; self.active = active; self.counts = {}

    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}
        o = eng.load(st, self.fptr('outermost'), 'p', 8, None, ('outermost',))
        f = eng.load(st, self.fptr('states'), 'p', 8, None, ('first',))
        e = eng.load(st, self.fptr('statesEnd'), 'p', 8, None, ('end',))
        eng.assume(st, ('cmp', 'ne' if self.active else 'eq', o, 0), True)
        if self.active:
            eng.assume(st, ('cmp', 'ne', f, e), True)
            eng.assume(st, ('cmp', 'ne', f, self.fptr('states')), True)
        else:
            eng.equate(st, e, f)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        v = eng.truth(st, rv)
        if v is None or bool(v) == self.active:
            self.rep(eng, st, ('C14', 'C10'), 'terminated() yields %s for a machine %s active states' % ('true' if v else 'false' if v is not None else 'anything', 'with' if self.active else 'without'), loc)

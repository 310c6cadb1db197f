"""What a state reaches through its context (C24)."""
from engine import *
from lib import *
from machine_rules import Mon, PostRule, widened
from state_rules import StateRule
from query_rules import QueryRule


class AccessRule(StateRule):
    """context<>(), outermost_context(), outer_state_ptr() and the like"""

    def __init__(self, mod, lay, ch, src, what, ctx, iface, prop=None):
        super().__init__(mod, lay, ch, prop)
        self.src = src; self.what = what; self.c = ctx; self.iface = iface
        self.order = ()

    def member(self, cls, name):
        c = self.mod.class_by_name.get(cls)
        for nm, off, ty, sz, ow in self.mod.flat_members(c) if c else ():
            if nm == name:
                return off
        raise EngineError('%s::%s not found' % (cls, name))

    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}
        T = eng.load(st, self.fptr('trigger'), 'p', 8, None, ('trig',))
        self.place(eng, st, self.src, ('arg', 0))
        if self.what in ('begin', 'end'):
            args[1] = ('p', self.MACHINE, 0)
        if self.what == 'trigger':
            self.want = T
        elif self.what == 'machine':
            self.want = ('p', self.MACHINE, 0)
        elif self.what == 'context':
            T = self.c or 'M'
            self.want = ('p', self.obj(st, self.c), self.member(T, 'in_' + T) if self.iface else 0)
        elif self.what == 'outer':
            p = self.ch.st[self.src].ctx
            b = [o for c2 in self.mod.find_class(r'^boost::statechart::detail::state_base<')[:1] for nm, o, ty, sz, ow in self.mod.flat_members(c2) if nm == 'count_']
            self.want = ('p', self.obj(st, p), self.o(p).cnt - b[0]) if p else 0
        else:
            self.want = 1
        self.s(st, want=self.want)

    def ev(self, eng, st, kind, *d, loc=None):
        if kind in ('insert', 'remove', 'transfer', 'lswap', 'lclear', 'mapclear', 'mapstore', 'fstore', 'maperase', 'hook', 'vcall'):
            self.rep(eng, st, 'C24', 'asking a state for its %s has an effect (%s %s)' % (self.what, kind, d[0]), loc)

    def on_return(self, eng, st, rv, loc):
        self.count('accesses decided')
        w = self.g(st, 'want', 0)
        if rv == w or eng.truth(st, rv) is True and w == 1 or eng.cmp(st, 'eq', rv, w) is True:
            return
        self.rep(eng, st, 'C24', {'context': 'context< %s >() of %s is another object (%%s)' % (self.c or 'the machine', self.src), 'machine': 'outermost_context() of %s is not its machine (%%s)' % self.src,
                                  'outer': 'the outer state of %s is not its direct context (%%s)' % self.src, 'trigger': 'triggering_event() of %s is not what its machine reports (%%s)' % self.src}.get(
                                      self.what, 'the %s of the states seen from %s is not that of its machine (%%s)' % (self.what, self.src)) % eng.show(rv), loc)

    def on_unwind(self, eng, st, loc):
        self.rep(eng, st, ('C24', 'C25'), 'asking a state for its %s fails with an exception' % self.what, loc)


class StatePostRule(PostRule):
    """post_event() of a state acts on its machine"""
    MACHINE = ('o', 'M')
    MBASE = ('o', 'M')

    def __init__(self, mod, lay, ch, src, prop=None, deref=False):
        super().__init__(mod, lay, None, 1, deref)
        self.ch = ch; self.src = src; self.offs = {}
        self.out = prop

    o = StateRule.o

    def rep(self, eng, st, props, msg, loc=None):
        if self.out in ('C24', None) or self.out in widened(props, msg):
            eng.report(st, self.out or 'C24', 'through a state: ' + msg, loc)

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        StateRule.place(self, eng, st, self.src, ('arg', 0))


class StateQueryRule(QueryRule):
    """state queries of a state act on its machine"""
    MACHINE = ('o', 'M')
    MBASE = ('o', 'M')

    def __init__(self, mod, lay, ch, src, kind, target, prop=None, native=False):
        super().__init__(mod, lay, kind, target, None, native)
        self.ch = ch; self.src = src; self.offs = {}
        self.out = prop

    o = StateRule.o

    def rep(self, eng, st, props, msg, loc=None):
        if self.out in ('C24', None) or self.out in widened(props, msg):
            eng.report(st, self.out or 'C24', 'asked through a state: ' + msg, loc)

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        StateRule.place(self, eng, st, self.src, ('arg', 0))

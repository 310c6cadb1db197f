"""Rules for the removal of states from the state list and for terminate()."""
import itertools
from engine import *
from lib import *
from state_rules import *


class RemoveRule(StateRule):
    """remove_from_state_list of a state with inner states; `full`: which
    regions are occupied"""

    def __init__(self, mod, lay, ch, src, occ, prop=None):
        super().__init__(mod, lay, ch, prop)
        self.src = src; self.occ = occ; self.order = ()

    def setup(self, eng, st, args):
        self.place(eng, st, self.src, ('arg', 0))
        o = self.o(self.src)
        for r, f in enumerate(self.occ):
            eng.put(st, ('arg', 0), o.inner + 8 * r, ('p', ('o', 'I', r), 0) if f else 0, 8)
        # an unstable state is referenced by the machine
        x = ('p', ('arg', 0), 0) if not any(self.occ) else ('p', ('o', 'X'), 0)
        eng.put(st, self.MACHINE, self.lay.off['unstable'], x, 8)
        if not any(self.occ):
            eng.put(st, ('arg', 0), o.cnt, 1, 8)
        args[1] = self.fptr('statesEnd')
        args[2] = self.fptr('unstable')
        self.full = eng.fresh(st, 'fullarg', 0)
        args[3] = self.full
        self.s(st, left=tuple(r for r, f in enumerate(self.occ) if f), n=0)

    def vcall(self, eng, st, c):
        if c.method not in ('remove_from_state_list', 'exit_impl'):
            return super().vcall(eng, st, c)
        eng.event(st, 'virtual call %s(%s)' % (c.method, ', '.join(eng.show(a) for a in c.args)), c.loc)
        self.count('inner exits' if c.method[0] == 'r' else 'own exits')
        left = self.g(st, 'left')
        if self.g(st, 'thrown'):
            self.rep(eng, st, ('C06', 'C08'), 'states are exited after an exception', c.loc)
        if c.args[3] != self.full and eng.truth(st, c.args[3]) != eng.truth(st, self.full):
            self.rep(eng, st, ('C06', 'C11'), 'the exit mode is not passed on unchanged to inner states', c.loc)
        if c.args[2] != self.fptr('unstable'):
            self.rep(eng, st, ('C06', 'C09'), 'the outermost unstable state pointer is not passed on', c.loc)
        if c.method == 'exit_impl':
            if any(self.occ):
                self.rep(eng, st, 'C06', 'a state is exited directly although it has active inner states', c.loc)
                return [(st, 'stop', None)]
            if c.args[0] != ('p', ('arg', 0), 0) or self.g(st, 'n'):
                self.rep(eng, st, 'C06', 'something else than the state itself is exited', c.loc)
            s = st.mem.get(c.args[1][1], {}).get(c.args[1][2]) if isinstance(c.args[1], tuple) and c.args[1][0] == 'p' else None
            if not s or s[0] != ('p', ('arg', 0), 0):
                self.rep(eng, st, 'C06', 'the exit is not passed an owning pointer to the state', c.loc)
            v = self.fld(eng, st, self.src, 'cnt')
            if c.args[1] == self.fptr('unstable') or v != 2:
                self.rep(eng, st, 'C06', 'the reference count with which an unstable state is exited (%s) is not that of the machine\'s pointer and the local one' % eng.show(v), c.loc)
            self.s(st, n=1)
            s2 = st.copy()
            for q in (st, s2):
                if s:
                    eng.put(q, c.args[1][1], c.args[1][2], 0, 8)
                eng.put(q, self.MACHINE, self.lay.off['unstable'], TOP, 8)
                q.mem[self.MACHINE].pop(self.lay.off['unstable'], None)
                self.s(q, dead=(('arg', 0),))
            self.s(s2, thrown=1)
            return [(st, 'ret', None), (s2, 'throw', ('exc', 'user'))]
        if c.args[1] != self.fptr('statesEnd'):
            self.rep(eng, st, 'C06', 'the end of the active states is not passed on', c.loc)
        if not left or c.args[0] != ('p', ('o', 'I', left[-1]), 0):
            self.rep(eng, st, 'C06', 'inner states are not exited from the highest to the lowest region, each exactly once', c.loc)
            return [(st, 'stop', None)]
        r = left[-1]
        left = left[:-1]
        self.s(st, left=left, n=self.g(st, 'n') + 1)
        o = self.o(self.src)
        self.havoc_roles(eng, st, keep=('trigger', 'fullExit', 'common'))
        s2 = st.copy()
        for q in (st, s2):
            eng.put(q, ('arg', 0), o.inner + 8 * r, 0, 8)
            if not left:
                self.s(q, dead=(('arg', 0),))      # exited together with its last inner state
        self.s(s2, thrown=1)
        return [(st, 'ret', None), (s2, 'throw', ('exc', 'user'))]

    def ev_hook(self, eng, st, loc, k, who, args):
        self.rep(eng, st, 'C06', 'user code (%s of %s) is called by the removal itself' % (k, who), loc)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if self.g(st, 'left'):
            self.rep(eng, st, 'C06', 'region %d is not exited' % self.g(st, 'left')[-1], loc)
        if not any(self.occ) and not self.g(st, 'n'):
            self.rep(eng, st, 'C06', 'a state without active inner states is not exited', loc)
        if self.g(st, 'thrown'):
            self.rep(eng, st, ('C25', 'C08'), 'an exception is swallowed', loc)

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')


class LeafRemoveRule(StateRule):
    """remove_from_state_list of an innermost state; `last`: it already is the
    last active one"""

    def __init__(self, mod, lay, ch, src, last, prop=None):
        super().__init__(mod, lay, ch, prop)
        self.src = src; self.last = last; self.order = ()

    def setup(self, eng, st, args):
        self.place(eng, st, self.src, ('arg', 0))
        o = self.o(self.src)
        E, L = ('o', 'nodeE'), ('o', 'nodeL')
        P = L if self.last else ('o', 'nodeP')
        self.E, self.L, self.P, self.Y = [('p', x, 0) for x in (E, L, P, ('o', 'Y'))]
        eng.put(st, self.MACHINE, self.lay.off['statesEnd'], self.E, 8)
        eng.put(st, E, 8, self.L, 8)
        eng.put(st, L, 0, self.E, 8)
        eng.put(st, P, 16, ('p', ('arg', 0), 0), 8)
        if not self.last:
            eng.put(st, L, 16, self.Y, 8)
            eng.put(st, ('o', 'Y'), o.listpos, self.L, 8)
            eng.put(st, ('o', 'Y'), o.cnt, 1, 8)
        eng.put(st, ('arg', 0), o.listpos, self.P, 8)
        args[1] = self.fptr('statesEnd')
        args[2] = self.fptr('unstable')
        self.full = eng.fresh(st, 'fullarg', 0)
        args[3] = self.full
        self.s(st, n=0)

    def cell(self, st, n, off):
        v = st.mem.get(n[1], {}).get(off)
        return v[0] if v else None

    def shape(self, eng, st, loc, what):
        o = self.o(self.src)
        if self.get(eng, st, 'statesEnd') != self.L:
            self.rep(eng, st, ('C06', 'C14', 'C02'), 'the active innermost states do not end before the exited one %s' % what, loc)
        if not self.last:
            if self.cell(st, self.P, 16) != self.Y:
                self.rep(eng, st, ('C14', 'C02', 'C06'), 'another active innermost state gets lost %s' % what, loc)
            if self.cell(st, self.Y, o.listpos) != self.P:
                self.rep(eng, st, ('C06', 'C14'), 'the list position stored in a moved innermost state is wrong %s' % what, loc)

    def vcall(self, eng, st, c):
        if c.method != 'exit_impl':
            return super().vcall(eng, st, c)
        eng.event(st, 'virtual call exit_impl(%s)' % ', '.join(eng.show(a) for a in c.args), c.loc)
        self.count('own exits')
        me = ('p', ('arg', 0), 0)
        if c.args[0] != me or self.g(st, 'n'):
            self.rep(eng, st, 'C06', 'something else than the state itself is exited, or it is exited twice', c.loc)
            return [(st, 'stop', None)]
        if c.args[1] != ('p', self.L[1], 16) or self.cell(st, self.L, 16) != me:
            self.rep(eng, st, ('C06', 'C14', 'C02'), 'the exited state is not the one just behind the last active innermost state', c.loc)
        if c.args[2] != self.fptr('unstable'):
            self.rep(eng, st, ('C06', 'C09'), 'the outermost unstable state pointer is not passed on', c.loc)
        if c.args[3] != self.full and eng.truth(st, c.args[3]) != eng.truth(st, self.full):
            self.rep(eng, st, ('C06', 'C11'), 'the exit mode is not passed on unchanged', c.loc)
        self.shape(eng, st, c.loc, 'when it is exited')
        self.s(st, n=1)
        s2 = st.copy()
        for q in (st, s2):
            eng.put(q, self.L[1], 16, 0, 8)
            self.s(q, dead=(('arg', 0),))
        self.s(s2, thrown=1)
        return [(st, 'ret', None), (s2, 'throw', ('exc', 'user'))]

    def ev_hook(self, eng, st, loc, k, who, args):
        self.rep(eng, st, 'C06', 'user code (%s of %s) is called by the removal itself' % (k, who), loc)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if not self.g(st, 'n'):
            self.rep(eng, st, 'C06', 'the innermost state is not exited', loc)
        self.shape(eng, st, loc, 'after it was exited')
        if self.g(st, 'thrown'):
            self.rep(eng, st, ('C25', 'C08'), 'an exception is swallowed', loc)

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        self.shape(eng, st, loc, 'after its exit threw')


class TerminateRule(TransitRule):
    """the terminate() reaction of a state"""

    def __init__(self, mod, lay, ch, src, prop=None):
        StateRule.__init__(self, mod, lay, ch, prop)
        self.src = self.dst = src
        self.c = ''
        self.top = src
        self.act = None
        self.order = ()
        self.plan = [('exit', src)]

    def setup(self, eng, st, args):
        self.place(eng, st, self.src, ('arg', 0))
        self.s(st, n=0)

    def vcall(self, eng, st, c):
        if c.method in ('remove_from_state_list', 'exit_impl'):
            v = self.get(eng, st, 'common')
            if v is None or eng.cmp(st, 'eq', v, 0) is not True:
                self.rep(eng, st, ('C09', 'C14'), 'while a state is terminated the next entered state would be taken for the outermost one of a transition', c.loc)
        r = super().vcall(eng, st, c)
        if c.method in ('remove_from_state_list', 'exit_impl') and r:
            for s, k, v in r:
                if k == 'stop':
                    continue
                s.mem[self.MACHINE].pop(self.lay.off['outermost'], None)
                s.mem[self.MACHINE].pop(self.lay.off['unstable'], None)
                u = eng.fresh(s, 'unst', 0)
                eng.put(s, self.MACHINE, self.lay.off['unstable'], u, 8)
                self.s(s, un=u)
        return r

    def ev_hook(self, eng, st, loc, k, who, args):
        self.rep(eng, st, ('C06', 'C07'), 'user code (%s of %s) is called by terminate() itself' % (k, who), loc)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if self.g(st, 'thrown'):
            self.rep(eng, st, ('C25', 'C08'), 'an exception is swallowed', loc)
        if not self.g(st, 'n'):
            self.rep(eng, st, ('C03', 'C06'), 'terminate() does not exit the state', loc)
        if self.get(eng, st, 'unstable') != 0:
            self.rep(eng, st, 'C09', 'the machine is not stable after a state has been terminated', loc)
        v = self.get(eng, st, 'common')
        if v is None or eng.cmp(st, 'eq', v, 0) is not True:
            self.rep(eng, st, ('C09', 'C14'), 'after terminate() the next entered state would be taken for the outermost one of a transition', loc)
        if rv != 2:
            self.rep(eng, st, ('C03', 'C02'), 'terminate() does not consume the event', loc)

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        u = self.g(st, 'un')
        if u is not None and self.get(eng, st, 'unstable') != u:
            self.rep(eng, st, 'C09', 'the outermost unstable state is forgotten when exiting a state throws', loc)


class ReactRule(TransitRule):
    """one state's react_impl for one event type against its declared list"""

    def __init__(self, mod, lay, ch, src, ev, prop=None):
        StateRule.__init__(self, mod, lay, ch, prop)
        self.src = src; self.evt = ev
        self.kind = None
        self.plan = []
        self.order = ()
        self.c = ''; self.top = src; self.act = None; self.dst = src
        for r in ch.st[src].reactions or []:
            if r[1] in (ev, '*'):
                self.kind = r[0]
                break
        if self.kind == 'trans':
            TransitRule.__init__(self, mod, lay, ch, src, r[2], r[3], prop)
            self.kind = 'trans'
        elif self.kind == 'term':
            self.plan = [('exit', src)]
        elif self.kind == 'in':
            self.plan = [('action', r[2])] if r[2] is not None else []
        elif self.kind == 'custom':
            self.plan = [('react', src)]
        self.src = src; self.evt = ev

    def setup(self, eng, st, args):
        self.place(eng, st, self.src, ('arg', 0))
        # whether the state deferred an event before
        v = eng.fresh(st, 'deferred0')
        eng.assume(st, ('cmp', 'ule', v, 1), True)
        eng.put(st, ('arg', 0), self.o(self.src).defer, v, 1)
        self.s(st, n=0, d0=v)

    def step(self, eng, st, kind, loc):
        n = self.g(st, 'n')
        if n < len(self.plan) and self.plan[n][0] == kind:
            self.s(st, n=n + 1)
            return self.plan[n][1]
        what = {'exit': 'states are exited', 'action': 'an action is called', 'react': 'a react() function is called', 'forward': 'the search moves to the outer state'}[kind]
        self.rep(eng, st, 'C03', '%s although the first reaction of %s that applies to %s is %s%s' % (
            what, self.src, self.evt, self.kind or 'none', ' (already done)' if any(k == kind for k, x in self.plan) else ''), loc)
        return None

    def vcall(self, eng, st, c):
        if c.method == 'react_impl':
            self.count('searches passed to the outer state')
            eng.event(st, 'virtual call react_impl(%s)' % ', '.join(eng.show(a) for a in c.args), c.loc)
            r = self.g(st, 'res')
            if self.kind is not None and not (self.kind == 'custom' and r is not None and eng.cmp(st, 'eq', r, 1) is True):
                self.rep(eng, st, ('C03', 'C02'), 'the outer state is asked although a reaction of %s did not forward the event' % self.src, c.loc)
            if self.g(st, 'fwd') is not None:
                self.rep(eng, st, ('C03', 'C02'), 'the outer state is asked more than once', c.loc)
            p = self.ch.st[self.src].ctx
            if c.args[0] != ('p', self.obj(st, p), 0):
                self.rep(eng, st, ('C03', 'C02', 'C24'), 'the search does not continue with the direct outer state', c.loc)
            if c.args[1] != ('p', ('arg', 1), 0) or c.args[2] != self.g(st, 'type0', c.args[2]):
                self.rep(eng, st, 'C03', 'the event or its type changes on the way to the outer state', c.loc)
            v = eng.fresh(st, 'outerres', 0)
            self.s(st, fwd=v)
            return self.after(eng, st, c, v)
        if c.method in ('remove_from_state_list', 'exit_impl') and self.kind not in ('trans', 'term'):
            self.step(eng, st, 'exit', c.loc)
            return [(st, 'stop', None)]
        return super().vcall(eng, st, c)

    def ev_hook(self, eng, st, loc, k, who, args):
        if k == 'react':
            self.count('react() calls')
            if self.step(eng, st, 'react', loc) is None:
                return
            if who != self.src or args[0] != ('p', ('arg', 0), 0):
                self.rep(eng, st, ('C03', 'C24'), 'react() of another object is called', loc)
            if args[1] != ('p', ('arg', 1), 0):
                self.rep(eng, st, 'C03', 'react() receives another event', loc)
            return
        if k == 'action' and self.kind == 'in':
            self.count('in-state actions')
            if self.step(eng, st, 'action', loc) is None:
                return
            if args[0] != ('p', self.obj(st, self.plan[0][1]), 0):
                self.rep(eng, st, ('C03', 'C24'), 'the in-state action is called on the wrong object', loc)
            if args[1] != ('p', ('arg', 1), 0):
                self.rep(eng, st, 'C03', 'the in-state action receives another event', loc)
            return
        if self.kind != 'trans':
            self.rep(eng, st, 'C03', 'user code (%s of %s) is called although the first applicable reaction is %s' % (k, who, self.kind or 'none'), loc)
            return
        super().ev_hook(eng, st, loc, k, who, args)

    def on_unknown_call(self, eng, st, c):
        r = super().on_unknown_call(eng, st, c)
        if r and c.method == 'hook_react':
            for s, k, v in r:
                if k == 'ret':
                    # what a reaction function can return
                    eng.assume(s, ('cmp', 'uge', v, 1), True)
                    eng.assume(s, ('cmp', 'ule', v, 3), True)
                    self.s(s, res=v)
        return r

    def h_strcmp(self, eng, st, c):
        a, b = c.args
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p' and a[1][0] == 'g' and b[1][0] == 'g':
            return [(st, 'ret', 0 if a == b else 1)]
        return [(st, 'ret', eng.fresh(st, 'strcmp', st.frames[-1].ctx, c.id))]

    handlers = [(R(r'^strcmp$'), h_strcmp)] + StateRule.handlers

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if self.g(st, 'thrown'):
            self.rep(eng, st, ('C25', 'C08'), 'an exception is swallowed', loc)
        if self.g(st, 'n') != len(self.plan):
            self.rep(eng, st, 'C03', 'the first reaction of %s that applies to %s (%s) has no effect' % (self.src, self.evt, self.kind), loc)
            return
        d = self.fld(eng, st, self.src, 'defer')
        if self.kind == 'defer':
            if d is None or eng.cmp(st, 'ne', d, 0) is not True:
                self.rep(eng, st, ('C03', 'C04'), '%s does not remember that it deferred an event' % self.src, loc)
        elif self.kind not in ('trans', 'term') and d != self.g(st, 'd0') and (d is None or eng.cmp(st, 'eq', d, self.g(st, 'd0')) is not True):
            self.rep(eng, st, ('C03', 'C04'), '%s %s to have deferred an event' % (self.src, 'forgets' if d == 0 else 'claims'), loc)
        f = self.g(st, 'fwd')
        res = self.g(st, 'res')
        want = None
        if f is not None:
            want = f
        elif self.kind == 'custom':
            if not self.ch.st[self.src].ctx or eng.cmp(st, 'eq', res, 1) is not True:
                want = res
            else:
                self.rep(eng, st, ('C03', 'C02'), 'the outer state is not asked although react() of %s forwarded the event' % self.src, loc)
        elif self.kind is None:
            if not self.ch.st[self.src].ctx:
                want = 1
            else:
                self.rep(eng, st, ('C03', 'C02'), 'the outer state is not asked although %s has no reaction to %s' % (self.src, self.evt), loc)
        else:
            want = {'in': 2, 'trans': 2, 'term': 2, 'defer': 3}[self.kind]
        if want is not None and rv != want and eng.cmp(st, 'eq', rv, want) is not True:
            self.rep(eng, st, ('C03', 'C02', 'C17'), 'the reaction of %s to %s (%s) does not report %s' % (self.src, self.evt, self.kind or 'none', 'its result' if isinstance(want, tuple) else RESULT[want]), loc)
        if self.kind == 'trans':
            TransitRule.on_return(self, eng, st, 2, loc)
            self.counts['normal returns'] -= 1


class ResultRule(StateRule):
    """defer_event(), discard_event() and forward_event()"""

    def __init__(self, mod, lay, ch, src, want, prop=None):
        super().__init__(mod, lay, ch, prop)
        self.src = src; self.want = want; self.order = ()

    def setup(self, eng, st, args):
        self.place(eng, st, self.src, ('arg', 0))
        v = eng.fresh(st, 'deferred0')
        eng.assume(st, ('cmp', 'ule', v, 1), True)
        eng.put(st, ('arg', 0), self.o(self.src).defer, v, 1)
        self.s(st, d0=v)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        d = self.fld(eng, st, self.src, 'defer')
        ok = d is not None and eng.cmp(st, 'ne', d, 0) is True if self.want == 3 else d is not None and (d == self.g(st, 'd0') or eng.cmp(st, 'eq', d, self.g(st, 'd0')) is True)
        if not ok:
            self.rep(eng, st, ('C04', 'C03'), 'after %s the state %s to have deferred an event' % ({1: 'forward_event()', 2: 'discard_event()', 3: 'defer_event()'}[self.want], 'does not claim' if self.want == 3 else 'claims'), loc)
        if rv != self.want:
            self.rep(eng, st, ('C03', 'C17'), '%s reports %s' % ({1: 'forward_event()', 2: 'discard_event()', 3: 'defer_event()'}[self.want], RESULT.get(rv, rv)), loc)

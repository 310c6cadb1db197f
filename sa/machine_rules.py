"""Rules for the event-processing core of state_machine (one monitor automaton
shared by several properties; every report is tagged with its property)."""
from engine import *
from lib import *
import re


# what breaks further properties, besides those named where it is reported
ALSO = [(re.compile(a), b.split()) for a, b in (
    (r'is dropped: neither offered', 'C03 C04'),
    (r'outside of event processing|from the deferred queue although no state', 'C15 C04 C01'),
    (r'overwritten|at an unknown position|event processing (moves|swaps|itself adds)|unknown list position', 'C01 C04 C15'),
    (r'put into the deferred queue|appended at the back of the deferred', 'C01 C03'),
    (r'because unconsumed_event threw', 'C08 C02 C10 C01'),
    (r'later exits would not call exit', 'C06 C08 C09 C10 C11'),
    (r'eventQueue.* not discarded', 'C01 C08 C10'),
    (r'deferred.* not discarded', 'C04 C08 C10'),
    (r'(shallow|deep).* not discarded', 'C11 C12 C08 C10'),
    (r'not discarded|active states are not exited|termination does not start|neither destroyed nor owned', 'C08 C09 C10 C06'),
    (r'exit\(\) would be called for states exited by the exception', 'C06 C08 C11'),
    (r'original event instead of the exception event|triggering_event\(\) is not', 'C09 C13'),
    (r'may be left unstable|rethrown (although|without)', 'C08 C25'),
    (r'with exit\(\) calls|without calling exit\(\) although no exc', 'C06 C10 C08 C11'),
    (r'is entered where .* is due|recorded history is entered where', 'C12 C05 C07'),
    (r'is not registered for region|registered for the wrong region|does not know its outermost', 'C05 C14 C06 C24'),
    (r'not added to the active innermost|more than once$|list position stored in|end of the active innermost states', 'C02 C06 C14'),
    (r'outermost unstable state', 'C09 C08 C06'),
    (r'machine is not stable after', 'C09 C08 C05'),
    (r'without a regular exit|other than after a successful exit', 'C11 C08 C09'),
    (r'transition action is not called on', 'C07 C03 C24'),
    (r'transition action does not receive', 'C07 C03 C13'),
    (r'exits something else than|extra reference keeps|nothing keeps .* alive|references of|reference count of the entered|common context .* is referenced', 'C06 C07 C10 C24'),
    (r'state is entered before the states inside', 'C05 C06 C07'),
    (r'exit mode|full-exit mode', 'C06 C09 C11 C08'),
    (r'exit\(\) of .* (runs before|is called)|is destroyed (out of order|without calling|although)|is not exited although', 'C06 C07 C10'),
    (r'history of .* (is cleared|is erased|is not cleared)|history is cleared', 'C11 C12'),
    (r'an exception is swallowed|exception may be swallowed', 'C08 C09 C25'),
    (r'copied instead of shared|without being copied|reference.*(leak|released|backed)|leak|once too often|once too', 'C15 C01'),
    (r'after appending the event', 'C01 C15 C24'),
    (r'the type passed along', 'C02 C03 C16'),
    (r'the event is used after', 'C15 C01'),
    (r'initial state is entered', 'C10 C05'),
    (r'asked although a reaction|continue with the direct outer|search for a reaction|is asked', 'C02 C03'),
)]


def widened(props, msg):
    out = [props] if isinstance(props, str) else list(props)
    for rx, more in ALSO:
        if rx.search(msg):
            out += [p for p in more if p not in out]
    return out


class Mon(LibRule):
    """monitor kept as a sorted tuple of (key, value) pairs in State.mon"""
    prop = None

    def g(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def s(self, st, **kw):
        m = dict(st.mon)
        m.update(kw)
        st.mon = tuple(sorted(((k, v) for k, v in m.items() if v is not None), key=lambda x: x[0]))

    def rep(self, eng, st, props, msg, loc=None):
        for p in widened(props, msg):
            if self.prop is None or p == self.prop:
                eng.report(st, p, msg, loc)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def on_assert_fail(self, eng, st, c):
        f = st.frames[-1].fn
        if f.file and f.file.endswith('result.hpp'):
            self.rep(eng, st, 'C17', 'the library itself loses or reuses a reaction result', c.loc)


FORWARD, DISCARD, DEFER = 1, 2, 3
CLEAN = ('eventQueue', 'deferred', 'shallow', 'deep')


class MachineRule(Mon):
    """process_event, initiate, terminate, ~state_machine of an arbitrary
    machine in an arbitrary (stable) state"""

    def __init__(self, mod, lay, kind, prop=None, native=False):
        super().__init__(mod, lay)
        self.kind = kind
        self.prop = prop
        self.native = native
        self.counts = {}
        self.idoff = None if native else field_offset(mod, r'^boost::statechart::event_base$', 'idProvider_', r'id_provider')

    # ---- initial state ---------------------------------------------------------
    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}
        T = eng.load(st, self.fptr('trigger'), 'p', 8, None, ('T0',))
        eng.put(st, self.MACHINE, self.MOFF + self.lay.off['fullExit'], 1, 1)
        eng.put(st, self.MACHINE, self.MOFF + self.lay.off['unstable'], 0, 8)
        self.s(st, T0=T)
        if self.kind == 'process_event':
            self.begin(eng, st, ('p', ('arg', 1), 0), 0)

    def begin(self, eng, st, evt, own):
        if evt != ('p', ('arg', 1), 0):
            st.mem.pop(('arg', 1), None)      # forget what is known about the first event
            self.s(st, cl=None)
        self.s(st, cur=evt, did=0, iter=('first',), last=-1, unc=0, defd=0, own=own, leaf=None)
        self.count('dispatches')

    def where_dispatch(self, st):
        return 'the event passed to process_event' if self.g(st, 'cur') == ('p', ('arg', 1), 0) else 'an event taken from the queue'

    # ---- end of a dispatch -------------------------------------------------------
    def finish(self, eng, st, loc):
        cur = self.g(st, 'cur')
        if cur is None:
            return
        last = self.g(st, 'last')
        if not self.g(st, 'did'):
            self.rep(eng, st, ('C01', 'C02'), '%s is dropped: neither offered to a state nor passed to unconsumed_event' % self.where_dispatch(st), loc)
        unc = self.g(st, 'unc')
        if last == -1:
            fwd = True
        else:
            fwd = eng.cmp(st, 'eq', last, FORWARD)
        if fwd is True and not unc:
            self.rep(eng, st, 'C02', 'unconsumed_event is not called although no reaction consumed or deferred %s' % self.where_dispatch(st), loc)
        if fwd is None and not unc:
            self.rep(eng, st, 'C02', 'unconsumed_event is not called although every reaction may have forwarded the event', loc)
        if fwd is not False and not unc:
            self.exhausted(eng, st, loc)
        d = False if last == -1 else eng.cmp(st, 'eq', last, DEFER)
        n = self.g(st, 'defd')
        if d is not False and n == 0:
            self.rep(eng, st, 'C04', 'the event is not put into the deferred queue although the reaction may have deferred it', loc)
        own = self.g(st, 'own')
        if own is not None and own > 0 and cur[1] != ('arg', 1):
            self.rep(eng, st, 'C15', 'a reference to the dispatched event is never released (leak)', loc)
        self.s(st, cur=None, iter=None, last=None, leaf=None)

    def exhausted(self, eng, st, loc):
        it = self.g(st, 'iter')
        n = self.node(eng, st, it)
        end = self.get(eng, st, 'statesEnd')
        if n is None:
            self.rep(eng, st, 'C02', 'the search for a reaction ends before the end of the list of active innermost states was reached', loc)
            return
        r = eng.cmp(st, 'eq', n, end) if end is not None else None
        if r is not True:
            self.rep(eng, st, 'C02', 'the search for a reaction ends although there may be another active innermost state', loc)

    def node(self, eng, st, it):
        """pointer to the list node the search has to look at next"""
        if it is None:
            return None
        if it[0] == 'first':
            return self.get(eng, st, 'states', 0)
        p = it[1]
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return None
        c = st.mem.get(p[1], {}).get(p[2])
        return c[0] if c else None

    # ---- events -------------------------------------------------------------------
    def ev(self, eng, st, kind, *d, loc=None):
        f = getattr(self, 'ev_' + kind, None)
        if f:
            f(eng, st, loc, *d)

    def ev_elemstore(self, eng, st, loc, old, val, node):
        # an element of a list is overwritten: moved out if it becomes null
        if val == 0 and node == self.get(eng, st, 'eventQueue', 0):
            self.s(st, moved=(node, old))
        else:
            self.rep(eng, st, ('C01', 'C04'), 'an element of an event queue is overwritten', loc)

    def ev_remove(self, eng, st, loc, role, where, val, node):
        mv = self.g(st, 'moved')
        if mv is not None and mv[0] == node and val == 0:
            val = mv[1]
        self.s(st, moved=None)
        if role == 'eventQueue':
            self.count('dequeues')
            if where != 'front':
                self.rep(eng, st, 'C01', 'an event is taken from the event queue but not from its front', loc)
            if self.empty(eng, st, 'eventQueue') is not False:
                self.rep(eng, st, 'C01', 'an event is taken from a queue that may be empty', loc)
            if self.g(st, 'exc') is None and self.kind in ('process_event', 'initiate'):
                if self.kind == 'process_event' and not self.g(st, 'began') and False:
                    pass
                if self.g(st, 'popped') is not None:
                    self.rep(eng, st, 'C01', 'a second event is taken from the queue before the first one was dispatched', loc)
                self.finish(eng, st, loc)
                if not (isinstance(val, tuple) and val[0] == 'p'):
                    self.rep(eng, st, 'C01', 'an event is removed from the event queue without being dispatched', loc)
                else:
                    self.begin(eng, st, val, 0 if val is None else 1)
                    # a reference taken before removal
                    k = dict(self.g(st, 'pre', ())).get(val, 0) if self.g(st, 'pre') else 0
                    self.s(st, own=1 + k, pre=None)
            else:
                self.rep(eng, st, 'C01', 'an event is removed from the event queue outside of event processing', loc)
        elif role == 'deferred':
            self.rep(eng, st, 'C04', 'an event is removed from the deferred queue although no state is exited', loc)
        elif role is None:
            self.rep(eng, st, ('C01', 'C04'), 'an element at an unknown position is removed from a list', loc)

    def ev_insert(self, eng, st, loc, role, where, val, node):
        if role == 'deferred':
            self.count('deferral inserts')
            cur = self.g(st, 'cur')
            if where != 'back':
                self.rep(eng, st, 'C04', 'a deferred event is not appended at the back of the deferred queue', loc)
            src = self.g(st, 'cl')     # clone of cur
            ok = cur is not None and (val == cur or (src is not None and val == src))
            if not ok:
                self.rep(eng, st, 'C04', 'an event other than the one just dispatched is put into the deferred queue', loc)
            last = self.g(st, 'last')
            if last is None or last == -1 or eng.cmp(st, 'eq', last, DEFER) is not True:
                self.rep(eng, st, 'C04', 'an event is put into the deferred queue although its reaction did not defer it', loc)
            if self.g(st, 'defd', 0):
                self.rep(eng, st, 'C04', 'the same event is put into the deferred queue twice', loc)
            self.s(st, defd=1)
            if val == cur:
                self.own(eng, st, val, -1, loc)
        elif role == 'eventQueue':
            self.rep(eng, st, 'C01', 'event processing itself adds an event to the event queue', loc)
        elif role is None:
            self.rep(eng, st, ('C01', 'C04'), 'an element is inserted at an unknown position', loc)

    def ev_transfer(self, eng, st, loc, dst, where, src, whole):
        if dst == 'states' or src == 'states':
            return
        self.rep(eng, st, ('C01', 'C04'), 'event processing moves events from %s to %s although no state is exited' % (src, dst), loc)

    def ev_lswap(self, eng, st, loc, a, b):
        self.rep(eng, st, ('C01', 'C04'), 'event processing swaps %s and %s' % (a, b), loc)

    def ev_lstore(self, eng, st, loc, role, off, val):
        if off == 16 or role in ('shallow', 'deep'):
            return
        if role in ('eventQueue', 'deferred') and val == self.fptr(role):
            # re-initialised header after all elements have been destroyed
            if off == 0:
                self.cleared(eng, st, role, loc)

    def ev_lclear(self, eng, st, loc, role):
        if role in ('eventQueue', 'deferred'):
            self.s(st, clr=tuple(sorted(set(self.g(st, 'clr', ())) | {role})))

    def ev_mapclear(self, eng, st, loc, role):
        if role:
            self.cleared(eng, st, role, loc)

    def cleared(self, eng, st, role, loc):
        self.count('clears')
        if role in ('eventQueue', 'deferred') and role not in self.g(st, 'clr', ()):
            self.rep(eng, st, ('C15',), 'the header of %s is reset without destroying its elements' % role, loc)
        ok = self.kind in ('terminate', 'dtor') or (self.kind == 'initiate' and not self.g(st, 'built')) or self.g(st, 'exc') is not None
        if not ok:
            self.rep(eng, st, {'eventQueue': 'C01', 'deferred': 'C04', 'shallow': 'C12', 'deep': 'C12'}[role],
                     '%s is cleared during normal event processing' % role, loc)
        if self.g(st, 'exc') == 'unconsumed' and self.kind in ('process_event', 'initiate'):
            self.rep(eng, st, 'C08', '%s is cleared because unconsumed_event threw' % role, loc)
        self.s(st, clean=tuple(sorted(set(self.g(st, 'clean', ())) | {role})))

    def dirty(self, st):
        self.s(st, clean=None, killed=None, clr=None)

    # -- reference counting of the event being dispatched -----------------------------
    def own(self, eng, st, p, d, loc):
        cur = self.g(st, 'cur')
        if cur is None or cur[1] == ('arg', 1):
            return False
        r = (p == cur)
        if r is not True:
            return False
        o = self.g(st, 'own', 0) + d
        if o < 0:
            self.rep(eng, st, 'C15', 'the dispatched event is released once too often', loc)
            o = 0
        self.s(st, own=min(o, 4))
        return True

    def ev_addref(self, eng, st, loc, p):
        if self.own(eng, st, p, 1, loc):
            return
        # reference taken on the front event before it is removed
        n = self.get(eng, st, 'eventQueue', 0)
        if n is not None and isinstance(n, tuple) and n[0] == 'p':
            v = st.mem.get(n[1], {}).get(n[2] + 16)
            if v and v[0] == p and p != 0:
                pre = dict(self.g(st, 'pre', ()))
                pre[p] = min(pre.get(p, 0) + 1, 4)
                self.s(st, pre=tuple(sorted(pre.items(), key=repr)))

    def ev_release(self, eng, st, loc, p, isstate):
        if self.own(eng, st, p, -1, loc):
            return
        pre = dict(self.g(st, 'pre', ()))
        if p in pre:
            pre[p] -= 1
            if not pre[p]:
                del pre[p]
            self.s(st, pre=tuple(sorted(pre.items(), key=repr)) or None)

    def alive(self, eng, st, loc):
        cur = self.g(st, 'cur')
        if cur is not None and cur[1] != ('arg', 1) and self.g(st, 'own', 0) < 1:
            self.rep(eng, st, 'C15', 'the event is used after the last reference held by the machine was dropped', loc)

    def ev_clone(self, eng, st, loc, src, val):
        if src == self.g(st, 'cur'):
            self.s(st, cl=val)

    # -- virtual calls and user hooks ----------------------------------------------------
    def typeid_ok(self, eng, st, ty, evt):
        b = evt
        if self.native:
            v = st.mem.get(b[1], {}).get(b[2])
            if not v or not isinstance(v[0], tuple):
                return False
            if v[0][1][0] == 'g':
                return eng.m.gload(v[0][1][1], v[0][2] - 8, 'p', 8) == ty
            w = st.mem.get(v[0][1], {}).get(v[0][2] - 8)
            return bool(w) and w[0] == ty
        c = st.mem.get(b[1], {}).get(b[2] + (self.idoff or 0))
        return bool(c) and c[0] == ty

    def ev_vcall(self, eng, st, loc, method, args):
        if method == 'react_impl':
            self.count('react calls')
            obj, evt, ty = args[0], args[1], args[2]
            if self.g(st, 'catch'):
                self.exc_react(eng, st, obj, evt, ty, loc)
                return
            if self.kind in ('terminate', 'dtor'):
                self.rep(eng, st, 'C01', 'an event is dispatched during %s' % self.kind, loc)
                return
            cur = self.g(st, 'cur')
            if cur is None or self.g(st, 'exc') is not None:
                self.rep(eng, st, 'C01', 'a state is asked to react although no event has been taken from the queue', loc)
                return
            if evt != cur:
                self.rep(eng, st, ('C01', 'C02'), 'an event other than the current one is dispatched', loc)
            if not self.typeid_ok(eng, st, ty, evt):
                self.rep(eng, st, ('C02', 'C16'), 'the type passed along with the event is not its dynamic type', loc)
            self.alive(eng, st, loc)
            last = self.g(st, 'last')
            if last != -1 and eng.cmp(st, 'eq', last, FORWARD) is not True:
                self.rep(eng, st, 'C02', 'a further innermost state is asked although the event may have been consumed or deferred already', loc)
            if self.g(st, 'unc'):
                self.rep(eng, st, 'C02', 'a state is asked to react after unconsumed_event was called for the event', loc)
            it = self.g(st, 'iter')
            n = self.node(eng, st, it)
            ok = False
            if n is not None and isinstance(n, tuple) and n[0] == 'p':
                v = st.mem.get(n[1], {}).get(n[2] + 16)
                ok = bool(v) and v[0] == obj
                e = self.get(eng, st, 'statesEnd')
                if e is None or eng.cmp(st, 'eq', n, e) is not False:
                    self.rep(eng, st, 'C02', 'the search for a reaction may go beyond the last active innermost state', loc)
            if not ok:
                self.rep(eng, st, 'C02', 'the innermost state asked is not the %s one in the list of active innermost states' % ('first' if it == ('first',) else 'next'), loc)
            self.s(st, did=1, iter=('next', n) if n is not None else ('next', 0), leaf=obj)
            self.trigger_is(eng, st, cur, 'a reaction', loc)
        elif method in ('remove_from_state_list', 'exit_impl'):
            self.kill(eng, st, method, args, loc)
        elif method == 'clone':
            pass

    def trigger_is(self, eng, st, want, what, loc):
        t = self.get(eng, st, 'trigger')
        if t is None or t != want:
            r = eng.cmp(st, 'eq', t, want) if t is not None else None
            if r is not True:
                self.rep(eng, st, 'C13', 'triggering_event() is not %s while %s runs' % ('0' if want == 0 else 'the event being processed', what), loc)

    def kill(self, eng, st, method, args, loc):
        self.count('exit calls')
        full = args[-1]
        t = eng.truth(st, full) if not isinstance(full, int) else full != 0
        exc = self.g(st, 'exc')
        if self.kind == 'process_event' and exc is None:
            self.rep(eng, st, ('C06', 'C10'), 'states are exited although no reaction asked for it', loc)
        if exc == 'unconsumed':
            self.rep(eng, st, 'C08', 'states are destroyed because unconsumed_event threw', loc)
        if exc is not None or self.kind == 'dtor':
            if t is not False:
                self.rep(eng, st, ('C08',) if exc else ('C10',), 'states are exited with exit() calls %s' % ('while an exception is pending' if exc else 'by the machine destructor'), loc)
        elif self.kind in ('terminate', 'initiate'):
            if t is not True:
                self.rep(eng, st, ('C10',), 'states are exited without calling exit() although no exception is pending', loc)
            self.trigger_is(eng, st, 0, 'exit processing of ' + self.kind, loc)
        self.s(st, clean=None, clr=None, killed=(1 if t else 0, 1))
        # what is exited: the outermost state, or the only leaf
        o = self.get(eng, st, 'outermost')
        if method == 'remove_from_state_list':
            if o is None or args[0] != o:
                self.rep(eng, st, ('C10', 'C08'), 'termination does not start at the outermost state', loc)
            if args[2] != self.fptr('unstable'):
                self.rep(eng, st, ('C06', 'C09'), 'the outermost unstable state is not passed by reference to the exit function', loc)
            if args[1] != self.fptr('statesEnd'):
                self.rep(eng, st, ('C06',), 'the end of the active states is not passed by reference to the exit function', loc)
        else:
            # the single-leaf shortcut needs a stable machine with one leaf
            u = self.get(eng, st, 'unstable')
            if u is None or eng.cmp(st, 'eq', u, 0) is not True:
                self.rep(eng, st, ('C06', 'C09'), 'the exit shortcut for a single innermost state is used although the machine may be unstable', loc)

    # -- exceptions ------------------------------------------------------------------------
    def exc_react(self, eng, st, obj, evt, ty, loc):
        self.count('exception events')
        if evt == self.g(st, 'cur'):
            self.rep(eng, st, 'C09', 'the original event instead of the exception event is dispatched', loc)
        if self.g(st, 'xdone'):
            self.rep(eng, st, 'C09', 'the exception event is dispatched to more than one state', loc)
        fe = self.get(eng, st, 'fullExit')
        if fe is None or eng.cmp(st, 'eq', fe, 0) is not True:
            self.rep(eng, st, 'C09', 'exit() would be called for states exited by the exception event', loc)
        self.trigger_is(eng, st, evt, 'the exception event reaction', loc)
        if not self.typeid_ok(eng, st, ty, evt):
            self.rep(eng, st, ('C09', 'C16'), 'the type passed along with the exception event is not its dynamic type', loc)
        u = self.get(eng, st, 'unstable')
        uz = eng.cmp(st, 'eq', u, 0) if u is not None else None
        leaf = self.g(st, 'leaf')
        if uz is None:
            self.rep(eng, st, 'C09', 'the exception event is dispatched without finding out whether the machine is unstable', loc)
        elif uz is False and obj != u:
            self.rep(eng, st, 'C09', 'the machine is unstable but the exception event is not sent to the outermost unstable state', loc)
        elif uz is True and obj != (leaf if leaf is not None else 0):
            self.rep(eng, st, 'C09', 'the machine is stable but the exception event is not sent to the innermost state last visited', loc)
        o = self.get(eng, st, 'outermost')
        if o is None or eng.cmp(st, 'eq', o, 0) is not False:
            self.rep(eng, st, 'C09', 'the exception event is dispatched although the machine may be terminated', loc)
        self.s(st, xdone=1, xres=None)

    def on_begin_catch(self, eng, st, c):
        if any('statechart' in (f.fn.scope or '') for f in st.frames[-1:]) or True:
            self.s(st, catch=(self.g(st, 'catch', 0) + 1), xdone=None, xres=None, rethrown=None)

    def on_end_catch(self, eng, st, c):
        n = self.g(st, 'catch', 0) - 1
        self.s(st, catch=n if n > 0 else None)
        if self.g(st, 'rethrown'):
            return
        if self.g(st, 'exc2'):
            self.s(st, exc2=None)
            return
        # handled
        self.count('handled exceptions')
        r = self.g(st, 'xres')
        if r is None or eng.cmp(st, 'eq', r, DISCARD) is not True:
            self.rep(eng, st, ('C09', 'C25'), 'an exception is swallowed although no reaction consumed the exception event', c.loc)
        u = self.get(eng, st, 'unstable')
        if u is None or eng.cmp(st, 'eq', u, 0) is not True:
            self.rep(eng, st, 'C09', 'the machine may be left unstable after the exception event was handled', c.loc)
        self.s(st, exc=None, last=DISCARD if self.g(st, 'cur') is not None else None, handled=1)

    def on_rethrow(self, eng, st, c):
        r = self.g(st, 'xres')
        u = self.get(eng, st, 'unstable')
        if r is not None and eng.cmp(st, 'eq', r, DISCARD) is True and u is not None and eng.cmp(st, 'eq', u, 0) is True:
            self.rep(eng, st, 'C09', 'the exception is rethrown although a reaction consumed it and the machine is stable', c.loc)
        o = self.get(eng, st, 'outermost')
        if r is None and not self.g(st, 'xdone') and not (o is not None and eng.cmp(st, 'eq', o, 0) is True):
            self.rep(eng, st, 'C09', 'the exception is rethrown without offering the exception event to a state', c.loc)
        self.s(st, rethrown=1)

    def ev_throw(self, eng, st, loc, what):
        if self.g(st, 'catch'):
            self.s(st, exc2=1, rethrown=1)
            self.dirty(st)
            return
        # copying an event that was deferred is not part of a reaction
        self.s(st, exc='unconsumed' if what == 'hook_unconsumed' else 'copy' if what == 'clone' else 'user')
        self.dirty(st)

    def on_throw(self, eng, st, c):
        self.rep(eng, st, 'C25', 'the library throws an exception of its own', c.loc)
        self.s(st, exc='lib')

    def ev_ret(self, eng, st, loc, what, v):
        pass

    def ev_hook(self, eng, st, loc, k, who, args):
        if k == 'enter' and self.kind == 'initiate' and not self.g(st, 'exc'):
            self.build(eng, st, loc)
        self.dirty_hook(st)
        if k == 'unconsumed':
            self.count('unconsumed calls')
            cur = self.g(st, 'cur')
            if self.g(st, 'catch') or self.g(st, 'exc'):
                self.rep(eng, st, ('C02', 'C09'), 'unconsumed_event is called while an exception is pending', loc)
                return
            if cur is None:
                self.rep(eng, st, 'C02', 'unconsumed_event is called without an event being dispatched', loc)
                return
            if args[0] != self.MACHINE and args[0] != ('p', self.MACHINE, self.MOFF):
                self.rep(eng, st, 'C02', 'unconsumed_event is called on another object', loc)
            if args[1] != cur:
                self.rep(eng, st, 'C02', 'unconsumed_event receives another event', loc)
            last = self.g(st, 'last')
            if last != -1 and eng.cmp(st, 'eq', last, FORWARD) is not True:
                self.rep(eng, st, 'C02', 'unconsumed_event is called although a reaction may have consumed or deferred the event', loc)
            else:
                self.exhausted(eng, st, loc)
            if self.g(st, 'unc'):
                self.rep(eng, st, 'C02', 'unconsumed_event is called twice for one event', loc)
            self.alive(eng, st, loc)
            self.trigger_is(eng, st, cur, 'unconsumed_event', loc)
            self.s(st, unc=1, did=1)
        elif k == 'enter':
            self.trigger_is(eng, st, 0, 'the entry of a state during initiate()', loc) if self.kind == 'initiate' else None

    def build(self, eng, st, loc):
        if not self.g(st, 'built'):
            self.ended(eng, st, loc, 'initiate() enters the initial state before termination of the earlier run is complete', ('C10',))
        self.s(st, built=1)

    def ended(self, eng, st, loc, msg, props):
        """everything of the run is gone"""
        if self.g(st, 'handled'):
            return
        missing = [r for r in CLEAN if r not in self.g(st, 'clean', ())]
        if missing:
            self.rep(eng, st, props, '%s: %s not discarded' % (msg, ', '.join(missing)), loc)
        if not self.g(st, 'killed'):
            o = self.get(eng, st, 'outermost')
            if o is None or eng.cmp(st, 'eq', o, 0) is not True:
                self.rep(eng, st, props, '%s: the active states are not exited' % msg, loc)
        fe = self.get(eng, st, 'fullExit')
        if self.kind != 'dtor' and (fe is None or eng.cmp(st, 'ne', fe, 0) is not True):
            self.rep(eng, st, tuple(props) + ('C09',), '%s: later exits would not call exit()' % msg, loc)

    def dirty_hook(self, st):
        self.s(st, clean=None, clr=None)

    # -- end of the entry --------------------------------------------------------------------
    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if self.kind in ('process_event', 'initiate'):
            self.finish(eng, st, loc)
            if self.empty(eng, st, 'eventQueue') is not True:
                self.rep(eng, st, 'C01', '%s returns although the event queue may not be empty' % self.kind, loc)
            if self.kind == 'initiate' and not self.g(st, 'built') and not self.g(st, 'handled'):
                self.rep(eng, st, ('C10', 'C05'), 'initiate() returns without entering the initial state', loc)
            if self.kind == 'initiate' and self.g(st, 'built') is None and self.g(st, 'handled') is None:
                pass
        if self.kind in ('terminate', 'dtor'):
            self.ended(eng, st, loc, 'termination is incomplete', ('C10',))
        self.restored(eng, st, loc, 'normally')
        fe = self.get(eng, st, 'fullExit')
        if self.kind != 'dtor' and (fe is None or eng.cmp(st, 'ne', fe, 0) is not True):
            self.rep(eng, st, 'C09', 'later exits would not call exit() any more', loc)

    def restored(self, eng, st, loc, how):
        if self.kind == 'dtor':
            return
        t = self.get(eng, st, 'trigger')
        T0 = self.g(st, 'T0')
        if t is None or (t != T0 and eng.cmp(st, 'eq', t, T0) is not True):
            self.rep(eng, st, 'C13', 'triggering_event() is not restored when %s ends %s' % (self.kind, how), loc)

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        exc = self.g(st, 'exc')
        if exc in ('unconsumed', 'copy', None):
            pass
        else:
            self.ended(eng, st, loc, 'an exception escapes from %s' % self.kind, ('C08',))
        self.restored(eng, st, loc, 'by an exception')

    # -- outcomes of react calls -----------------------------------------------------------------
    def h_construct(self, eng, st, c):
        if self.kind != 'initiate':
            return None
        eng.event(st, 'enter the initial state', c.loc)
        self.count('initial entries')
        if self.g(st, 'exc'):
            self.rep(eng, st, 'C10', 'the initial state is entered while an exception is pending', c.loc)
        if self.g(st, 'built'):
            self.rep(eng, st, ('C10', 'C05'), 'the initial state is entered twice', c.loc)
        self.build(eng, st, c.loc)
        self.trigger_is(eng, st, 0, 'the entry of the initial state', c.loc)
        self.dirty_hook(st)
        self.s(st, killed=None)
        self.havoc_roles(eng, st, keep=('trigger', 'fullExit'))
        r = self.after(eng, st, c, None)
        st.facts.update({})
        o = eng.load(st, self.fptr('outermost'), 'p', 8, None, ('O1',))
        eng.assume(st, ('cmp', 'ne', o, 0), True)
        eng.put(st, self.MACHINE, self.MOFF + self.lay.off['unstable'], 0, 8)
        return r

    handlers = [(R(r'(simple_)?state<A, .*>::(initial_deep_construct|deep_construct|shallow_construct)\('), h_construct)] + LibRule.handlers

    def vcall(self, eng, st, c):
        if c.method in ('remove_from_state_list', 'exit_impl'):
            r = super().vcall(eng, st, c)
            if not self.g(st, 'exc') or True:
                # exiting the outermost state (or the only innermost one)
                # deregisters it from the machine [C06, C24]
                eng.put(st, self.MACHINE, self.MOFF + self.lay.off['outermost'], 0, 8)
                eng.put(st, self.MACHINE, self.MOFF + self.lay.off['unstable'], 0, 8)
            return r
        if c.method != 'react_impl':
            return super().vcall(eng, st, c)
        eng.event(st, 'virtual call react_impl(%s)' % ', '.join(eng.show(a) for a in c.args), c.loc)
        incatch = self.g(st, 'catch')
        self.ev(eng, st, 'vcall', c.method, c.args, loc=c.loc)
        out = []
        # throws
        s2 = st.copy()
        self.havoc_roles(eng, s2, keep=('trigger', 'fullExit'))
        self.ev(eng, s2, 'throw', 'react_impl', loc=c.loc)
        eng.event(s2, 'react_impl throws', c.loc)
        out.append((s2, 'throw', ('exc', 'user')))
        if not incatch:
            # forwarded: nothing but queues and history may have changed
            s3 = st.copy()
            self.havoc_roles(eng, s3, only=('eventQueue', 'shallow', 'deep'))
            self.s(s3, last=FORWARD)
            self.dirty_hook(s3)
            eng.event(s3, 'the event is forwarded', c.loc)
            out.append((s3, 'ret', FORWARD))
        self.havoc_roles(eng, st, keep=('trigger', 'fullExit') if not incatch else ('trigger',))
        if incatch:
            eng.put(st, self.MACHINE, self.MOFF + self.lay.off['fullExit'], 0, 1)
        v = eng.fresh(st, 'react', st.frames[-1].ctx, c.id)
        self.dirty_hook(st)
        if incatch:
            self.s(st, xres=v)
        else:
            eng.assume(st, ('cmp', 'ne', v, FORWARD), True)
            eng.assume(st, ('cmp', 'ne', v, 0), True)
            eng.assume(st, ('cmp', 'ne', v, 4), True)
            self.s(st, last=v)
            eng.event(st, 'the event is consumed or deferred', c.loc)
        out.append((st, 'ret', v))
        return out


class PostRule(Mon):
    """post_event in all its forms"""

    def __init__(self, mod, lay, prop=None, evarg=1, deref=False):
        super().__init__(mod, lay)
        self.prop = prop
        self.counts = {}
        self.evarg = evarg
        self.deref = deref

    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}
        if self.deref:
            v = eng.load(st, ('p', ('arg', self.evarg), 0), 'p', 8, None, ('evt',))
            eng.assume(st, ('cmp', 'ne', v, 0), True)
        else:
            v = ('p', ('arg', self.evarg), 0)
        self.s(st, evt=v, n=0, refs=0)

    def ev(self, eng, st, kind, *d, loc=None):
        if kind == 'vcall' and d[0] not in ('clone',) and not (d[0] or '').startswith('~'):
            self.rep(eng, st, 'C01', 'posting an event calls %s at once' % d[0], loc)
        elif kind == 'hook':
            self.rep(eng, st, 'C01', 'posting an event runs user code (%s) at once' % d[0], loc)
        elif kind == 'clone':
            if d[0] == self.g(st, 'evt'):
                self.s(st, cl=d[1], clrefs=1, ncl=self.g(st, 'ncl', 0) + 1)
                c = self.refcount(eng, st, self.g(st, 'evt'))
                if c is not True:
                    self.rep(eng, st, 'C15', 'an event managed by a reference-counting pointer is copied instead of shared', loc)
        elif kind == 'addref':
            self.refs(eng, st, d[0], 1, loc)
        elif kind == 'release':
            self.refs(eng, st, d[0], -1, loc)
        elif kind == 'insert':
            role, where, val, node = d
            if role != 'eventQueue' or where != 'back':
                self.rep(eng, st, 'C01', 'a posted event is not appended at the back of the event queue', loc)
            evt, cl = self.g(st, 'evt'), self.g(st, 'cl')
            if val != evt and (cl is None or val != cl):
                self.rep(eng, st, ('C01', 'C15'), 'something other than the posted event is put into the event queue', loc)
            if val == evt and not self.deref and self.refcount(eng, st, evt) is not False:
                self.rep(eng, st, 'C15', 'an event that is not managed by a reference-counting pointer is queued without being copied', loc)
            self.s(st, n=min(2, self.g(st, 'n') + 1))
            self.refs(eng, st, val, -1, loc)
        elif kind in ('remove', 'transfer', 'lswap', 'lclear', 'mapclear', 'mapstore', 'maperase'):
            self.rep(eng, st, 'C01', 'posting an event changes more than the back of the event queue (%s)' % kind, loc)
        elif kind == 'lstore' and d[1] == 0 and d[2] == self.fptr(d[0]):
            self.rep(eng, st, 'C01', 'posting an event empties %s' % d[0], loc)
        elif kind == 'fstore':
            self.rep(eng, st, ('C01', 'C24'), 'posting an event changes %s' % d[0], loc)

    def refcount(self, eng, st, evt):
        """is the event's count known to be zero (True), non-zero (False)"""
        off = self.cntoff()
        c = st.mem.get(evt[1], {}).get(evt[2] + off)
        if not c:
            return None
        return eng.cmp(st, 'eq', c[0], 0)

    def cntoff(self):
        o = getattr(self, '_co', None)
        if o is None:
            o = field_offset(self.mod, r'^boost::statechart::detail::counted_base<true>$', 'count_')
            self._co = o = o or field_offset(self.mod, r'^boost::statechart::detail::count_base<true>$', 'count_')
            b = field_offset(self.mod, r'^boost::statechart::event_base$', 'count_')
            self._co = o = b if b is not None else o
        return o

    def refs(self, eng, st, p, d, loc):
        if p == self.g(st, 'evt'):
            r = self.g(st, 'refs') + d
            if r < 0:
                self.rep(eng, st, 'C15', 'the reference owned by the event queue is not backed by an increment of the reference count', loc)
                r = 0
            self.s(st, refs=r)
        elif p == self.g(st, 'cl') and p is not None:
            r = self.g(st, 'clrefs') + d
            if r < 0:
                self.rep(eng, st, 'C15', 'the copy of the event is released once too often', loc)
                r = 0
            self.s(st, clrefs=r)

    def on_return(self, eng, st, rv, loc):
        self.counts['normal returns'] = self.counts.get('normal returns', 0) + 1
        if self.g(st, 'n') != 1:
            self.rep(eng, st, 'C01', 'post_event returns after appending the event %s times' % self.g(st, 'n'), loc)
        if self.g(st, 'refs') > 0 or self.g(st, 'clrefs', 0) > 0:
            self.rep(eng, st, 'C15', 'a reference to the posted event is leaked', loc)

    def on_throw(self, eng, st, c):
        self.rep(eng, st, 'C25', 'the library throws an exception of its own', c.loc)

"""Rules for fifo_worker / fifo_scheduler (C18, C19)."""
import re
from engine import *
from lib import *
from machine_rules import Mon

FN = r'^(?:[\w:<>*& ]+ )?boost::(?:function0<void>|function_n<void>|function<void ?\(\)>)::'
WT = {'queue': r'^std::(__cxx11::)?list<|^std::deque<|^std::vector<', 'mutex': r'^boost::mutex$|^std::mutex$', 'cond': r'^boost::condition|^std::condition_variable',
      'wait': r'^(const )?bool$', 'terminated': r'^(const )?bool$'}
WN = {'queue': 'workQueue_', 'mutex': 'mutex_', 'cond': 'queueNotEmpty_', 'wait': 'waitOnEmptyQueue_', 'terminated': 'terminated_'}


class WorkerLayout:
    def __init__(self, m, threads, outer=None):
        cs = [c for c in m.classes if re.search(r'^boost::statechart::fifo_worker<', c['name']) and len(c['members']) >= 2]
        if not cs:
            raise EngineError('fifo_worker not found in debug info')
        mem = [(nm, off, ty, sz) for nm, off, ty, sz, ow in m.flat_members(cs[0])]
        self.off = {}; self.size = {}
        used = set()
        roles = ['queue'] + (['mutex', 'cond', 'wait'] if threads else []) + ['terminated']
        for r in roles:
            for x in mem:
                if x[0] == WN[r]:
                    self.off[r] = x[1]; self.size[r] = x[3]; used.add(x[0])
        for r in roles:
            if r not in self.off:
                c = [x for x in mem if x[0] not in used and re.search(WT[r], x[2])]
                if r in ('wait', 'terminated') and len(c) > 1:
                    cc = [x for x in c if x[2].startswith('const') == (r == 'wait')]
                    c = cc or c
                if not c:
                    raise EngineError('no member of fifo_worker plays the role %s' % r)
                self.off[r] = c[0][1]; self.size[r] = c[0][3]; used.add(c[0][0])
        self.base = 0
        if outer:
            o = [c for c in m.classes if re.search(outer, c['name']) and c['members']]
            w = [off for nm, off, ty, sz, ow in m.flat_members(o[0]) if re.search(r'^boost::statechart::fifo_worker<', ty)]
            self.base = w[0]

    def role_at(self, off):
        for r, o in self.off.items():
            if o <= off < o + max(1, self.size[r]):
                return r, off - o
        return None, None


class FnModel:
    """boost::function0<void> at the level of its contents: the first word of
    the object is 0 (empty) or a pointer that stands for the callable"""

    def content(self, eng, st, p):
        v = eng.load(st, p, 'p', 8, None, ('fn', st.frames[-1].ctx))
        self.on_load(eng, st, p, v, 8, None)
        return v

    def put(self, eng, st, p, v, size=8):
        if isinstance(p, tuple) and p[0] == 'p':
            eng.put(st, p[1], p[2], v, 8)

    def f_default(self, eng, st, c):
        self.put(eng, st, c.args[0], 0)
        return [(st, 'ret', None)]

    def f_copy(self, eng, st, c):
        v = self.content(eng, st, c.args[1])
        if '&&' in c.dem.split('(')[-1]:
            self.put(eng, st, c.args[1], 0)
            self.put(eng, st, c.args[0], v)
            return [(st, 'ret', c.args[0])]
        self.user_code(eng, st, c, v, 'copied')
        s2 = st.copy()
        self.put(eng, st, c.args[0], v)
        self.touched(eng, st, c.args[1], v)
        return [(st, 'ret', c.args[0]), (s2, 'throw', ('exc', 'bad_alloc'))]

    def touched(self, eng, st, p, v):
        pass

    def f_capture(self, eng, st, c):
        src = c.args[1]
        b = ('h', 'fn', st.frames[-1].ctx, c.id)
        st.mem.pop(b, None)
        if isinstance(src, tuple) and src[0] == 'p':
            st.mem[b] = {o - src[2]: v for o, v in st.mem.get(src[1], {}).items() if o >= src[2]}
        self.put(eng, st, c.args[0], ('p', b, 0))
        self.captured(eng, st, b, c)
        s2 = st.copy()
        self.put(eng, s2, c.args[0], 0)
        return [(st, 'ret', c.args[0]), (s2, 'throw', ('exc', 'bad_alloc'))]

    def captured(self, eng, st, b, c):
        pass

    def f_swap(self, eng, st, c):
        a, b = c.args[0], c.args[1]
        x, y = self.content(eng, st, a), self.content(eng, st, b)
        self.touched(eng, st, a, x)
        self.touched(eng, st, b, y)
        self.put(eng, st, a, y)
        self.put(eng, st, b, x)
        return [(st, 'ret', None)]

    def user_code(self, eng, st, c, v, what):
        pass

    def f_clear(self, eng, st, c):
        self.user_code(eng, st, c, self.content(eng, st, c.args[0]), 'destroyed')
        self.put(eng, st, c.args[0], 0)
        return [(st, 'ret', None)]

    def f_empty(self, eng, st, c):
        v = self.content(eng, st, c.args[0])
        return [(st, 'ret', ('cmp', 'eq', v, 0))]

    def f_nonempty(self, eng, st, c):
        v = self.content(eng, st, c.args[0])
        return [(st, 'ret', ('cmp', 'ne', v, 0))]

    def f_call(self, eng, st, c):
        return self.called(eng, st, c, self.content(eng, st, c.args[0]))

    fnhandlers = [
        (R(FN + r'(function0|function_n|function)\(\)'), f_default),
        (R(FN + r'~(function0|function_n|function)\(\)'), f_clear),
        (R(FN + r'(function0|function_n|function)\(boost::function[^)]*&&?\)$'), f_copy),
        (R(FN + r'operator=\(boost::function[^)]*&&?\)$'), f_copy),
        (R(FN + r'(function0|function_n|function)<.*\('), f_capture),
        (R(FN + r'operator=<.*\('), f_capture),
        (R(FN + r'swap\('), f_swap),
        (R(FN + r'clear\('), f_clear),
        (R(r'^boost::function_base::empty\(\)|' + FN + r'empty\(\)|' + FN + r'operator!\('), f_empty),
        (R(r'^boost::function_base::operator bool|' + FN + r'operator bool'), f_nonempty),
        (R(FN + r'operator\(\)\('), f_call),
    ]


class WorkerRule(FnModel, Mon):
    MACHINE = ('arg', 0)
    lists = ('queue',)
    new_throws = True
    widen_limit = 3

    def __init__(self, mod, kind, threads, prop=None, outer=None):
        Mon.__init__(self, mod, WorkerLayout(mod, threads, outer))
        self.MOFF = self.lay.base
        self.kind = kind
        self.threads = threads
        self.prop = prop
        self.counts = {}
        self.handlers = self.fnhandlers + self.whandlers + LibRule.handlers

    # -- state -------------------------------------------------------------------
    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}
        if self.kind in ('queue',):
            v = eng.load(st, ('p', ('arg', 1), 0), 'p', 8, None, ('item',))
            self.s(st, item=v)
        self.s(st, lk=0, ins=(), n=0, cnt=0, phase=1)
        if self.kind == 'run':
            self.s(st, mx=0 if self.defmax else args[1])
        elif self.kind == 'ctor':
            self.s(st, flag=args[1])

    def wild(self, eng, st):
        """other threads, or user code, may have used the worker"""
        c = st.mem.get(self.MACHINE, {})
        for o in list(c):
            r, d = self.lay.role_at(o - self.MOFF)
            if r == 'queue':
                del c[o]

    def locked(self, eng, st, what, loc):
        if self.threads and self.kind != 'ctor' and not self.g(st, 'lk'):
            self.rep(eng, st, 'C19', 'the work queue is accessed (%s) while the lock of the worker is not held' % what, loc)

    def on_store(self, eng, st, ptr, val, size, loc):
        r, d = self.role_of(ptr)
        if r == 'queue':
            self.locked(eng, st, 'write', loc)
        elif r == 'terminated':
            if self.kind != 'ctor' and self.g(st, 'phase') != 2:
                self.rep(eng, st, 'C18', 'the worker is marked as terminated although no terminate request is being executed', loc)
        elif r == 'wait' and self.kind != 'ctor':
            self.rep(eng, st, ('C18', 'C19'), 'the waiting mode of the worker is changed', loc)

    def on_load(self, eng, st, ptr, val, size, loc):
        r, d = self.role_of(ptr)
        if r == 'queue':
            self.locked(eng, st, 'read', loc)
        if isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[2] == 16 and self.is_node(eng, ptr[1]):
            self.locked(eng, st, 'element', loc)
        LibRule.on_load(self, eng, st, ptr, val, size, loc)

    def touched(self, eng, st, p, v):
        """the contents of an item are moved or copied"""
        if isinstance(p, tuple) and p[0] == 'p' and p[2] == 16 and p[1] == self.front(eng, st):
            self.s(st, taken=v)

    def user_code(self, eng, st, c, v, what):
        if self.g(st, 'lk') and eng.cmp(st, 'eq', v, 0) is not True:
            self.rep(eng, st, 'C19', 'a work item (caller\'s code) is %s while the lock is held' % what, c.loc)

    def front(self, eng, st):
        v = self.get(eng, st, 'queue', 0)
        return v[1] if isinstance(v, tuple) and v[0] == 'p' else None

    # -- queue events ----------------------------------------------------------------
    def ev(self, eng, st, kind, *d, loc=None):
        if kind == 'insert':
            role, where, val, node = d
            self.count('insertions')
            self.locked(eng, st, 'insertion', loc)
            if self.g(st, 'phase') == 2 or self.kind == 'run':
                self.rep(eng, st, 'C18', 'an item is queued although nobody asked for it', loc)
            if role != 'queue' or where != 'back':
                self.rep(eng, st, 'C18', 'a work item is not appended at the back of the queue', loc)
            self.s(st, ins=self.g(st, 'ins', ()) + ((node, 0),), n=min(3, self.g(st, 'n') + 1), pend=None if self.g(st, 'noted') else 1)
            if len(self.g(st, 'ins')) > 3:
                self.s(st, ins=self.g(st, 'ins')[:3])
        elif kind == 'remove':
            role, where, val, node = d
            self.count('removals')
            self.locked(eng, st, 'removal', loc)
            if self.kind != 'run':
                self.rep(eng, st, 'C18', 'a queued work item is removed', loc)
            if role != 'queue' or where != 'front':
                self.rep(eng, st, 'C18', 'the work item removed from the queue is not known to be its first one', loc)
                return
            if self.empty(eng, st, 'queue') is not False:
                self.rep(eng, st, ('C18', 'C19'), 'a work item is taken from the queue although the queue is not known to be non-empty', loc)
            if self.g(st, 'got') is not None:
                self.rep(eng, st, 'C18', 'a work item is taken from the queue although the previous one has not been executed', loc)
            if val == 0 or val is None or self.g(st, 'taken') is not None:
                val = self.g(st, 'taken')
            if val is None:
                self.rep(eng, st, 'C18', 'a work item is removed from the queue without being kept', loc)
                return
            self.s(st, got=val, taken=None, last=1)
        elif kind in ('transfer', 'lswap', 'lclear'):
            self.rep(eng, st, 'C18', 'work items are moved in or dropped from the queue other than one by one (%s)' % kind, loc)
        elif kind == 'lstore' and d[1] == 0 and self.kind != 'ctor':
            self.rep(eng, st, 'C18', 'the work queue is emptied', loc)

    def called(self, eng, st, c, v):
        self.count('executed items')
        if self.g(st, 'inrun'):
            self.rep(eng, st, 'C25', 'the worker goes on although a work item threw an exception', c.loc)
        eng.event(st, 'execute work item %s' % eng.show(v), c.loc)
        if self.g(st, 'lk'):
            self.rep(eng, st, 'C19', 'a work item is executed while the lock is held', c.loc)
        if self.kind != 'run':
            self.rep(eng, st, 'C18', 'a work item is executed although the worker was not called', c.loc)
            return [(st, 'stop', None)]
        got = self.g(st, 'got')
        if got is None or v != got:
            self.rep(eng, st, 'C18', 'something else than the work item taken from the front of the queue is executed, or it is executed again', c.loc)
        if eng.cmp(st, 'eq', v, 0) is not False:
            self.rep(eng, st, 'C18', 'an empty work item may be executed', c.loc)
        t = self.get(eng, st, 'terminated')
        if t is None or eng.cmp(st, 'eq', t, 0) is not True:
            self.rep(eng, st, 'C18', 'a work item is executed although a terminate request may have been processed', c.loc)
        cnt = self.g(st, 'cnt')
        if not self.unlimited(eng, st) and eng.cmp(st, 'ult', cnt, self.maxi(eng, st)) is not True:
            self.rep(eng, st, 'C18', 'a work item is executed although the given maximum may have been reached', c.loc)
        for s in [st]:
            self.wild(eng, s)
            st.mem.get(self.MACHINE, {}).pop(self.MOFF + self.lay.off['terminated'], None)
        self.s(st, got=None, last=None, seen0=None)
        s2 = st.copy()
        ncnt = self.plus(eng, st, cnt, 1)
        self.s(st, cnt=ncnt)
        self.s(s2, inrun=1)
        eng.event(s2, 'the work item throws', c.loc)
        return [(st, 'ret', None), (s2, 'throw', ('exc', 'user'))]

    def plus(self, eng, st, v, k):
        if isinstance(v, int):
            return v + k
        return ('p', v[1], v[2] + k)

    def maxi(self, eng, st):
        return self.g(st, 'mx')

    defmax = False

    def unlimited(self, eng, st):
        m = self.maxi(eng, st)
        return eng.cmp(st, 'eq', m, 0) is True

    def on_widen(self, eng, st, const, sym):
        c = self.g(st, 'cnt')
        if isinstance(c, int) and abs(c - const) <= 1:
            b = sym if isinstance(sym, tuple) else None
            self.s(st, cnt=('p', b[1], b[2] + c - const))

    def on_rebase(self, eng, st, old, new):
        c = self.g(st, 'cnt')
        if isinstance(c, tuple) and c[1] == old[1]:
            self.s(st, cnt=('p', new[1], new[2] + c[2] - old[2]))

    # -- locking -----------------------------------------------------------------------
    def is_mutex(self, p):
        r, d = self.role_of(p)
        return r == 'mutex'

    def h_lock(self, eng, st, c):
        if not self.is_mutex(c.args[0]):
            return [(st, 'ret', None)]
        self.count('lock acquisitions')
        eng.event(st, 'lock', c.loc)
        if self.g(st, 'lk'):
            self.rep(eng, st, 'C19', 'the lock is acquired while it is already held (deadlock)', c.loc)
            return [(st, 'stop', None)]
        self.wild(eng, st)
        self.s(st, lk=1, noted=None)
        return [(st, 'ret', None)]

    def h_trylock(self, eng, st, c):
        s2 = st.copy()
        r = self.h_lock(eng, st, c)
        return [(s, k, 1 if k == 'ret' else v) for s, k, v in r] + [(s2, 'ret', 0)]

    def check_inserted(self, eng, st, loc):
        for node, z in self.g(st, 'ins', ()):
            v = st.mem.get(node[1], {}).get(node[2] + 16) if isinstance(node, tuple) else None
            v = v[0] if v else None
            if v is None or eng.cmp(st, 'eq', v, 0) is not False:
                self.rep(eng, st, 'C18', 'an empty work item may be queued', loc)
            elif self.kind == 'queue' and v != self.g(st, 'item'):
                self.rep(eng, st, 'C18', 'something else than the given work item is queued', loc)
            elif self.kind == 'terminate':
                self.s(st, queued=v)
        self.s(st, ins=())

    def h_unlock(self, eng, st, c):
        if not self.is_mutex(c.args[0]):
            return [(st, 'ret', None)]
        eng.event(st, 'unlock', c.loc)
        if not self.g(st, 'lk'):
            self.rep(eng, st, 'C19', 'the lock is released while it is not held', c.loc)
        self.release(eng, st, c.loc)
        return [(st, 'ret', None)]

    def release(self, eng, st, loc):
        self.check_inserted(eng, st, loc)
        self.s(st, lk=0, noted=None, seen0=1 if self.empty(eng, st, 'queue') is True and self.g(st, 'last') is None else self.g(st, 'seen0'), taken=None)
        self.wild(eng, st)

    def h_notify(self, eng, st, c):
        r, d = self.role_of(c.args[0])
        if r == 'cond':
            self.count('notifications')
            eng.event(st, 'notify', c.loc)
            self.s(st, pend=None, noted=1 if self.g(st, 'lk') else None)
        return [(st, 'ret', None)]

    def h_wait(self, eng, st, c):
        r, d = self.role_of(c.args[0])
        if r != 'cond':
            return None
        self.count('waits')
        eng.event(st, 'wait', c.loc)
        lk = st.mem.get(c.args[1][1], {}).get(c.args[1][2]) if isinstance(c.args[1], tuple) and c.args[1][0] == 'p' else None
        if not self.g(st, 'lk') or (lk and not self.is_mutex(lk[0])):
            self.rep(eng, st, 'C19', 'the worker waits without holding its lock', c.loc)
        if self.empty(eng, st, 'queue') is not True:
            self.rep(eng, st, 'C19', 'the worker may wait although the queue is not empty', c.loc)
        w = self.get(eng, st, 'wait')
        if w is None or eng.cmp(st, 'eq', w, 0) is not False:
            self.rep(eng, st, ('C18', 'C19'), 'a worker that is not to wait on an empty queue may wait', c.loc)
        if self.g(st, 'got') is not None or self.kind != 'run':
            self.rep(eng, st, 'C19', 'the worker waits at the wrong place', c.loc)
        if self.g(st, 'pend'):
            self.rep(eng, st, 'C19', 'the worker waits before notifying others', c.loc)
        self.wild(eng, st)
        self.s(st, seen0=None)
        s2 = st.copy()      # interrupted; the lock has been re-acquired
        return [(st, 'ret', None), (s2, 'throw', ('exc', 'interrupted'))]

    def h_bind(self, eng, st, c):
        return None

    # -- user / harness functions ---------------------------------------------------------
    def on_unknown_call(self, eng, st, c):
        d = c.dem or ''
        if d.startswith('hook_phase2'):
            self.finish(eng, st, c.loc)
            self.s(st, phase=2, n=0)
            return [(st, 'ret', None)]
        m = re.match(r'^(pthread_|boost::(pthread|detail|thread|this_thread))', d)
        if m:
            return [(st, 'ret', 0)]
        return None

    def h_run_captured(self, eng, st, c):
        v = self.g(st, 'queued')
        if v is None:
            return [(st, 'stop', None)]
        t = self.targets.get(v[1])
        if t is None:
            return [(st, 'stop', None)]
        self.count('executed requests')
        return ('follow', t, [v])

    targets = None

    def captured(self, eng, st, b, c):
        # the callable's type is the first template argument of the constructor
        d = c.dem
        k = d.find('<', re.search(FN, d).end())
        n = 0
        e = None
        for j in range(k, len(d)):
            if d[j] == '<':
                n += 1
            elif d[j] == '>':
                n -= 1
                if n == 0:
                    e = j
                    break
            elif d[j] == ',' and n == 1:
                e = j
                break
        t = d[k + 1:e]
        if self.targets is None:
            self.targets = {}
        for f in self.mod.fns.values():
            if f.dem.startswith(t + '::operator()(') and not f.decl:
                self.targets[b] = f.name
            elif f.dem == t and not f.decl:
                self.targets[b] = f.name

    whandlers = [
        (R(r'^boost::mutex::lock\(\)|^std::mutex::lock\(\)'), h_lock),
        (R(r'^boost::mutex::try_lock\(\)|^std::mutex::try_lock\(\)'), h_trylock),
        (R(r'^boost::mutex::unlock\(\)|^std::mutex::unlock\(\)'), h_unlock),
        (R(r'^boost::condition_variable(_any)?::notify_(one|all)\('), h_notify),
        (R(r'^(void )?boost::condition_variable(_any)?::wait(<[^,]*(<[^,]*>)?>)?\([^,]*\)$'), h_wait),
        (R(r'^hook_run_captured'), h_run_captured),
        (R(r'^(boost::mutex|boost::condition_variable(_any)?)::~?\w+\(\)$'), lambda r, e, s, c: [(s, 'ret', None)]),
    ]

    # -- ends ------------------------------------------------------------------------------
    def finish(self, eng, st, loc):
        if self.g(st, 'lk'):
            self.rep(eng, st, 'C19', 'the lock is still held when the worker returns', loc)
        self.check_inserted(eng, st, loc)
        if self.g(st, 'pend') and self.threads:
            self.rep(eng, st, 'C19', 'a work item is queued without notifying a waiting worker', loc)
        n = self.g(st, 'n')
        if self.kind == 'queue':
            e = eng.cmp(st, 'eq', self.g(st, 'item'), 0)
            if e is True and n:
                self.rep(eng, st, 'C18', 'an empty work item is queued', loc)
            elif e is not True and n != 1:
                self.rep(eng, st, 'C18', 'queueing a work item adds %d items to the queue' % n, loc)
        elif self.kind == 'terminate' and self.g(st, 'phase') == 1:
            if n != 1:
                self.rep(eng, st, 'C18', 'a terminate request adds %d items to the queue' % n, loc)
        elif n:
            self.rep(eng, st, 'C18', 'an item is queued although nobody asked for it', loc)

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if self.g(st, 'inrun'):
            self.rep(eng, st, 'C25', 'an exception thrown by a work item is swallowed by the worker', loc)
        self.finish(eng, st, loc)
        if self.kind == 'terminate':
            t = self.get(eng, st, 'terminated')
            if t is None or eng.cmp(st, 'eq', t, 0) is not False:
                self.rep(eng, st, 'C18', 'executing the item queued by terminate() does not terminate the worker', loc)
        elif self.kind == 'terminated':
            t = self.get(eng, st, 'terminated')
            if t is None or rv is None or self.same_truth(eng, st, rv, t) is not True:
                self.rep(eng, st, 'C18', 'terminated() does not tell whether a terminate request has been processed', loc)
        elif self.kind == 'ctor':
            t = self.get(eng, st, 'terminated')
            if t is None or eng.cmp(st, 'eq', t, 0) is not True:
                self.rep(eng, st, 'C18', 'a new worker may be terminated from the start', loc)
            if self.empty(eng, st, 'queue') is not True:
                self.rep(eng, st, 'C18', 'a new worker does not start with an empty queue', loc)
            if self.threads:
                w = self.get(eng, st, 'wait')
                if w is None or self.same_truth(eng, st, w, self.g(st, 'flag')) is not True:
                    self.rep(eng, st, ('C18', 'C19'), 'a new worker does not wait on an empty queue exactly when asked to', loc)
        elif self.kind == 'run':
            if self.g(st, 'got') is not None:
                self.rep(eng, st, 'C18', 'a work item is taken from the queue but not executed', loc)
            cnt = self.g(st, 'cnt')
            if rv != cnt and (rv is None or eng.cmp(st, 'eq', rv, cnt) is not True):
                self.rep(eng, st, 'C18', 'the returned number is not that of the work items executed by this call (%s instead of %s)' % (eng.show(rv), eng.show(cnt)), loc)
            t = self.get(eng, st, 'terminated')
            why = None
            if t is not None and eng.cmp(st, 'eq', t, 0) is False:
                why = 'terminated'
            elif eng.cmp(st, 'eq', self.maxi(eng, st), 0) is False and eng.cmp(st, 'ult', cnt, self.maxi(eng, st)) is False:
                why = 'maximum'
            else:
                emp = self.g(st, 'seen0') if self.threads else self.empty(eng, st, 'queue') is True
                w = self.get(eng, st, 'wait') if self.threads else 0
                if emp and (not self.threads or (w is not None and eng.cmp(st, 'eq', w, 0) is True)):
                    why = 'empty'
            if why is None:
                self.rep(eng, st, 'C18', 'the worker returns although there may be work, the maximum is not reached and no terminate request was processed', loc)
            else:
                self.count('returns: ' + why)

    def same_truth(self, eng, st, a, b):
        if a == b or a == ('cmp', 'ne', b, 0) or b == ('cmp', 'ne', a, 0):
            return True
        x, y = eng.truth(st, a), eng.truth(st, b)
        if x is not None and y is not None:
            return x == y
        return None

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        if self.g(st, 'lk'):
            self.rep(eng, st, 'C19', 'the lock is still held when an exception leaves the worker', loc)
        for node, z in self.g(st, 'ins', ()):
            self.check_inserted(eng, st, loc)
        if self.g(st, 'pend') and self.threads:
            self.rep(eng, st, 'C19', 'a work item is queued without notifying a waiting worker', loc)
        if self.g(st, 'got') is not None:
            self.rep(eng, st, 'C18', 'a work item is lost when an exception leaves the worker', loc)

    def on_throw(self, eng, st, c):
        self.rep(eng, st, 'C25', 'the library throws an exception of its own', c.loc)


class AsyncRule(Mon):
    """one request to a scheduler, and the execution of the work item it
    queues (C20; the lifetime of events: C15)"""
    MACHINE = ('arg', 0)
    lists = ()
    new_throws = True

    def __init__(self, mod, kind, prop=None, nargs=0, ref=False):
        self.mod = mod
        self.lay = None
        self.kind = kind
        self.prop = prop
        self.nargs = nargs
        self.ref = ref
        self.counts = {}

    def role_of(self, ptr):
        return None, None

    def is_node(self, eng, b, depth=0):
        return False

    weak = None

    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}
        self.s(st, phase=1, q=0, refs=0)
        if self.kind == 'create':
            self.s(st, exp=tuple(args[i] for i in range(2, 2 + self.nargs)))
        elif self.kind in ('initiate', 'terminate', 'destroy', 'event'):
            px = eng.load(st, ('p', ('arg', 1), 0), 'p', 8, None, ('px',))
            pi = eng.load(st, ('p', ('arg', 1), 8), 'p', 8, None, ('pi',))
            self.s(st, px=px, pi=pi)
            if self.kind == 'event':
                e = eng.load(st, ('p', ('arg', 2), 0), 'p', 8, None, ('evt',))
                eng.assume(st, ('cmp', 'ne', e, 0), True)
                # the caller's pointer holds a reference
                o = field_offset(self.mod, r'^boost::statechart::event_base$', 'count_')
                if o is not None and isinstance(e, tuple) and e[0] == 'p':
                    n = ('s', 'evtcnt', 0, 0)
                    eng.put(st, e[1], e[2] + o, ('p', n, 0), 4)
                    eng.assume(st, ('cmp', 'sgt', ('p', n, 0), 0), True)
                self.s(st, evt=e)

    def on_store(self, eng, st, ptr, val, size, loc):
        pass

    def on_load(self, eng, st, ptr, val, size, loc):
        pass

    # -- queue ---------------------------------------------------------------------
    def h_queue(self, eng, st, c):
        if self.kind == 'item':
            self.count('forwarded items')
            w = st.mem.get(('arg', 1), {}).get(0)
            if not w or c.args[1] != w[0]:
                self.rep(eng, st, ('C20', 'C18'), 'the scheduler queues something else than the given work item', c.loc)
        if self.g(st, 'phase') == 2:
            self.rep(eng, st, 'C20', 'executing a request queues another one', c.loc)
        self.count('queued items')
        self.s(st, q=min(3, self.g(st, 'q') + 1), item=c.args[1])
        return [(st, 'ret', None)]

    def h_captured(self, eng, st, c):
        v = self.g(st, 'item')
        if v is None:
            self.rep(eng, st, 'C20', 'a request does not queue a work item', c.loc)
            return [(st, 'stop', None)]
        self.s(st, item=None)
        return [(st, 'ret', v)]

    def h_phase2(self, eng, st, c):
        if self.g(st, 'q') != 1:
            self.rep(eng, st, 'C20', 'a request queues %s work items' % self.g(st, 'q'), c.loc)
        if self.kind == 'create':
            px = st.mem.get(('arg', 1), {}).get(0)
            pi = st.mem.get(('arg', 1), {}).get(8)
            self.s(st, px=px[0] if px else None, pi=pi[0] if pi else None)
        if self.kind == 'event' and self.g(st, 'refs') < 1:
            self.rep(eng, st, ('C20', 'C15'), 'an event queued for a processor is not kept alive', c.loc)
        self.s(st, phase=2)
        eng.event(st, 'the work item is executed later', c.loc)
        # the caller's objects are gone by then
        for b in (('arg', 1), ('arg', 2)):
            if not self.ref:
                st.mem.pop(b, None)
        return [(st, 'ret', None)]

    # -- reference counts -----------------------------------------------------------
    def h_lockref(self, eng, st, c):
        a = self.g(st, 'alive')
        if c.args[0] != self.g(st, 'pi'):
            return [(st, 'ret', 1)]
        if self.g(st, 'phase') == 1:
            return [(st, 'ret', eng.fresh(st, 'alive1', st.frames[-1].ctx, c.id))]
        if a is not None:
            return [(st, 'ret', a)]
        s2 = st.copy()
        self.s(st, alive=1)
        eng.event(st, 'the processor exists', c.loc)
        self.s(s2, alive=0)
        eng.event(s2, 'the processor does not exist any more', c.loc)
        return [(st, 'ret', 1), (s2, 'ret', 0)]

    def h_nop(self, eng, st, c):
        return [(st, 'ret', None)]

    def h_evref(self, eng, st, c):
        if c.args[0] == self.g(st, 'evt'):
            d = 1 if 'add_ref' in c.dem else -1
            self.s(st, refs=max(-3, min(9, self.g(st, 'refs') + d)))
            if self.g(st, 'refs') < 0:
                self.rep(eng, st, ('C20', 'C15'), 'the reference to the queued event is released once too often', c.loc)
        return [(st, 'ret', None)]

    # -- the container's set ----------------------------------------------------------
    def h_set(self, eng, st, c):
        m = re.search(r'>::(\w+|~\w+)(<.*>)?\(', c.dem[c.dem.rfind('>>::') if c.dem.rfind('>>::') >= 0 else 0:])
        fn = m.group(1) if m else '?'
        if fn in ('end', 'begin', 'set', 'size', 'empty', 'key_comp'):
            if fn in ('end', 'begin'):
                return [(st, 'ret', ('p', ('o', 'setend'), 0))]
            if fn in ('size', 'empty'):
                return [(st, 'ret', eng.fresh(st, 'sz', st.frames[-1].ctx, c.id))]
            return [(st, 'ret', None)]
        if fn == '~set':
            self.count('container destroyed')
            if self.kind != 'sdtor':
                self.rep(eng, st, 'C20', 'all processors are destroyed although the scheduler lives on', c.loc)
            self.s(st, dtor=1)
            return [(st, 'ret', None)]
        key = None
        for a in c.args[1:]:
            if isinstance(a, tuple) and a[0] == 'p':
                v = st.mem.get(a[1], {}).get(a[2])
                key = v[0] if v else None
                if a[1][0] == 'o' and a[1][1] == 'setit':
                    key = a[1][2]
                break
        if self.g(st, 'phase') == 1:
            self.rep(eng, st, 'C20', 'a request changes the set of processors at once', c.loc)
        if fn in ('find', 'count', 'contains', 'lower_bound'):
            s2 = st.copy()
            if fn in ('count', 'contains'):
                return [(st, 'ret', 1), (s2, 'ret', 0)]
            return [(st, 'ret', ('p', ('o', 'setit', key), 0))]
        eng.event(st, 'processor set: %s(%s)' % (fn, eng.show(key) if key else '?'), c.loc)
        self.count('set changes')
        ok = key is not None and key == self.g(st, 'px')
        if fn in ('insert', 'emplace', 'emplace_hint'):
            if self.kind != 'create':
                self.rep(eng, st, 'C20', 'a request other than a creation registers a processor', c.loc)
            elif not ok:
                self.rep(eng, st, 'C20', 'the created processor is registered under another handle than the returned one', c.loc)
            elif self.g(st, 'inset'):
                self.rep(eng, st, 'C20', 'a processor is registered twice', c.loc)
            s2 = st.copy()
            self.s(st, inset=1)
            return [(st, 'ret', TOP), (s2, 'throw', ('exc', 'bad_alloc'))]
        if fn == 'erase':
            if not (self.kind == 'destroy' and ok):
                if not (self.kind == 'create' and ok and self.g(st, 'inset')):
                    self.rep(eng, st, 'C20', 'a processor is destroyed that is not the one to be destroyed', c.loc)
                self.s(st, inset=None)
            else:
                if self.g(st, 'erased'):
                    self.rep(eng, st, 'C20', 'a processor is destroyed twice', c.loc)
                self.s(st, erased=1)
            return [(st, 'ret', TOP)]
        self.rep(eng, st, 'C20', 'the set of processors is changed as a whole (%s)' % fn, c.loc)
        return [(st, 'ret', TOP)]

    # -- processors --------------------------------------------------------------------
    def on_unknown_call(self, eng, st, c):
        if not (c.dem or '').startswith('hook_construct'):
            return None
        self.count('constructions')
        eng.event(st, 'construct the processor', c.loc)
        n, self_, sched, h = c.args[:4]
        if self.g(st, 'phase') == 1:
            self.rep(eng, st, 'C20', 'a processor is constructed by the caller of create_processor instead of the worker', c.loc)
        if self.g(st, 'made') is not None:
            self.rep(eng, st, 'C20', 'a processor is constructed more than once', c.loc)
        if n != self.nargs or tuple(c.args[4:4 + self.nargs]) != self.g(st, 'exp'):
            if not (n == self.nargs and all(self.sameval(eng, st, a, b) for a, b in zip(c.args[4:4 + self.nargs], self.g(st, 'exp')))):
                self.rep(eng, st, 'C20', 'a processor is not constructed with the given arguments in their order', c.loc)
        if sched != ('p', self.MACHINE, 0):
            self.rep(eng, st, 'C20', 'a new processor does not know its scheduler', c.loc)
        hp = st.mem.get(h[1], {}).get(h[2]) if isinstance(h, tuple) and h[0] == 'p' else None
        if not hp or hp[0] != self.g(st, 'px'):
            self.rep(eng, st, 'C20', 'a new processor does not know its handle', c.loc)
        s2 = st.copy()
        self.s(st, made=self_)
        self.s(s2, failed=1)
        eng.event(s2, 'the constructor throws', c.loc)
        return [(st, 'ret', None), (s2, 'throw', ('exc', 'user'))]

    def sameval(self, eng, st, a, b):
        return a == b or eng.cmp(st, 'eq', a, b) is True

    VM = {'initiate_impl': 'initiate', 'terminate_impl': 'terminate', 'process_event_impl': 'event'}

    def vcall(self, eng, st, c):
        if (c.method or '').startswith('~') or c.method in ('dispose', 'destroy', 'get_deleter'):
            if self.g(st, 'made') is not None and c.args[0] == self.g(st, 'made') and self.g(st, 'phase') == 2:
                self.s(st, killed=1)
            return [(st, 'ret', None)]
        k = self.VM.get(c.method)
        if c.method == 'clone' and len(c.args) == 2:
            self.rep(eng, st, ('C15', 'C20'), 'an event managed by a reference-counting pointer is copied instead of shared', c.loc)
            v = eng.fresh(st, 'clone', st.frames[-1].ctx, c.id)
            eng.assume(st, ('cmp', 'ne', v, 0), True)
            eng.store(st, c.args[0], v, 'p', 8)
            return [(st, 'ret', None), (st.copy(), 'throw', ('exc', 'user'))]
        if k is None:
            return None
        self.count('processor operations')
        eng.event(st, 'processor operation: %s' % k, c.loc)
        if self.g(st, 'phase') == 1:
            self.rep(eng, st, 'C20', 'a request acts on the processor at once', c.loc)
        if k != self.kind:
            self.rep(eng, st, 'C20', 'the operation %s is performed on the processor instead of %s' % (k, self.kind), c.loc)
        elif self.g(st, 'did'):
            self.rep(eng, st, 'C20', 'the requested operation is performed twice', c.loc)
        px = self.g(st, 'px')
        o = st.mem.get(px[1], {}).get(px[2]) if isinstance(px, tuple) and px[0] == 'p' else None
        if not o or o[0] != c.args[0] or self.g(st, 'alive') != 1:
            self.rep(eng, st, 'C20', 'the requested operation is not performed on the processor denoted by the handle', c.loc)
        if k == 'event' and (len(c.args) < 2 or c.args[1] != self.g(st, 'evt')):
            self.rep(eng, st, ('C20', 'C15'), 'something else than the queued event is processed', c.loc)
        if k == 'event' and self.g(st, 'refs') < 1:
            self.rep(eng, st, ('C20', 'C15'), 'the event is not kept alive while it is processed', c.loc)
        s2 = st.copy()
        self.s(st, did=1)
        self.s(s2, did=1)
        return [(st, 'ret', None), (s2, 'throw', ('exc', 'user'))]

    def on_delete(self, eng, st, p, c):
        if p == self.g(st, 'made') and not self.g(st, 'failed') and self.g(st, 'made') is not None:
            self.s(st, killed=1)

    # -- asynchronous_state_machine -----------------------------------------------------
    def h_wterm(self, eng, st, c):
        self.count('worker terminations')
        self.s(st, wt=min(2, self.g(st, 'wt', 0) + 1))
        if self.kind != 'stop':
            self.rep(eng, st, 'C20', 'the worker is terminated', c.loc)
        return [(st, 'ret', None)]

    handlers = [
        (R(r'^hook_queue'), h_queue), (R(r'^hook_captured'), h_captured), (R(r'^hook_phase2'), h_phase2), (R(r'^hook_wterminate'), h_wterm),
        (R(r'^boost::detail::sp_counted_base::add_ref_lock\('), h_lockref),
        (R(r'^boost::detail::sp_counted_base::use_count\('), h_lockref),
        (R(r'^boost::detail::sp_counted_base::(add_ref_copy|release|weak_add_ref|weak_release)\('), h_nop),
        (R(r'intrusive_ptr_(add_ref|release)\(boost::statechart::event_base const\*\)'), h_evref),
        (R(r'^std::set<boost::shared_ptr<'), h_set),
    ]

    # -- ends ---------------------------------------------------------------------------
    def common(self, eng, st, loc):
        if self.kind == 'event' and self.g(st, 'phase') == 2 and self.g(st, 'item') is None:
            pass

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        k = self.kind
        if k == 'create':
            if self.g(st, 'made') is None:
                self.rep(eng, st, 'C20', 'executing a creation request does not construct the processor', loc)
            else:
                px = self.g(st, 'px')
                o = st.mem.get(px[1], {}).get(px[2]) if isinstance(px, tuple) and px[0] == 'p' else None
                if not self.g(st, 'inset'):
                    self.rep(eng, st, 'C20', 'a new processor is not registered with the scheduler, so it dies with the request', loc)
                elif self.g(st, 'killed'):
                    self.rep(eng, st, 'C20', 'a new processor is destroyed although nobody asked for it', loc)
                elif not o or not self.points(o[0], self.g(st, 'made')):
                    self.rep(eng, st, 'C20', 'the returned handle does not denote the new processor', loc)
            if self.g(st, 'px') is None:
                self.rep(eng, st, 'C20', 'no handle is returned', loc)
        elif k in ('initiate', 'terminate', 'event'):
            if self.g(st, 'alive') is None:
                pi = self.g(st, 'pi')
                if pi is None or eng.cmp(st, 'eq', pi, 0) is not True:
                    self.rep(eng, st, 'C20', 'a request is executed without looking for its processor', loc)
            elif self.g(st, 'alive') == 1 and not self.g(st, 'did'):
                px = self.g(st, 'px')
                if eng.cmp(st, 'eq', px, 0) is not True:
                    o = st.mem.get(px[1], {}).get(px[2]) if isinstance(px, tuple) else None
                    if not (o and eng.cmp(st, 'eq', o[0], 0) is True):
                        self.rep(eng, st, 'C20', 'a request is not performed although its processor exists', loc)
            if k == 'event' and self.g(st, 'refs') != 0:
                self.rep(eng, st, ('C20', 'C15'), 'the reference to an event queued for a processor is leaked', loc)
        elif k == 'destroy':
            if self.g(st, 'alive') == 1 and not self.g(st, 'erased') and eng.cmp(st, 'eq', self.g(st, 'px'), 0) is not True:
                self.rep(eng, st, 'C20', 'a processor is not destroyed although this was requested', loc)
        elif k == 'item':
            if self.g(st, 'q') != 1:
                self.rep(eng, st, ('C20', 'C18'), 'the scheduler queues %s items for one given' % self.g(st, 'q'), loc)
        elif k == 'stop':
            if self.g(st, 'wt') != 1:
                self.rep(eng, st, ('C20', 'C18'), 'terminate() of the scheduler does not terminate its worker exactly once', loc)
        elif k == 'sdtor':
            if self.g(st, 'dtor') != 1:
                self.rep(eng, st, 'C20', 'the processors do not die with their scheduler', loc)

    def points(self, a, b):
        return a == b or (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p' and a[1] == b[1])

    def on_unwind(self, eng, st, loc):
        self.count('exceptional returns')
        if self.kind == 'create' and self.g(st, 'inset') and self.g(st, 'phase') == 2 and self.g(st, 'failed'):
            self.rep(eng, st, 'C20', 'a processor that could not be created stays registered with the scheduler', loc)

    def on_begin_catch(self, eng, st, c):
        pass

    def on_throw(self, eng, st, c):
        self.rep(eng, st, 'C25', 'the library throws an exception of its own', c.loc)


class AsmRule(Mon):
    """asynchronous_state_machine forwards the operations to its machine"""
    MACHINE = ('arg', 0)
    lists = ()

    def __init__(self, mod, op, prop=None):
        self.mod = mod; self.lay = None; self.op = op; self.prop = prop; self.counts = {}

    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}
        self.s(st, n=0)

    def role_of(self, ptr):
        return None, None

    def is_node(self, eng, b, depth=0):
        return False
    weak = None

    def on_store(self, eng, st, ptr, val, size, loc):
        pass

    def on_load(self, eng, st, ptr, val, size, loc):
        pass

    def vcall(self, eng, st, c):
        if c.method not in ('initiate_impl', 'process_event_impl', 'terminate_impl'):
            return None
        # the final overrider in the asynchronous machine: prefer the thunk
        rx = r'boost::statechart::asynchronous_state_machine<AM,.*>::%s\(' % c.method
        t = [f for f in self.mod.fns.values() if f.dem.startswith('non-virtual thunk') and re.search(rx, f.dem) and not f.decl]
        d = [f for f in self.mod.fns.values() if re.match('^' + rx, f.dem) and not f.decl]
        off = c.args[0][2] if isinstance(c.args[0], tuple) and c.args[0][0] == 'p' else 0
        f = (t if off and t else d)[0]
        return f.name

    def h_op(self, eng, st, c):
        k = re.search(r'::(initiate|terminate|process_event)\(', c.dem).group(1)
        self.count('machine operations')
        eng.event(st, 'machine operation %s' % k, c.loc)
        if k != self.op:
            self.rep(eng, st, 'C20', 'the machine performs %s instead of %s' % (k, self.op), c.loc)
        if c.args[0] != ('p', ('arg', 0), 0):
            self.rep(eng, st, 'C20', 'the operation is performed on another machine', c.loc)
        if k == 'process_event' and c.args[1] != ('p', ('arg', 1), 0):
            self.rep(eng, st, 'C20', 'another event is processed', c.loc)
        self.s(st, n=min(3, self.g(st, 'n') + 1))
        s2 = st.copy()
        return [(st, 'ret', None), (s2, 'throw', ('exc', 'user'))]

    handlers = [(R(r'^boost::statechart::state_machine<AM,.*>::(initiate|terminate|process_event)\('), h_op)]

    def on_unknown_call(self, eng, st, c):
        return None

    def on_return(self, eng, st, rv, loc):
        self.count('normal returns')
        if self.g(st, 'n') != 1:
            self.rep(eng, st, 'C20', 'the machine performs the operation %s times' % self.g(st, 'n'), loc)
        if self.g(st, 'caught'):
            self.rep(eng, st, ('C20', 'C25'), 'an exception is swallowed on its way out of the machine', loc)

    def on_begin_catch(self, eng, st, c):
        self.s(st, caught=1)

    def on_rethrow(self, eng, st, c):
        self.s(st, caught=None)

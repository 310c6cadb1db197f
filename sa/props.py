"""Which obligations decide which property."""
import os
from driver import Ob, PyOb, ModOb
from lib import *
from machine_rules import *
from state_rules import *
from op_rules import *
from async_rules import *
from type_rules import *
from scan_rules import *
from query_rules import *
from result_rules import *
from access_rules import *
from alloc_rules import *
import charts, itertools, witness
from charts import T1, T2, T3, T4, T5, T6
import build
from engine import Engine
H = build.VERIF + '/harness/'
NULLX = '-DXLATE=sc::null_exception_translator'
REL = '-DNDEBUG'

TITLES = {}


def titles():
    import json
    for l in open(build.VERIF + '/properties.jsonl'):
        d = json.loads(l)
        TITLES[d['id']] = d['title']
    return TITLES


def mrule(kind, prop, native=False):
    return lambda m: MachineRule(m, Layout(m), kind, prop, native)


EXPECT = {'process_event': ('dispatches', 'react calls', 'dequeues', 'unconsumed calls', 'deferral inserts', 'exceptional returns'),
          'initiate': ('dispatches', 'initial entries', 'clears'), 'terminate': ('clears', 'exit calls'), 'dtor': ('clears', 'exit calls')}


def core(prop, kinds, tier, configs=None):
    cf = configs or ([('null translator', [REL, NULLX]), ('exception translator', [REL])])
    if tier == 'thorough':
        cf = cf + [('debug, exception translator', []), ('debug, null translator', [NULLX]), ('native rtti', [REL, '-DBOOST_STATECHART_USE_NATIVE_RTTI']),
                   ('single-threaded', [REL, '-DBOOST_DISABLE_THREADS', '-DBOOST_SP_DISABLE_THREADS']), ('c++11', [REL, '-std=c++11']), ('c++20', [REL, '-std=c++20'])]
    out = []
    for cn, fl in cf:
        for k in kinds:
            out.append(Ob('%s [%s]' % (k, cn), H + 'core.cpp', fl, 'entry_' + k, mrule(k, prop, '-DBOOST_STATECHART_USE_NATIVE_RTTI' in fl), EXPECT[k]))
    return out


def post(prop, tier):
    out = []
    for cn, fl in [('release', [REL])] + ([('debug', []), ('native rtti', [REL, '-DBOOST_STATECHART_USE_NATIVE_RTTI'])] if tier == 'thorough' else []):
        out.append(Ob('post_event(ptr) [%s]' % cn, H + 'core.cpp', fl, 'entry_post_event_ptr', lambda m: PostRule(m, Layout(m), prop, deref=True), ('normal returns',)))
        out.append(Ob('post_event(ref) [%s]' % cn, H + 'core.cpp', fl, 'entry_post_event_ref', lambda m: PostRule(m, Layout(m), prop), ('normal returns',)))
    return out


RELAX = '-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT'


def transits(prop, ch, tier, relax=False, hist=False, acts=True, flags=(REL,), step=1, normal=True):
    """transitions of a generated chart: one per distinct shape (quick) or all"""
    prs = (charts.pairs(ch) if normal else []) + (charts.histpairs(ch) if hist else [])
    ents = charts.transit_src(ch, prs, relax)[1]
    if not acts:
        ents = [e for e in ents if e[3] is None]
    if tier != 'thorough':
        ents = charts.shapes(ch, ents)[::step]
    out = []
    per = 170
    fl = tuple(flags) + ((RELAX,) if relax else ())
    for k in range(0, len(ents), per):
        part = ents[k:k + per]
        src = charts.gen('transit-%s%s' % (ch.name, '-relax' if relax else ''), ch.cpp('\n'.join(charts.entry_text(ch, e) for e in part)))
        for n, s, d, act in part:
            out.append(Ob('%s %s -> %s, action %s%s %s' % (ch.name, s, ' '.join(d) if isinstance(d, tuple) else d, 'none' if act is None else (act or 'machine'),
                          ' (relaxed)' if relax else '', ' '.join(flags)), src, fl, n,
                          lambda m, s=s, d=d, act=act: TransitRule(m, Layout(m), ch, s, d, act, prop, relax), ('exit calls', 'states entered')))
    return out


def entries(prop, ch, flags=(REL,)):
    """deep construction of every state in its context"""
    src = charts.gen('exit-' + ch.name, ch.cpp(charts.exit_src(ch)))
    return [Ob('%s entry of %s %s' % (ch.name, s, ' '.join(flags)), src, flags, 'entry_new_' + s,
               lambda m, s=s: ResumeRule(m, Layout(m), ch, ch.st[s].ctx, ch.deep(s), prop), ('states entered',)) for s in ch.order]


def exit_cases(ch, s, tier):
    chain = [s] + [c for c in ch.ctxs(s) if c]
    stops = [()] + [(x,) for x in chain[1:]]
    for ot in stops:
        for u in ['', 'X'] + chain:
            for full in (1, 0):
                yield ot, u, full


def exits(prop, ch, tier, flags=(REL,), step=1):
    src = charts.gen('exit-' + ch.name, ch.cpp(charts.exit_src(ch)))
    out = []
    for s in ch.order:
        for ot, u, full in list(exit_cases(ch, s, tier))[::step]:
            out.append(Ob('%s exit of %s, kept alive: %s, unstable: %s, %s %s' % (ch.name, s, ot[0] if ot else 'none', u or 'none', 'regular' if full else 'not regular', ' '.join(flags)),
                          src, flags, 'entry_exit_' + s, lambda m, s=s, ot=ot, u=u, full=full: ExitRule(m, Layout(m), ch, s, ot, u, full, prop),
                          ('destructors',)))
    return out


def history_of(m, prop, ch, s, tier):
    """what exits of s record, and what entering the recorded functions does"""
    lay = Layout(m)
    vio = []
    cnt = {}
    steps = 0
    fns = set()

    def go(r, entry, also=None):
        nonlocal steps
        e = Engine(m, r, entry)
        e.run()
        steps += e.steps
        for k, v in r.counts.items():
            cnt[k] = cnt.get(k, 0) + v
        for f in e.fns_seen:
            if m.fns[f].file and 'statechart' in m.fns[f].file:
                fns.add(m.fns[f].diname or f)
        for v in e.violations:
            v = dict(v)
            if also and v['rule'] in ('C05', 'C07', 'C24', 'C09'):
                v['message'] = also + ': ' + v['message']
                v['rule'] = prop
            if v['rule'] == prop:
                vio.append(v)
    stored = {}
    cnt['history records'] = 0
    for ot, u, full in exit_cases(ch, s, tier):
        r = ExitRule(m, lay, ch, s, ot, u, full, prop)
        go(r, 'entry_exit_' + s)
        for k, v in r.stored.items():
            stored.setdefault(k, set()).update(v)
    for (mp, key, x), fs in sorted(stored.items()):
        if x is None or '/' not in key:
            continue
        c = key.split('/')[0]
        if c not in ch.st:
            continue
        items = ch.deep(x) if mp == 'shallow' else ch.along(ch.path(x, c))
        for f in sorted(fs):
            cnt['recorded entry functions'] = cnt.get('recorded entry functions', 0) + 1
            r = ResumeRule(m, lay, ch, c, items)
            go(r, f, 'what is recorded as the %s history of %s when %s is exited' % (mp, key, x))
    cnt['_fns'] = fns
    cnt['_steps'] = steps
    return vio, cnt


def histories(prop, ch, tier, flags=(REL,)):
    src = charts.gen('exit-' + ch.name, ch.cpp(charts.exit_src(ch)))
    return [ModOb('%s history recorded by exits of %s %s' % (ch.name, s, ' '.join(flags)), src, flags, history_of, prop, ch, s, tier) for s in ch.order]


def clears(prop, ch, flags=(REL,)):
    b, ents = charts.clear_src(ch)
    src = charts.gen('clear-' + ch.name, ch.cpp(b))
    return [Ob('%s clear %s history of %s through %s %s' % (ch.name, k, key, s, ' '.join(flags)), src, flags, n,
               lambda m, s=s, k=k, key=key: ClearRule(m, Layout(m), ch, s, k, key, prop, via_machine=s == 'M'), ('normal returns',)) for n, k, key, s in ents]


def removals(prop, ch, flags=(REL,)):
    src = charts.gen('ops-' + ch.name, ch.cpp(charts.ops_src(ch)))
    out = []
    for s in ch.order:
        k = len(ch.st[s].regions)
        if k:
            for occ in itertools.product((0, 1), repeat=k):
                out.append(Ob('%s removal of %s with inner states in %s %s' % (ch.name, s, [i for i in range(k) if occ[i]], ' '.join(flags)), src, flags, 'entry_rm_' + s,
                              lambda m, s=s, occ=occ: RemoveRule(m, Layout(m), ch, s, occ, prop), ('inner exits',) if any(occ) else ('own exits',)))
        else:
            for last in (0, 1):
                out.append(Ob('%s removal of %s%s %s' % (ch.name, s, ' (last in the list)' if last else '', ' '.join(flags)), src, flags, 'entry_rm_' + s,
                              lambda m, s=s, last=last: LeafRemoveRule(m, Layout(m), ch, s, last, prop), ('own exits',)))
    return out


def terminations(prop, ch, flags=(REL,)):
    src = charts.gen('ops-' + ch.name, ch.cpp(charts.ops_src(ch)))
    return [Ob('%s terminate() in %s %s' % (ch.name, s, ' '.join(flags)), src, flags, 'entry_term_' + s, lambda m, s=s: TerminateRule(m, Layout(m), ch, s, prop), ('exit calls',)) for s in ch.order]


def reactions(prop, ch, flags=(REL,)):
    b, ents = charts.react_src(ch)
    src = charts.gen('react-' + ch.name, ch.cpp(b))
    out = [Ob('reactions of %s to %s %s' % (s, ev, ' '.join(flags)), src, flags, n, lambda m, s=s, ev=ev: ReactRule(m, Layout(m), ch, s, ev, prop), ('normal returns',)) for n, s, ev in ents]
    for s in ch.order:
        for w, k in ((3, 'defer'), (2, 'discard'), (1, 'forward')):
            out.append(Ob('%s_event() in %s %s' % (k, s, ' '.join(flags)), src, flags, 'entry_%s_%s' % (k, s), lambda m, s=s, w=w: ResultRule(m, Layout(m), ch, s, w, prop), ('normal returns',)))
    return out


NATIVE = '-DBOOST_STATECHART_USE_NATIVE_RTTI'


def c01(t): return core('C01', ['process_event', 'initiate', 'terminate'], t) + post('C01', t) + accesses('C01', T1, kinds=('post',)) + exits('C01', T1, t)
def c02(t): return core('C02', ['process_event', 'initiate'], t) + reactions('C02', T4) + removals('C02', T1)


def c03(t):
    out = core('C03', ['process_event', 'initiate'], t) + reactions('C03', T4) + reactions('C03', T4, (REL, NATIVE)) + reactions('C03', T4, ())
    if t == 'thorough':
        out += reactions('C03', T4, (NATIVE,)) + reactions('C03', T4, (REL, RELAX))
    return out


def c04(t):
    return core('C04', ['process_event', 'initiate'], t) + reactions('C04', T4) + exits('C04', T1, t) + exits('C04', T2, t, step=1)


def c05(t):
    out = core('C05', ['initiate'], t) + entries('C05', T6) + transits('C05', T6, t, acts=t == 'thorough', hist=True) + entries('C05', T5) + transits('C05', T5, t, acts=t == 'thorough') + entries('C05', T1) + entries('C05', T2) + entries('C05', T3) + transits('C05', T1, t, acts=t == 'thorough') + transits('C05', T3, t, hist=True, acts=False)
    if t == 'thorough':
        out += entries('C05', T1, ()) + entries('C05', T3, ()) + transits('C05', T1, t, relax=True) + transits('C05', T2, 'quick', hist=True)
        out += transits('C05', T1, 'quick', flags=()) + transits('C05', T1, 'quick', flags=(REL, NATIVE))
    return out


def c06(t):
    th = t == 'thorough'
    out = core('C06', ['process_event', 'initiate', 'terminate', 'dtor'], t) + exits('C06', T1, t) + exits('C06', T2, t, step=1) + removals('C06', T1) + removals('C06', T3) + removals('C06', T5) + entries('C06', T5) + terminations('C06', T1)
    out += transits('C06', T1, t) + exits('C06', T6, t) + removals('C06', T6)
    if th:
        out += exits('C06', T1, t, ()) + removals('C06', T1, ()) + terminations('C06', T3) + transits('C06', T1, t, relax=True) + transits('C06', T2, 'quick', hist=True)
    else:
        out += transits('C06', T1, t, relax=True)
    return out


def c07(t):
    out = transits('C07', T5, t, acts=t == 'thorough') + transits('C07', T6, t, acts=t == 'thorough', hist=True) + transits('C07', T1, t) + transits('C07', T1, t, relax=True)
    if t == 'thorough':
        out += transits('C07', T2, 'quick', hist=True) + transits('C07', T2, 'quick', hist=True, relax=True) + transits('C07', T3, 'quick', hist=True)
        out += transits('C07', T1, 'quick', flags=()) + transits('C07', T1, 'quick', flags=(), relax=True) + transits('C07', T1, 'quick', flags=(REL, NATIVE))
    return out


def c08(t):
    return core('C08', ['process_event', 'initiate', 'terminate'], t) + transits('C08', T1, t, acts=t == 'thorough') + entries('C08', T1) + exits('C08', T1, t)


def c09(t):
    return core('C09', ['process_event', 'initiate', 'terminate'], t, [('exception translator', [REL])]) + transits('C09', T1, t, acts=t == 'thorough') + entries('C09', T1) + entries('C09', T3) + exits('C09', T1, t) + terminations('C09', T1)


def c10(t): return core('C10', ['process_event', 'initiate', 'terminate', 'dtor'], t) + entries('C10', T1) + removals('C10', T1) + terminations('C10', T1) + exits('C10', T1, t) + terminated('C10', t)


def c11(t):
    out = histories('C11', T6, t) + histories('C11', T2, t) + histories('C11', T3, t) + core('C11', ['process_event', 'initiate', 'terminate', 'dtor'], t)
    if t == 'thorough':
        out += histories('C11', T2, t, ()) + histories('C11', T2, t, (REL, NATIVE)) + histories('C11', T1, t)
    return out


def c12(t):
    out = core('C12', ['process_event', 'initiate', 'terminate'], t) + histories('C12', T2, t) + clears('C12', T2) + clears('C12', T3) + clears('C12', T6) + histories('C12', T6, t) + transits('C12', T6, t, hist=True, normal=False, acts=t == 'thorough') + entries('C12', T3) + transits('C12', T2, t, hist=True, normal=False, acts=t == 'thorough') \
        + transits('C12', T3, t, hist=True, normal=False, acts=t == 'thorough')
    if t == 'thorough':
        out += clears('C12', T2, ()) + clears('C12', T2, (REL, NATIVE)) + histories('C12', T3, t) + transits('C12', T3, 'quick', hist=True, flags=(REL, NATIVE)) + transits('C12', T3, 'quick', hist=True, flags=())
    return out


def c13(t): return core('C13', ['process_event', 'initiate', 'terminate', 'dtor'], t)


WEXP = {'queue': ('insertions',), 'terminate': ('insertions', 'executed requests'), 'run': ('executed items', 'removals', 'returns: empty', 'returns: maximum', 'returns: terminated'),
        'run0': ('executed items', 'removals', 'returns: empty', 'returns: terminated'), 'terminated': ('normal returns',), 'ctor': ('normal returns',)}
SNGL = '-DBOOST_DISABLE_THREADS'


def wrule(kind, threads, prop, outer, run0):
    def make(m):
        r = WorkerRule(m, kind, threads, prop, outer)
        if run0:
            r.defmax = True
        return r
    return make


def worker(prop, tier, st=True):
    out = []
    cf = [('multi-threaded', [REL])] + ([('single-threaded', [REL, SNGL])] if st else [])
    if tier == 'thorough':
        cf += [('multi-threaded, debug', []), ('multi-threaded, c++11', [REL, '-std=c++11']), ('multi-threaded, c++20', [REL, '-std=c++20'])] + ([('single-threaded, debug', [SNGL])] if st else [])
    for cn, fl in cf:
        th = SNGL not in fl
        for pre, outer in (('', None), ('s_', r'^boost::statechart::fifo_scheduler<')):
            for e, k in (('queue', 'queue'), ('queue_const', 'queue'), ('terminate', 'terminate'), ('run', 'run'), ('run0', 'run'), ('terminated', 'terminated'), ('ctor', 'ctor')):
                ex = WEXP[e if e == 'run0' else k] + (('lock acquisitions',) if th and k in ('queue', 'terminate', 'run') else ()) + (('waits',) if th and k == 'run' else ()) \
                    + (('notifications',) if th and k in ('queue', 'terminate') else ())
                out.append(Ob('%s::%s [%s]' % ('fifo_scheduler' if pre else 'fifo_worker', e, cn), H + 'worker.cpp', fl, 'entry_' + pre + e, wrule(k, th, prop, outer, e == 'run0'), ex))
    return out


def arule(kind, prop, n=0, ref=False):
    return lambda m: AsyncRule(m, kind, prop, n, ref)


def asynch(prop, tier, only=None):
    out = []
    cf = [('release', [REL]), ('no auto_ptr', [REL, '-DBOOST_NO_AUTO_PTR'])]
    if tier == 'thorough':
        cf += [('debug', []), ('single-threaded', [REL, SNGL]), ('c++11', [REL, '-std=c++11']), ('native rtti', [REL, NATIVE])]
    Q = ('queued items', 'normal returns')
    for cn, fl in cf:
        J = [('create%d' % i, arule('create', prop, i), Q + ('constructions', 'set changes')) for i in range(7)]
        J += [('createR1', arule('create', prop, 1, True), Q + ('constructions', 'set changes')), ('createR2', arule('create', prop, 2, True), Q + ('constructions', 'set changes')),
              ('createA', arule('create', prop, 0), Q + ('constructions', 'set changes'))]
        J += [(a, arule(b, prop), x) for a, b, x in (
            ('initiate', 'initiate', Q + ('processor operations',)), ('terminate', 'terminate', Q + ('processor operations',)), ('destroy', 'destroy', Q + ('set changes',)),
            ('queue_event', 'event', Q + ('processor operations',)), ('queue_item', 'item', ('forwarded items',)), ('queue_item_const', 'item', ('forwarded items',)),
            ('stop', 'stop', ('worker terminations',)), ('sdtor', 'sdtor', ('container destroyed',)))]
        for o in ('initiate', 'terminate', 'terminate2', 'process'):
            op = {'terminate2': 'terminate', 'process': 'process_event'}.get(o, o)
            J.append(('am_' + o, (lambda op: lambda m: AsmRule(m, op, prop))(op), ('machine operations',)))
        for e, mk, x in J:
            if only is None or e in only:
                out.append(Ob('%s [%s]' % (e, cn), H + 'async.cpp', fl, 'entry_' + e, mk, x))
    return out


def c18(t): return worker('C18', t) + asynch('C18', t, ('queue_item', 'queue_item_const', 'stop'))
def c19(t): return worker('C19', t, False)
def c20(t): return asynch('C20', t)


def queries(prop, tier):
    out = []
    cf = [('release', [REL]), ('native rtti', [REL, NATIVE])] + ([('debug', []), ('debug, native rtti', [NATIVE]), ('c++11', [REL, '-std=c++11'])] if tier == 'thorough' else [])
    for cn, fl in cf:
        nat = NATIVE in fl
        J = [(k, T) for k in ('castp', 'castr', 'downp', 'downr') for T in ('A', 'B', 'C', 'B1', 'D')] + [('castp', 'Iface'), ('castr', 'Iface')]
        for k, T in J:
            ex = ('innermost states visited', 'steps outwards', 'found', 'not found' if k.endswith('p') else 'bad_cast')
            out.append(Ob('state_%s<%s> [%s]' % ('cast' if k.startswith('cast') else 'downcast', T + (' *' if k.endswith('p') else ' &'), cn), H + 'queries.cpp', fl, 'entry_%s_%s' % (k, T),
                          (lambda k, T, nat: lambda m: QueryRule(m, Layout(m), k, T, prop, nat))(k, T, nat), ex))
        for k in ('pre', 'post', 'old'):
            out.append(Ob('state_begin/state_end (%s) [%s]' % (k, cn), H + 'queries.cpp', fl, 'entry_iter_' + k, lambda m: QueryRule(m, Layout(m), 'iter', None, prop), ('states enumerated',)))
        for a in (True, False):
            out.append(Ob('terminated(), %s [%s]' % ('running' if a else 'terminated', cn), H + 'queries.cpp', fl, 'entry_terminated', (lambda a: lambda m: TerminatedRule(m, Layout(m), a, prop))(a), ('normal returns',)))
    return out


def terminated(prop, tier): return [o for o in queries(prop, tier) if o.name.startswith('terminated()')]


def c14(t):
    th = t == 'thorough'
    out = queries('C14', t) + accesses('C14', T1, kinds=('castp', 'downr')) + accesses('C14', T1, (REL, NATIVE), kinds=('castp', 'downr')) + core('C14', ['process_event', 'initiate', 'terminate', 'dtor'], t) + removals('C14', T1) + entries('C14', T1) + entries('C14', T3) + exits('C14', T1, t)
    out += removals('C14', T5) + entries('C14', T5)
    return out + (removals('C14', T3) + transits('C14', T1, t) if th else transits('C14', T1, t, acts=False))


def types(prop, tier, fns, extra=()):
    cf = [('release', (REL,)), ('native rtti', (REL, NATIVE))] + [('debug', ()), ('debug, native rtti', (NATIVE,))] + list(extra)
    out = []
    for cn, fl in cf:
        for f in fns:
            if f is customs and NATIVE in fl:
                continue
            out.append(ModOb('%s [%s]' % (f.__name__, cn), H + 'types.cpp', fl, f, prop))
    return out


EVT = (('xE0', 'x::E0'), ('E0', 'E0'), ('E1', 'E1'), ('E2', 'E2'), ('E3', 'E3'), ('ET0', 'ET<0>'), ('ET1', 'ET<1>'), ('OE0', 'Outer::E0'), ('E4', 'E4'), ('E5', 'E5'))


def eventlife(prop, tier):
    out = []
    cf = [('release', (REL,)), ('single-threaded', (REL, SNGL, '-DBOOST_SP_DISABLE_THREADS')), ('native rtti', (REL, NATIVE))]
    if tier == 'thorough':
        cf += [('debug', ()), ('c++11', (REL, '-std=c++11')), ('debug, native rtti', (NATIVE,))]
    J = [('addref', 'addref', None), ('release', 'release', None), ('from_this', 'from_this', None), ('assign_E1', 'assign', 'E1'), ('assign_E0', 'assign', 'x::E0'),
         ('copy_E0', 'copy', 'x::E0'), ('copy_E1', 'copy', 'E1'), ('make_E1', 'make', 'E1')]
    for n, T in EVT:
        J += [('life_' + n, 'life', T), ('clone_' + n, 'clone', T)]
    for cn, fl in cf:
        for e, k, T in J:
            out.append(Ob('event %s [%s]' % (e, cn), H + 'types.cpp', fl, 'entry_' + e, (lambda k, T: lambda m: EventRule(m, k, prop, T))(k, T), ()))
    return out


def c15(t):
    return eventlife('C15', t) + post('C15', t) + accesses('C15', T1, kinds=('post',)) + reactions('C15', T4) + core('C15', ['process_event', 'initiate', 'terminate'], t) + asynch('C15', t, ('queue_event',)) + removals('C15', T1) + exits('C15', T1, t)


def c16(t):
    return core('C16', ['process_event'], t, None if t == 'thorough' else [('release', [REL]), ('native rtti', [REL, NATIVE])]) + reactions('C16', T4, (REL, NATIVE)) + types('C16', t, (identities, comparisons, keys, customs), [('c++11', (REL, '-std=c++11')), ('relaxed', (REL, RELAX))] if t == 'thorough' else [])


def c23(t):
    out = []
    cf = [('release', (REL,)), ('debug', ()), ('native rtti', (REL, NATIVE))]
    srcs = [('core', H + 'core.cpp'), ('async', H + 'async.cpp'), ('worker', H + 'worker.cpp'), ('types', H + 'types.cpp'), ('queries', H + 'queries.cpp')]
    for ch in (T1, T2, T3, T4):
        srcs.append((ch.name + ' operations', charts.gen('ops-' + ch.name, ch.cpp(charts.ops_src(ch)))))
        srcs.append((ch.name + ' exits', charts.gen('exit-' + ch.name, ch.cpp(charts.exit_src(ch)))))
    srcs.append(('T2 clears', charts.gen('clear-' + T2.name, T2.cpp(charts.clear_src(T2)[0]))))
    srcs.append(('T4 reactions', charts.gen('react-' + T4.name, T4.cpp(charts.react_src(T4)[0]))))
    ents = charts.transit_src(T1, charts.pairs(T1), False)[1]
    srcs.append(('T1 transitions', charts.gen('transit-T1-s', T1.cpp('\n'.join(charts.entry_text(T1, e) for e in charts.shapes(T1, ents))))))
    for cn, fl in cf:
        for n, s in srcs:
            if n[0] == 'T' and cn != 'release' and t != 'thorough':
                continue
            out.append(ModOb('objects with static storage: %s [%s]' % (n, cn), s, fl, mutable_state, 'C23'))
        for k in ('addref', 'release'):
            out.append(Ob('event count %s [%s]' % (k, cn), H + 'types.cpp', fl, 'entry_' + k, (lambda k: lambda m: SharedCountRule(m, k, 'C23'))(k), ()))
    return out


def c25(t):
    out = []
    cf = [('release', (REL,)), ('debug', ()), ('native rtti', (REL, NATIVE))]
    srcs = [('core', H + 'core.cpp'), ('core, null translator', H + 'core.cpp'), ('async', H + 'async.cpp'), ('worker', H + 'worker.cpp'), ('types', H + 'types.cpp'), ('queries', H + 'queries.cpp')]
    for ch in (T1, T2, T3, T4):
        srcs.append((ch.name + ' operations', charts.gen('ops-' + ch.name, ch.cpp(charts.ops_src(ch)))))
        srcs.append((ch.name + ' exits', charts.gen('exit-' + ch.name, ch.cpp(charts.exit_src(ch)))))
    srcs.append(('T4 reactions', charts.gen('react-' + T4.name, T4.cpp(charts.react_src(T4)[0]))))
    ents = charts.transit_src(T1, charts.pairs(T1), False)[1]
    srcs.append(('T1 transitions', charts.gen('transit-T1-s', T1.cpp('\n'.join(charts.entry_text(T1, e) for e in charts.shapes(T1, ents))))))
    for cn, fl in cf:
        for n, s in srcs:
            if n[0] == 'T' and cn != 'release' and t != 'thorough':
                continue
            out.append(ModOb('throw and catch sites: %s [%s]' % (n, cn), s, fl + ((NULLX,) if 'null' in n else ()), exceptions, 'C25'))
    out += core('C25', ['process_event', 'initiate', 'terminate'], t) + post('C25', t) + worker('C25', t) + asynch('C25', t, None if t == 'thorough' else ('create2', 'initiate', 'queue_event', 'am_initiate', 'am_process', 'am_terminate'))
    out += queries('C25', t)
    return out + reactions('C25', T4) + removals('C25', T1) + entries('C25', T1) + exits('C25', T1, t) + transits('C25', T1, t, acts=t == 'thorough')


def protocol(prop, tier):
    out = []
    cf = [('debug', ()), ('debug, native rtti', (NATIVE,)), ('debug, c++11', ('-std=c++11',))] + ([('debug, c++20', ('-std=c++20',)), ('debug, relaxed', (RELAX,))] if tier == 'thorough' else [])
    for cn, fl in cf:
        for v in (1, 2, 3):
            for n in ('v_direct', 'v_named', 'v_copy', 'v_copy2', 'v_param', 'v_const', 'a_dropped', 'a_unused', 'a_copy_unused', 'a_param_unused', 'a_second_lost', 'a_used_twice',
                      'a_source_used', 'a_source_copied', 'a_copied_after_use', 'a_copied_twice'):
                out.append(Ob('%s of %s [%s]' % (n[2:], NAMES[v], cn), H + 'result.cpp', fl, 'entry_' + n, (lambda k, v: lambda m: ResultProtocolRule(m, k, v, prop))(n[0], v),
                              ('assertions reached',) if n[0] == 'a' else ('results handed on',)))
        for v in (1, 2, 3):
            out.append(Ob('%s_event() lost [%s]' % (NAMES[v], cn), H + 'result.cpp', fl, 'entry_a_' + NAMES[v], (lambda v: lambda m: ResultProtocolRule(m, 'a', v, prop))(v), ('assertions reached',)))
            out.append(Ob('%s_event() [%s]' % (NAMES[v], cn), H + 'result.cpp', fl, 'entry_d_' + NAMES[v], (lambda v: lambda m: ResultProtocolRule(m, 'd', v, prop))(v), ('results handed on',)))
    return out


def c17(t):
    th = t == 'thorough'
    cf = [('debug', [], 1, build.CLANG), ('debug, native rtti, relaxed', [NATIVE, RELAX], 1 if th else 3, build.CLANG), ('debug, g++', [], 1 if th else 4, GXX)]
    if th:
        cf += [('debug, c++11', ['-std=c++11'], 1, build.CLANG), ('debug, c++20', ['-std=c++20'], 1, build.CLANG)]
    out = protocol('C17', t) + witness.obligations('C17', cf, [('uses of a reaction result', witness.results())], per=12)
    out += reactions('C17', T4, ()) + transits('C17', T1, 'quick', flags=()) + core('C17', ['process_event', 'initiate', 'terminate'], 'quick', [('debug, exception translator', []), ('debug, null translator', [NULLX])])
    if th:
        out += reactions('C17', T4, (NATIVE,)) + transits('C17', T1, t, flags=(RELAX,)) + removals('C17', T1, ()) + exits('C17', T1, t, ())
    return out


def accesses(prop, ch, flags=(REL,), step=1, kinds=None):
    cpp, ents = charts.access_src(ch)
    src = charts.gen('access-' + ch.name, cpp())
    out = []
    for e, s, w, x, i in ents[::step]:
        if kinds and w not in kinds:
            continue
        if w == 'post':
            mk = lambda m, s=s, x=x: StatePostRule(m, Layout(m), ch, s, prop, x)
        elif w in ('castp', 'downr'):
            mk = lambda m, s=s, w=w, x=x: StateQueryRule(m, Layout(m), ch, s, w, x, prop, NATIVE in flags)
        else:
            mk = lambda m, s=s, w=w, x=x, i=i: AccessRule(m, Layout(m), ch, s, w, x, i, prop)
        nm = {'context': 'context<%s%s>()' % ('base of ' if i else '', x or 'machine'), 'post': 'post_event()', 'castp': 'state_cast<%s>()' % x, 'downr': 'state_downcast<%s>()' % x}.get(w, w)
        out.append(Ob('%s %s seen from %s %s' % (ch.name, nm, s, ' '.join(flags)), src, flags, e, mk, ('normal returns',) if w in ('post', 'castp', 'downr') else ('accesses decided',)))
    return out


def c24(t):
    th = t == 'thorough'
    out = accesses('C24', T6) + clears('C24', T6) + accesses('C24', T1) + accesses('C24', T2) + accesses('C24', T1, (NATIVE,), 1 if th else 5)
    out += removals('C24', T5) + entries('C24', T5) + reactions('C24', T4) + removals('C24', T1) + entries('C24', T1) + entries('C24', T3) + clears('C24', T2) + terminations('C24', T1)
    out += transits('C24', T1, t, acts=th) + exits('C24', T1, t)
    if th:
        out += accesses('C24', T3) + accesses('C24', T1, ()) + accesses('C24', T1, (REL, RELAX)) + transits('C24', T1, t, relax=True) + transits('C24', T3, t, hist=True) + histories('C24', T2, t)
    return out


EV = r'^boost::intrusive_ptr<boost::statechart::event_base const>'
MODS = {1: ('machine', 1, ('E1', 'E2', 'E3'), ('^A$', '^B$', '^C$', '^J$', '^I$', '^E1$', '^E2$', '^E3$', r'event_base', r'leaf_state', r'history_key')),
        2: ('worker', 3, (), ('function',)), 3: ('scheduler', 4, (), ('event_processor',)),
        4: ('asynchronous machine', 1, ('E1', 'E2', 'E3'), ('^A$', '^B$', r'event_base', r'leaf_state', r'history_key'))}


def alloc_chart(prop, ch, tier, flags=(REL,), step=1):
    inc = '#include "alloc.hpp"'
    out = []
    src = charts.gen('alloc-exit-' + ch.name, ch.cpp(charts.exit_src(ch), includes=inc))
    for s in ch.order:
        out.append(Ob('%s memory of %s and its inner states when entered %s' % (ch.name, s, ' '.join(flags)), src, flags, 'entry_new_' + s,
                      lambda m, s=s: tracked(ResumeRule)(m, Layout(m), ch, ch.st[s].ctx, ch.deep(s), prop), ('states entered', 'objects built')))
        cases = list(exit_cases(ch, s, tier))
        for ot, u, full in cases[::step]:
            out.append(Ob('%s memory when %s is exited, kept alive: %s, unstable: %s, %s %s' % (ch.name, s, ot[0] if ot else 'none', u or 'none', 'regular' if full else 'not regular', ' '.join(flags)),
                          src, flags, 'entry_exit_' + s, lambda m, s=s, ot=ot, u=u, full=full: tracked(ExitRule)(m, Layout(m), ch, s, ot, u, full, prop), ('objects returned',)))
    ents = charts.shapes(ch, charts.transit_src(ch, charts.pairs(ch), False)[1])
    ents = [e for e in ents if e[3] is None or tier == 'thorough'][::1 if tier == 'thorough' else 2]
    src = charts.gen('alloc-transit-' + ch.name, ch.cpp('\n'.join(charts.entry_text(ch, e) for e in ents), includes=inc))
    for n, s, d, act in ents:
        out.append(Ob('%s memory during %s -> %s %s' % (ch.name, s, ' '.join(d) if isinstance(d, tuple) else d, ' '.join(flags)), src, flags, n,
                      lambda m, s=s, d=d, act=act: tracked(TransitRule)(m, Layout(m), ch, s, d, act, prop), ('objects built',)))
    return out


def c21(t):
    th = t == 'thorough'
    out = []
    cf = [('release', (REL,)), ('debug', ()), ('native rtti', (REL, NATIVE)), ('c++11', (REL, '-std=c++11'))]
    if th:
        cf += [('c++20', (REL, '-std=c++20')), ('single-threaded', (REL, SNGL)), ('relaxed', (REL, RELAX))]
    for cn, fl in cf:
        for k, (w, tag, users, exp) in MODS.items():
            f = fl + ('-DMOD=%d' % k,)
            out.append(ModOb('%s: sources of memory [%s]' % (w, cn), H + 'alloc.cpp', f, scan, 'C21', w, tag, users, False, exp))
        for k in ('ref', 'new'):
            for e in ('E1', 'E2', 'E3'):
                out.append(Ob('life of a %s (%s) [%s]' % (e, k, cn), H + 'alloc.cpp', fl + ('-DMOD=1',), 'entry_%s_%s' % (k, e),
                              lambda m, e=e: AllocEventRule(m, e), ('allocations', 'deallocations', 'normal returns')))
    out.append(ModOb('machine with the standard allocator (positive example)', H + 'alloc.cpp', (REL, '-DMOD=1', '-DUSE_STD'), scan_std, 'C21'))
    out += alloc_chart('C21', T1, t, step=1)
    if th:
        out += alloc_chart('C21', T2, t) + alloc_chart('C21', T1, t, ())
    return out


GXX = '/usr/bin/g++'
ALLCFG = [('release', [REL]), ('debug', []), ('native rtti', [REL, NATIVE]), ('relaxed', [REL, RELAX]), ('native rtti, relaxed', [REL, NATIVE, RELAX]), ('debug, relaxed', [RELAX]),
          ('debug, native rtti, relaxed', [NATIVE, RELAX]), ('c++11', [REL, '-std=c++11']), ('c++20', [REL, '-std=c++20']), ('single-threaded', [REL, SNGL])]


def c22(t):
    lists = [('regions', witness.regions()), ('history', witness.history()), ('transitions', witness.transitions()), ('actions', witness.contexts())]
    if t == 'thorough':
        cf = [(n, f, 1, build.CLANG) for n, f in ALLCFG] + [('g++', [REL], 2, GXX), ('g++, debug, relaxed', [RELAX], 3, GXX)]
    else:
        cf = [(n, f, 1 if n == 'release' else 9, build.CLANG) for n, f in ALLCFG[:7]] + [('g++', [REL], 17, GXX)]
    return witness.obligations('C22', cf, lists)


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13,
          'C18': c18, 'C19': c19, 'C20': c20,
          'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25}
TECH = {p: 'abstract interpretation of the LLVM IR with typestate monitors (all paths, all exceptional edges)' for p in CHECKS}
TECH.update({
    'C16': 'type-level identity facts decided by static_assert witnesses and abstract interpretation of the comparison functions in the LLVM IR',
    'C17': 'compile-fail / compile-pass witnesses and abstract interpretation of the result type and its library call sites (debug IR)',
    'C19': 'lock-discipline dataflow analysis (abstract interpretation of the LLVM IR with a lock-state monitor)',
    'C21': 'allocation-pairing dataflow with tagged allocators: whole-module scan of allocation call sites plus abstract interpretation of the paths',
    'C22': 'compile-fail and compile-pass witness programs over enumerated charts',
    'C23': 'whole-module scan of globals, store sites and atomic operations over the IR and the call graph',
    'C25': 'whole-module scan of throw, catch and nounwind sites over the IR and the call graph, plus abstract interpretation of the exceptional edges',
})
ASSUME = {}
NOTE = {}
DEFNOTE = ('Sound static analysis of the instantiated library code (over-approximating dataflow over all paths, all exceptional edges, arbitrary user code '
           'and arbitrary machine states); decided per instantiation of the templates in harness/, with the C++ runtime and the standard containers modelled.')

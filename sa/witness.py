"""Compile-time witnesses (C22, C17): programs the library has to accept or to
reject, generated together with the verdict an independent model gives them.
Every rejected program has an accepted sibling that differs only in the
offending token, so a rejection for an unrelated reason is noticed."""
import os, itertools, build
from charts import T1, T2, T3, T4, St, Chart
import charts

PRE = '''#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/mpl/list.hpp>
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
struct Ev : sc::event< Ev > {};
struct Ev2 : sc::event< Ev2 > {};
'''
HM = {'': '', 's': 'sc::has_shallow_history', 'd': 'sc::has_deep_history', 'f': 'sc::has_full_history'}


class W:
    def __init__(self, name, text, legal, why='', only=None):
        self.name = name; self.text = text; self.legal = legal; self.why = why; self.only = only


def st(n, ctx, region=None, ini=(), hist='', body='', kind='simple_state'):
    c = ctx if region is None else '%s::orthogonal< %d >' % (ctx, region)
    a = [n, c]
    if ini or hist:
        a.append('mpl::list< %s >' % ', '.join(ini))
    if hist:
        a.append(HM[hist])
    ct = '' if kind == 'simple_state' else '%s( my_context c ) : my_base( c ) {} ' % n
    return 'struct %s : sc::%s< %s > { %s%s };\n' % (n, kind, ', '.join(a), ct, body)


def decl(*ns):
    return ''.join('struct %s;\n' % n for n in ns)


MACH = 'struct M : sc::state_machine< M, A > {};\n'
RUN = 'void run() { M m; m.initiate(); %s m.terminate(); }\n'


def nest(levels, leafdecl, leaf):
    """A > A1 > A2 ... (levels states) and below the last one what `leaf` yields"""
    return None


def regions():
    """a state has to live in an existing region of its context, at the place
    of the initial list that it names"""
    out = []
    for depth in (0, 1, 2):
        # outer chain A, A1, A2 of plain composites; P is the state of interest
        chain = ['A'] + ['A%d' % i for i in range(1, depth + 1)]
        P = chain[-1]
        pre = decl(*chain)
        up = ''
        for i, c in enumerate(chain[:-1]):
            up += st(c, chain[i - 1] if i else 'M', None, (chain[i + 1],))
        pctx = chain[-2] if depth else 'M'
        for n in (0, 1, 2, 3):
            for r in range(0, 4):
                for kind in ('simple_state', 'state'):
                    if kind == 'state' and depth != 1:
                        continue
                    inner = ['R%d' % i for i in range(n)]
                    t = pre + decl(*inner) + MACH + up + st(P, pctx, None, inner)
                    for i, x in enumerate(inner):
                        t += st(x, P, i if n > 1 else None)
                    t += st('X', P, r, kind=kind) + RUN % ''
                    out.append(W('%s X in region %d of a state with %d region(s), depth %d' % (kind, r, n, depth + 1), t, r < n, 'the region does not exist'))
        # place in the initial list
        for n in (2, 3):
            for claim in itertools.product(range(n), repeat=n):
                if n == 3 and (depth == 2 or depth == 1 and sum(a != b for a, b in zip(claim, range(n))) > 1):
                    continue
                for form in ('plain', 'history', 'inner'):
                    if form != 'plain' and depth != 0:
                        continue
                    inner = ['R%d' % i for i in range(n)]
                    t = pre + decl(*inner) + MACH + up
                    ini = list(inner)
                    if form == 'history':
                        ini[-1] = 'sc::shallow_history< %s >' % ini[-1]
                    t += st(P, pctx, None, ini, 's' if form == 'history' else '')
                    if form == 'inner':
                        t += decl('RI')
                    for i, x in enumerate(inner):
                        t += st(x, P, claim[i], ('RI',) if form == 'inner' and i == 0 else ())
                    if form == 'inner':
                        t += st('RI', 'R0')
                    t += RUN % ''
                    ok = claim == tuple(range(n))
                    out.append(W('initial list whose members claim regions %s (%s), depth %d' % (list(claim), form, depth + 1), t, ok, 'a member of the initial list claims another region than its place'))
    # composites that are entered through a transition only
    for claim in itertools.product((0, 1), repeat=2):
        t = decl('A', 'B', 'X', 'Y') + MACH + st('A', 'M', None, (), '', 'typedef sc::transition< Ev, B > reactions;') + st('B', 'M', None, ('X', 'Y')) + \
            st('X', 'B', claim[0]) + st('Y', 'B', claim[1]) + RUN % 'm.process_event( Ev() );'
        out.append(W('composite entered by a transition, members claim regions %s' % list(claim), t, claim == (0, 1), 'a member of the initial list claims another region than its place'))
    # ... in front of and behind the region through which a transition enters
    for tgt in range(3):
        for bad in [None] + [i for i in range(3) if i != tgt]:
            for to in range(3):
                if bad is None and to or bad == to:
                    continue
                claim = list(range(3))
                if bad is not None:
                    claim[bad] = to
                t = decl('A', 'B', 'Z', 'R0', 'R1', 'R2') + MACH + st('A', 'M', None, (), '', 'typedef sc::transition< Ev, Z > reactions;') + st('B', 'M', None, ('R0', 'R1', 'R2'))
                for i in range(3):
                    t += st('R%d' % i, 'B', claim[i])
                t += st('Z', 'B', tgt) + RUN % 'm.process_event( Ev() );'
                out.append(W('transition into region %d of a state whose initial list claims %s' % (tgt, claim), t, bad is None, 'a member of the initial list claims another region than its place'))
    return out


def history():
    out = []
    for mode in ('', 's', 'd', 'f'):
        for depth in (0, 1):
            pre = decl('A', 'P', 'B', 'C', 'D') if depth else decl('P', 'B', 'C', 'D')
            mach = MACH if depth else 'struct M : sc::state_machine< M, P > {};\n'
            up = st('A', 'M', None, ('P',)) if depth else ''
            ctx = 'A' if depth else 'M'
            for use, flag in (('shallow', 's'), ('deep', 'd')):
                ok = mode in (flag, 'f')
                h = 'sc::%s_history< %%s >' % use
                why = 'the context has no %s history' % use
                nm = '%s history of a context with %s, depth %d: ' % (use, HM[mode] or 'no history', depth + 1)
                # in initial lists
                for n, at in ((1, 0), (2, 0), (2, 1), (3, 2)):
                    ini = ['B', 'C', 'D'][:n]
                    t = pre + mach + up + st('P', ctx, None, [h % x if i == at else x for i, x in enumerate(ini)], mode)
                    for i, x in enumerate(ini):
                        t += st(x, 'P', i if n > 1 else None)
                    out.append(W(nm + 'initial state %d of %d' % (at + 1, n), t + RUN % '', ok, why))
                # as transition target, from inside and from outside
                for src in ('inside', 'outside', 'transit', 'deep inside'):
                    body = 'typedef sc::transition< Ev, %s > reactions;' % (h % 'B')
                    if src == 'transit':
                        body = 'typedef sc::custom_reaction< Ev > reactions; sc::result react( const Ev & ) { return transit< %s >(); }' % (h % 'B')
                    t = pre + mach + up
                    if src == 'outside':
                        t += decl('O') + st('P', ctx, None, ('B',), mode) + st('B', 'P', None, (), '', 'typedef sc::transition< Ev2, O > reactions;') + st('O', ctx, None, (), '', body)
                    elif src == 'deep inside':
                        t += st('P', ctx, None, ('B',), mode) + st('B', 'P', None, ('C',)) + st('C', 'B', None, (), '', body)
                    else:
                        t += st('P', ctx, None, ('B',), mode, body) + st('B', 'P')
                    out.append(W(nm + 'transition from %s' % src, t + RUN % 'm.process_event( Ev() );', ok, why))
                # clearing
                for n, r in ((1, 0), (2, 0), (2, 1)):
                    inner = ['B', 'C'][:n]
                    for who in ('machine', 'itself', 'inside'):
                        call = 'clear_%s_history< P, %d >();' % (use, r)
                        body = 'typedef sc::custom_reaction< Ev > reactions; sc::result react( const Ev & ) { %s return discard_event(); }' % call
                        t = pre + mach + up + st('P', ctx, None, inner, mode, body if who == 'itself' else '')
                        for i, x in enumerate(inner):
                            t += st(x, 'P', i if n > 1 else None, (), '', body if who == 'inside' and not i else '')
                        out.append(W(nm + 'cleared (region %d of %d) by %s' % (r, n, who), t + RUN % ('m.' + call if who == 'machine' else 'm.process_event( Ev() );'), ok, why))
        # history of an outer context does not count
        for use, flag in (('shallow', 's'), ('deep', 'd')):
            for inner in ('', flag):
                t = decl('A', 'P', 'B') + MACH + st('A', 'M', None, ('P',), mode) + st('P', 'A', None, ('sc::%s_history< B >' % use,), inner) + st('B', 'P') + RUN % ''
                out.append(W('%s history used in a context with %s whose own context has %s' % (use, HM[inner] or 'no history', HM[mode] or 'no history'), t, bool(inner), 'the context has no %s history' % use))
                hd = '%s history of a context with %s inside a context with %s ' % (use, HM[inner] or 'no history', HM[mode] or 'no history')
                why = 'the context has no %s history' % use
                call = 'clear_%s_history< P, 0 >();' % use
                pre = decl('A', 'P', 'B') + MACH + st('A', 'M', None, ('P',), mode)
                out.append(W(hd + 'cleared by the machine', pre + st('P', 'A', None, ('B',), inner) + st('B', 'P') + RUN % ('m.' + call), bool(inner), why))
                body = 'typedef sc::custom_reaction< Ev > reactions; sc::result react( const Ev & ) { %s return discard_event(); }' % call
                out.append(W(hd + 'cleared by the state', pre + st('P', 'A', None, ('B',), inner) + st('B', 'P', None, (), '', body) + RUN % 'm.process_event( Ev() );', bool(inner), why))
                body = 'typedef sc::transition< Ev, sc::%s_history< B > > reactions;' % use
                out.append(W(hd + 'as transition target', pre + st('P', 'A', None, ('B',), inner, body) + st('B', 'P') + RUN % 'm.process_event( Ev() );', bool(inner), why))
                body = 'typedef sc::custom_reaction< Ev > reactions; sc::result react( const Ev & ) { return transit< sc::%s_history< B > >(); }' % use
                out.append(W(hd + 'as target of transit()', pre + st('P', 'A', None, ('B',), inner, body) + st('B', 'P') + RUN % 'm.process_event( Ev() );', bool(inner), why))
    # deep history above orthogonal regions
    for mode in ('', 's', 'd', 'f'):
        for at in range(4):         # which of the chain A > A1 > A2 > A3 has the history
            for wide in range(4):   # which has several regions
                for n in (2, 3):
                    if n == 3 and (at != 0 or wide not in (1, 2)):
                        continue
                    ch = ['A', 'A1', 'A2', 'A3']
                    t = decl(*ch) + decl('L0', 'L1', 'L2') + MACH
                    for i, c in enumerate(ch):
                        inn = [ch[i + 1]] if i < 3 else (['L0'] if wide != 3 else [])
                        if i == wide:
                            inn = inn + ['L1', 'L2'][:n - 1] if inn else ['L0', 'L1', 'L2'][:n]
                        t += st(c, ch[i - 1] if i else 'M', 0 if i - 1 == wide else None, inn, mode if i == at else '')
                    if wide == 3:
                        for i in range(n):
                            t += st('L%d' % i, 'A3', i)
                    else:
                        t += st('L0', 'A3')
                        for i in range(1, n):
                            t += st('L%d' % i, ch[wide], i)
                    bad = mode in ('d', 'f') and wide > at
                    out.append(W('%s at level %d, %d regions at level %d' % (HM[mode] or 'no history', at + 1, n, wide + 1), t + RUN % '', not bad,
                                 'deep history is combined with orthogonal regions below it'))
    return out


def chart_text(ch, src, body, clean=True):
    """definition of a chart in which state src has `body`"""
    t = decl(*ch.order) + 'struct M : sc::state_machine< M, %s > {};\n' % ch.initial
    H = {'sh': 'sc::shallow_history< %s >', 'dh': 'sc::deep_history< %s >'}
    for n in ch.order:
        s = ch.st[n]
        ini = [H[i[0]] % i[1] if isinstance(i, tuple) else i for i in s.regions]
        t += st(n, s.ctx or 'M', s.region or None, ini, s.hist or '', body if n == src else '')
    return t


def transitions():
    """every ordered pair of states of a chart with nested regions"""
    out = []
    ch = Chart('W', [St('A', '', 0, ['B', 'C', 'D']), St('B', 'A', 0, ['E', 'F']), St('C', 'A', 1, ['G']), St('D', 'A', 2, []), St('E', 'B', 0, []), St('F', 'B', 1, ['I']),
                     St('G', 'C', 0, []), St('I', 'F', 0, []), St('J', 'A', 1, []), St('K', '', 0, ['N']), St('N', 'K', 0, []), St('Q', 'B', 1, [])])
    for s in ch.order:
        for d in ch.order:
            ok = ch.valid(s, d)
            for form in ('list', 'transit'):
                if form == 'transit' and (ok or (len(s + d) and (ch.order.index(s) + ch.order.index(d)) % 3)):
                    continue
                body = 'typedef sc::transition< Ev, %s > reactions;' % d if form == 'list' else \
                    'typedef sc::custom_reaction< Ev > reactions; sc::result react( const Ev & ) { return transit< %s >(); }' % d
                t = chart_text(ch, s, body) + RUN % 'm.process_event( Ev() );' + 'void all() { J j; Q q; }\n'
                out.append(W('transition %s -> %s (%s)' % (s, d, form), t, ok, 'the transition leads into another orthogonal region'))
    # to history targets
    hc = Chart('WH', [St('A', '', 0, ['B', 'C']), St('B', 'A', 0, ['E'], hist='f'), St('C', 'A', 1, ['G'], hist='f'), St('E', 'B', 0, []), St('G', 'C', 0, []), St('K', '', 0, [])])
    for s in hc.order:
        for d in ('E', 'G'):
            for h in ('sh', 'dh'):
                ok = hc.valid(s, d)
                t = chart_text(hc, s, 'typedef sc::transition< Ev, sc::%s_history< %s > > reactions;' % ('shallow' if h == 'sh' else 'deep', d)) + RUN % 'm.process_event( Ev() );'
                out.append(W('transition %s -> %s history %s' % (s, 'shallow' if h == 'sh' else 'deep', d), t, ok, 'the transition leads into another orthogonal region'))
    return out


def contexts():
    """transition actions: what each configuration accepts"""
    out = []
    ch = Chart('WC', [St('A', '', 0, ['B', 'C']), St('B', 'A', 0, ['E']), St('C', 'A', 1, []), St('E', 'B', 0, []), St('F', 'B', 0, []), St('D', 'A', 0, [])])
    for s, d in (('E', 'F'), ('E', 'D'), ('B', 'D'), ('E', 'E'), ('A', 'A')):
        c = ch.common(s, d)
        chain = [s] + ch.ctxs(s)
        for a in chain:
            lawful = chain.index(a) >= chain.index(c)
            T = a or 'M'
            body = 'typedef sc::transition< Ev, %s, %s, &%s::act > reactions; ' % (d, T, T)
            act = 'void act( const Ev & ) {} '
            t = decl(*ch.order) + 'struct M : sc::state_machine< M, A > { %s };\n' % (act if not a else '')
            for n in ch.order:
                x = ch.st[n]
                t += st(n, x.ctx or 'M', x.region or None, x.regions, '', (act if n == a else '') + (body if n == s else ''))
            out.append(W('action of %s for %s -> %s' % (T, s, d), t + RUN % 'm.process_event( Ev() );', True if lawful else None, only='any' if lawful else 'relaxed'))
    return out


RPRE = '''struct M; struct A;
struct M : sc::state_machine< M, A > {};
struct A : sc::simple_state< A, M >
{
  typedef mpl::list< sc::custom_reaction< Ev > > reactions;
  sc::result keep( sc::result r ) { return r; }
  sc::result react( const Ev & ) { %s }
};
void take( sc::result );
void run() { M m; m.initiate(); m.process_event( Ev() ); %s }
'''


def results():
    """debug builds: what can be done with a reaction result"""
    out = []
    ok = ['return discard_event();', 'return forward_event();', 'return defer_event();', 'return transit< A >();', 'return terminate();', 'sc::result r( discard_event() ); return r;',
          'return keep( discard_event() );', 'const sc::result r( discard_event() ); sc::result q( r ); return q;', 'sc::result r = transit< A >(); return r;']
    bad = [('default construction', 'sc::result r; return discard_event();'), ('default construction', 'sc::result r = sc::result(); return r;'), ('default construction', 'return sc::result();'),
           ('default construction', 'return {};'),
           ('assignment', 'sc::result r( discard_event() ); r = forward_event(); return r;'), ('assignment', 'sc::result r( discard_event() ); sc::result q( r ); q = r; return q;'),
           ('assignment', 'sc::result r( discard_event() ); r = sc::detail::do_forward_event; return r;'),
           ('construction from the internal value', 'return sc::detail::do_discard_event;'), ('construction from the internal value', 'return sc::result( sc::detail::do_forward_event );'),
           ('construction from the internal value', 'sc::result r( sc::detail::do_defer_event ); return r;'),
           ('construction from the internal value', 'return sc::detail::safe_reaction_result( sc::detail::no_reaction );'),
           ('construction from the internal value', 'return static_cast< sc::result >( sc::detail::do_discard_event );'),
           ('construction from another type', 'return true;'), ('construction from another type', 'return 0;'), ('construction from another type', 'return 2;'),
           ('construction from another type', 'return sc::result( 1 );'), ('construction from another type', 'return 0L;'),
           ('conversion', 'int v = discard_event(); (void)v; return discard_event();'), ('conversion', 'sc::detail::reaction_result v = discard_event(); (void)v; return discard_event();'),
           ('conversion', 'if ( discard_event() ) return forward_event(); return discard_event();'),
           ('conversion', 'if ( discard_event() == sc::detail::consumed ) {} return discard_event();'),
           ('conversion', 'switch ( discard_event() ) { default: break; } return discard_event();'),
           ('conversion', 'return keep( static_cast< sc::detail::reaction_result >( discard_event() ) );'),
           ('arrays', 'sc::result r[ 2 ]; return r[ 0 ];')]
    for t in ok:
        out.append(W('react() { %s }' % t, RPRE % (t, ''), True))
    for k, t in bad:
        out.append(W('react() { %s }' % t, RPRE % (t, ''), False, 'a reaction result allows ' + k))
    return out


def compile_some(prop, flags, ws, compiler=build.CLANG):
    """-> violations, counters"""
    import shutil
    work = build.tmpdir()
    try:
        return _compile_some(work, prop, list(flags), ws, compiler)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _compile_some(work, prop, flags, ws, compiler):
    vio = []
    cnt = {'programs accepted': 0, 'programs rejected': 0}
    extra = []
    pre = PRE
    if compiler == build.CLANG:
        with open(work + '/pre.hpp', 'w') as f:
            f.write(PRE)
        import subprocess
        p = subprocess.run([compiler] + build.BASE + flags + ['-x', 'c++-header', work + '/pre.hpp', '-o', work + '/pre.pch'], capture_output=True, text=True)
        if p.returncode:
            raise build.BuildError('the headers do not compile: ' + p.stderr[:1500])
        extra = ['-include-pch', work + '/pre.pch']
        pre = ''
    p = work + '/w.cpp'
    legal = [w for w in ws if w.legal]
    if len(legal) > 1:
        # all consistent programs at once; individually only if that fails
        with open(p, 'w') as f:
            f.write(pre + ''.join('namespace w%d {\n%s}\n' % (k, w.text) for k, w in enumerate(legal)))
        if build.compiles(p, flags, compiler, extra)[0]:
            cnt['programs accepted'] += len(legal)
            ws = [w for w in ws if not w.legal]
    for w in ws:
        with open(p, 'w') as f:
            f.write(pre + w.text)
        ok, err = build.compiles(p, flags, compiler, extra)
        cnt['programs accepted' if ok else 'programs rejected'] += 1
        if ok != w.legal:
            first = [l for l in err.splitlines() if 'error' in l][:1]
            if ok:
                msg = 'accepted although %s: %s' % (w.why, w.name)
            else:
                msg = 'a consistent program is rejected: %s' % w.name
            vio.append({'rule': prop, 'message': msg, 'where': 'include/boost/statechart, compiled by %s %s%s' % (os.path.basename(compiler), ' '.join(flags), ': ' + first[0][:300] if first else ''), 'stack': [],
                        'path': (pre + w.text).splitlines()})
    return vio, cnt


def obligations(prop, cfgs, lists, per=45, tier='quick'):
    """cfgs: (name, flags, step, compiler)"""
    from driver import PyOb
    out = []
    for cn, fl, step, comp in cfgs:
        relaxed = any('RELAX' in f for f in fl)
        for ln, ws in lists:
            l = [w for w in ws if w.only is None or w.only == 'any' or relaxed]
            for w in l:
                if w.only == 'relaxed':
                    w.legal = True
            if step > 1:
                l = [w for i, w in enumerate(l) if i % step == hash_of(cn) % step]
            for k in range(0, len(l), per):
                out.append(PyOb('%s %d.. [%s]' % (ln, k, cn), compile_some, prop, tuple(fl), l[k:k + per], comp))
    return out


def hash_of(s):
    return sum(map(ord, s))

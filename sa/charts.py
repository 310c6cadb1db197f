"""Charts as data: C++ witness programs are generated from them, and the UML
oracle (innermost common context, entry order, history keys ...) is computed
from them independently of the library."""
import os, hashlib, build


class St:
    def __init__(self, name, ctx, region, regions, kind='simple', hist=None, extra='', reactions=None):
        self.reactions = reactions  # None or a list of (kind, event, ...), see reaction_cpp
        self.name = name; self.ctx = ctx; self.region = region
        self.regions = regions      # list of initial state names, or ('sh'|'dh'|'fh', default)
        self.kind = kind; self.hist = hist; self.extra = extra


class Chart:
    def __init__(self, name, states, initial=None):
        self.name = name
        self.order = [s.name for s in states]
        self.st = {s.name: s for s in states}
        self.initial = initial or self.order[0]

    def ctxs(self, s):
        """contexts of s, innermost first; '' is the machine"""
        out = []
        while s:
            s = self.st[s].ctx
            out.append(s)
        return out

    def common(self, s, d):
        d = d[1] if isinstance(d, tuple) else d
        dc = set(self.ctxs(d))
        for c in self.ctxs(s):
            if c in dc:
                return c

    def top(self, s, c):
        """the state on the path from s to context c that is directly inside c"""
        while self.st[s].ctx != c:
            s = self.st[s].ctx
        return s

    def path(self, d, c):
        p = [d]
        n = d[1] if isinstance(d, tuple) else d
        while self.st[n].ctx != c:
            n = self.st[n].ctx
            p.append(n)
        return p[::-1]

    def valid(self, s, d):
        c = self.common(s, d)
        return self.st[self.top(s, c)].region == self.region(self.path(d, c)[0])

    def region(self, x):
        return self.st[x[1] if isinstance(x, tuple) else x].region

    def default(self, i):
        return i[1] if isinstance(i, tuple) else i

    def deep(self, s):
        """entry order of s with its default inner states; ('sh',X)/('dh',X) entries are history points"""
        out = [s]
        for i in self.st[s].regions:
            out += [i] if isinstance(i, tuple) else self.deep(i)
        return out

    def along(self, path):
        """entry order along a path"""
        s = path[0]
        if len(path) == 1:
            return [s] if isinstance(s, tuple) else self.deep(s)
        out = [s]
        for r, i in enumerate(self.st[s].regions):
            if r == self.region(path[1]):
                out += self.along(path[1:])
            else:
                out += [i] if isinstance(i, tuple) else self.deep(i)
        return out

    def entry(self, s, d):
        return self.along(self.path(d, self.common(s, d)))

    def reaction_cpp(self, s):
        l = []
        custom = []
        for r in s.reactions:
            ev = 'sc::event_base' if r[1] == '*' else r[1]
            fn = 'actb' if r[1] == '*' else 'act'
            if r[0] == 'custom':
                l.append('sc::custom_reaction< %s >' % ev)
                if ev not in custom:
                    custom.append(ev)
            elif r[0] == 'in':
                c = r[2]
                l.append('sc::in_state_reaction< %s%s >' % (ev, '' if c is None else ', %s, &%s::%s' % (c or 'M', c or 'M', fn)))
            elif r[0] == 'trans':
                c = r[3]
                l.append('sc::transition< %s, %s%s >' % (ev, r[2], '' if c is None else ', %s, &%s::%s' % (c or 'M', c or 'M', fn)))
            elif r[0] == 'term':
                l.append('sc::termination< %s >' % ev)
            elif r[0] == 'defer':
                l.append('sc::deferral< %s >' % ev)
        o = ['  sc::result react( const %s & e ) { HOOK_REACT( %s, e ); }' % (ev, s.name) for ev in custom]
        o.append('  typedef %s reactions;' % (l[0] if len(l) == 1 and s.reactions[0][0] != 'defer' else 'mpl::list< %s >' % ', '.join(l)))
        return '\n'.join(o)

    # -- code ---------------------------------------------------------------------
    def cpp(self, body='', machine_extra='', includes=''):
        o = ['#include "common.hpp"', includes]
        o.append('struct Ev1 : sc::event< Ev1 > { int payload; };')
        o.append('struct Ev2 : sc::event< Ev2 > {};\nstruct Ev3 : sc::event< Ev3 > {};')
        for s in self.order:
            o.append('struct %s;' % s)
        o.append('struct M : sc::state_machine< M, %s, ALLOC, XLATE >\n{' % self.initial)
        o.append('  M() {} ~M() { hook_dtor_machine( this ); }')
        for ev in ('Ev1', 'Ev2', 'Ev3'):
            o.append('  void act( const %s & e ) { void hook_action( M *, const void * ); hook_action( this, &e ); }' % ev)
        o.append('  void actb( const sc::event_base & e ) { void hook_action( M *, const void * ); hook_action( this, &e ); }')
        o.append('  void unconsumed_event( const sc::event_base & e ) { hook_unconsumed( this, &e ); }')
        o.append(machine_extra + '};')
        for n in self.order:
            s = self.st[n]
            ctx = s.ctx or 'M'
            c = ctx if not s.region else '%s::orthogonal< %d >' % (ctx, s.region)
            ini = ''
            H = {'sh': 'sc::shallow_history', 'dh': 'sc::deep_history'}
            if s.regions:
                l = ['%s< %s >' % (H[i[0]], i[1]) if isinstance(i, tuple) else i for i in s.regions]
                ini = ', mpl::list< %s >' % ', '.join(l)
                if len(l) == 1:
                    ini = ', ' + l[0] if not isinstance(s.regions[0], tuple) else ini
            if s.hist:
                if not ini:
                    ini = ', mpl::list<>'
                ini += ', sc::has_%s_history' % {'s': 'shallow', 'd': 'deep', 'f': 'full'}[s.hist]
            o.append('struct %s : sc::%s< %s, %s%s >\n{' % (n, 'state' if s.kind == 'state' else 'simple_state', n, c, ini))
            en = 'void hook_enter( void *, %s * ); hook_enter( this, this );' % n
            if s.kind == 'state':
                o.append('  %s( my_context ctx ) : my_base( ctx ) { %s }' % (n, en))
            else:
                o.append('  %s() { %s }' % (n, en))
            o.append('  ~%s() { void hook_dtor( void *, %s * ) noexcept; hook_dtor( this, this ); }' % (n, n))
            o.append('  void exit() { void hook_exit( void *, %s * ); hook_exit( this, this ); }' % n)
            for ev in ('Ev1', 'Ev2', 'Ev3'):
                o.append('  void act( const %s & e ) { void hook_action( %s *, const void * ); hook_action( this, &e ); }' % (ev, n))
            o.append('  void actb( const sc::event_base & e ) { void hook_action( %s *, const void * ); hook_action( this, &e ); }' % n)
            if s.reactions is not None:
                o.append(self.reaction_cpp(s))
            o.append(s.extra)
            o.append('};')
        o.append('using sc::detail::result_utility;')
        o.append(body)
        return '\n'.join(o)


def gen(name, text):
    d = build.VERIF + '/build/gen'
    os.makedirs(d, exist_ok=True)
    p = '%s/%s-%s.cpp' % (d, name, hashlib.sha256(text.encode()).hexdigest()[:12])
    if not os.path.exists(p):
        t = p + '.%d' % os.getpid()
        open(t, 'w').write(text)
        os.rename(t, p)
    return p


# two levels of orthogonal regions, single chains, siblings
T1 = Chart('t1', [
    St('A', '', 0, ['B', 'C', 'D'], 'state'),
    St('B', 'A', 0, ['B1'], 'simple'),
    St('B1', 'B', 0, ['B11'], 'state'),
    St('B11', 'B1', 0, []),
    St('B12', 'B1', 0, [], 'state'),
    St('B2', 'B', 0, ['P', 'Q']),
    St('P', 'B2', 0, ['P1'], 'state'),
    St('P1', 'P', 0, []),
    St('P2', 'P', 0, []),
    St('Q', 'B2', 1, []),
    St('Q2', 'B2', 1, ['Q21'], 'simple'),
    St('Q21', 'Q2', 0, [], 'state'),
    St('BB', 'A', 0, []),
    St('C', 'A', 1, ['C1'], 'state'),
    St('C1', 'C', 0, []),
    St('C2', 'C', 0, ['C21']),
    St('C21', 'C2', 0, []),
    St('D', 'A', 2, [], 'state'),
    St('D2', 'A', 2, ['R', 'S'], 'state'),
    St('R', 'D2', 0, []),
    St('S', 'D2', 1, []),
    St('Z', '', 0, [], 'simple'),
    St('Y', '', 0, ['Y1'], 'state'),
    St('Y1', 'Y', 0, ['Y11', 'Y12'], 'state'),
    St('Y11', 'Y1', 0, []),
    St('Y12', 'Y1', 1, []),
])


def pairs(ch):
    return [(s, d) for s in ch.order for d in ch.order if ch.valid(s, d)]


def histpairs(ch):
    """transitions to history points"""
    out = []
    for d in ch.order:
        c = ch.st[d].ctx
        for k, hs in (('sh', 'sf'), ('dh', 'df')):
            if c and ch.st[c].hist and ch.st[c].hist in hs:
                for s in ch.order:
                    if ch.valid(s, (k, d)):
                        out.append((s, (k, d)))
    return out


HT = {'sh': 'sc::shallow_history', 'dh': 'sc::deep_history'}


def transit_src(ch, prs, relax=False):
    """entries for transitions; action contexts: every legal one"""
    b = []
    ents = []
    for s, d in prs:
        c = ch.common(s, d)
        dn = d if isinstance(d, str) else d[0] + d[1]
        dt = d if isinstance(d, str) else '%s< %s >' % (HT[d[0]], d[1])
        b.append('extern "C" int entry_t_%s_%s( %s & s ) { return result_utility::get_result( s.transit< %s >() ); }' % (s, dn, s, dt))
        ents.append(('entry_t_%s_%s' % (s, dn), s, d, None))
        cs = ch.ctxs(s)
        cands = cs[cs.index(c):] if not relax else [s] + cs
        for k in cands:
            n = 'entry_a_%s_%s_%s' % (s, dn, k or 'M')
            b.append('extern "C" int %s( %s & s, const Ev1 & e ) { return result_utility::get_result( s.transit< %s >( static_cast< void (%s::*)( const Ev1 & ) >( &%s::act ), e ) ); }' % (n, s, dt, k or 'M', k or 'M'))
            ents.append((n, s, d, k))
    return '\n'.join(b), ents


def clear_src(ch):
    """clear_shallow_history / clear_deep_history of every history region,
    called on every state and on the machine"""
    b = []
    ents = []
    for c in ch.order:
        h = ch.st[c].hist
        if not h:
            continue
        for r in range(len(ch.st[c].regions)):
            for k, hs in (('shallow', 'sf'), ('deep', 'df')):
                if h in hs:
                    for s in [x for x in ch.order if c == x or c in ch.ctxs(x)] + ['M']:
                        n = 'entry_clear_%s_%s_%d_%s' % (k, c, r, s)
                        b.append('extern "C" void %s( %s & s ) { s.clear_%s_history< %s, %d >(); }' % (n, s, k, c, r))
                        ents.append((n, k, '%s/%d' % (c, r), s))
    return '\n'.join(b), ents


# histories of all kinds, nested
T2 = Chart('t2', [
    St('A', '', 0, ['B', 'C'], 'state', 's'),
    St('B', 'A', 0, ['B1']),
    St('B1', 'B', 0, [], 'state'),
    St('C', 'A', 1, []),
    St('C2', 'A', 1, ['C21'], 'state', 's'),
    St('C21', 'C2', 0, ['C211']),
    St('C211', 'C21', 0, []),
    St('D', '', 0, ['E'], 'simple', 'd'),
    St('E', 'D', 0, ['F'], 'state', 'd'),
    St('F', 'E', 0, ['F1'], 'simple', 's'),
    St('F1', 'F', 0, []),
    St('F2', 'F', 0, ['F21'], 'state'),
    St('F21', 'F2', 0, [], 'state'),
    St('E2', 'D', 0, []),
    St('G', '', 0, ['H'], 'state', 'f'),
    St('H', 'G', 0, ['H1'], 'simple', 'f'),
    St('H1', 'H', 0, []),
    St('H2', 'H', 0, [], 'state'),
    St('N', '', 0, ['O', 'P']),
    St('O', 'N', 0, ['O1']),
    St('O1', 'O', 0, []),
    St('P', 'N', 1, ['Q', 'R'], 'state', 'd'),
    St('Q', 'P', 0, ['Q1']),
    St('Q1', 'Q', 0, []),
    St('R', 'P', 1, ['R1'], 'state'),
    St('R1', 'R', 0, []),
])

# history as inner initial states and as transition destinations
T3 = Chart('t3', [
    St('A', '', 0, ['B', ('sh', 'C'), 'D'], 'state', 's'),
    St('B', 'A', 0, []),
    St('C', 'A', 1, ['C1']),
    St('C1', 'C', 0, [], 'state'),
    St('C2', 'A', 1, []),
    St('D', 'A', 2, ['D1'], 'state'),
    St('D1', 'D', 0, []),
    St('E', '', 0, [('dh', 'F')], 'simple', 'd'),
    St('F', 'E', 0, ['F1'], 'state'),
    St('F1', 'F', 0, []),
    St('F2', 'F', 0, []),
    St('G', '', 0, [('sh', 'H'), ('dh', 'J')], 'state', 'f'),
    St('H', 'G', 0, []),
    St('J', 'G', 1, ['J1']),
    St('J1', 'J', 0, [], 'state'),
    St('X', '', 0, []),
    St('Y', 'A', 0, [('sh', 'Y1')], 'state', 's'),
    St('Y1', 'Y', 0, []),
])


# many regions, deep nesting
T5 = Chart('t5', [
    St('A', '', 0, ['B', 'C', 'D', 'E', 'F'], 'state'),
    St('B', 'A', 0, []),
    St('C', 'A', 1, ['C1']),
    St('C1', 'C', 0, [], 'state'),
    St('D', 'A', 2, []),
    St('E', 'A', 3, ['E1', 'E2', 'E3', 'E4']),
    St('E1', 'E', 0, []),
    St('E2', 'E', 1, [], 'state'),
    St('E3', 'E', 2, []),
    St('E4', 'E', 3, []),
    St('E5', 'E', 3, []),
    St('F', 'A', 4, [], 'state'),
    St('F2', 'A', 4, []),
    St('L', '', 0, ['L1']),
    St('L1', 'L', 0, ['L2'], 'state'),
    St('L2', 'L1', 0, ['L3']),
    St('L3', 'L2', 0, ['L4'], 'state'),
    St('L4', 'L3', 0, ['L5']),
    St('L5', 'L4', 0, ['L6']),
    St('L6', 'L5', 0, [], 'state'),
    St('L7', 'L5', 0, []),
])


# histories over many regions, deep nesting below histories
T6 = Chart('t6', [
    St('A', '', 0, ['B', 'C', 'D', 'E'], 'state', 'f'),
    St('B', 'A', 0, []),
    St('C', 'A', 1, ['C1']),
    St('C1', 'C', 0, ['C11'], 'state'),
    St('C11', 'C1', 0, []),
    St('C12', 'C1', 0, [], 'state'),
    St('D', 'A', 2, ['D1'], 'state', 's'),
    St('D1', 'D', 0, []),
    St('D2', 'D', 0, []),
    St('E', 'A', 3, []),
    St('E2', 'A', 3, ['E21'], 'state'),
    St('E21', 'E2', 0, []),
    St('K', '', 0, ['K1', 'K2', ('sh', 'K3')], 'simple', 's'),
    St('K1', 'K', 0, []),
    St('K2', 'K', 1, ['K21', 'K22'], 'state'),
    St('K21', 'K2', 0, []),
    St('K22', 'K2', 1, []),
    St('K3', 'K', 2, ['K31']),
    St('K31', 'K3', 0, [], 'state'),
    St('K4', 'K', 2, []),
    St('P', '', 0, ['Q'], 'state', 'f'),
    St('Q', 'P', 0, ['R'], 'simple', 'd'),
    St('R', 'Q', 0, ['S'], 'state', 's'),
    St('S', 'R', 0, ['T']),
    St('T', 'S', 0, []),
    St('T2', 'S', 0, [], 'state'),
    St('U', '', 0, []),
])


def exit_src(ch):
    b = []
    for n in ch.order:
        b.append('extern "C" void entry_exit_%s( %s & s, %s::direct_state_base_ptr_type & p, M::node_state_base_ptr_type & u, bool f ) { s.%s::exit_impl( p, u, f ); }' % (n, n, n, n))
        b.append('extern "C" void entry_new_%s( const %s::context_ptr_type & c, M & m ) { %s::deep_construct( c, m ); }' % (n, n, n))
    return '\n'.join(b)


def ops_src(ch):
    """direct entries for the list removal and terminate() of every state"""
    b = []
    for n in ch.order:
        b.append('extern "C" void entry_rm_%s( %s & s, M::state_list_type::iterator & e, M::node_state_base_ptr_type & u, bool f ) { s.%s::remove_from_state_list( e, u, f ); }' % (n, n, n))
        b.append('extern "C" int entry_term_%s( %s & s ) { return result_utility::get_result( s.terminate() ); }' % (n, n))
    return '\n'.join(b)


def react_chart():
    """states with every kind of reaction, for specific events and event_base,
    alone and in lists"""
    def rs(*names):
        return [('custom', e) for e in names]
    lists = [
        [('custom', 'Ev1')], [('custom', '*')], [('in', 'Ev1', None)], [('in', '*', None)], [('in', 'Ev1', 'I')], [('in', '*', 'I')],
        [('in', 'Ev1', 'self')], [('in', '*', 'self')], [('in', 'Ev1', '')], [('term', 'Ev1')], [('term', '*')], [('defer', 'Ev1')], [('defer', '*')],
        [('trans', 'Ev1', 'D', None)], [('trans', '*', 'D', None)], [('trans', 'Ev1', 'D', 'I')], [('trans', '*', 'D', 'I')], [('trans', 'Ev1', 'D', '')],
        rs('Ev2', 'Ev1'), rs('*', 'Ev1'), rs('Ev1', '*'), rs('Ev1', 'Ev2', 'Ev3'),
        [('custom', 'Ev1'), ('trans', 'Ev1', 'D', 'I')], [('trans', 'Ev1', 'D', 'I'), ('custom', 'Ev1')],
        [('defer', 'Ev2'), ('term', 'Ev1'), ('in', '*', 'self')], [('in', 'Ev2', None), ('defer', '*'), ('term', 'Ev1')],
        [('term', 'Ev2'), ('trans', 'Ev3', 'D', ''), ('custom', 'Ev1'), ('defer', 'Ev1')],
        [('in', 'Ev1', 'self'), ('in', 'Ev2', 'I'), ('custom', 'Ev3'), ('custom', '*')],
        [('trans', 'Ev2', 'O', None), ('defer', 'Ev3'), ('trans', '*', 'D', 'I')],
        [('defer', 'Ev1'), ('defer', 'Ev2')],
        [],
    ]
    sts = [St('O', '', 0, ['I'], 'state'), St('I', 'O', 0, ['D'], 'simple', None, '', [('custom', 'Ev1'), ('defer', 'Ev2')]), St('D', 'I', 0, [])]
    for i, l in enumerate(lists):
        n = 'S%d' % i
        l = [tuple(n if x == 'self' else x for x in r) for r in l]
        sts.append(St(n, 'I', 0, ['S%dx' % i, 'S%dy' % i] if i % 5 == 2 else [], 'state' if i % 2 else 'simple', None, '', l))
        if i % 5 == 2:
            sts.append(St(n + 'x', n, 0, []))
            sts.append(St(n + 'y', n, 1, []))
    sts.append(St('W', '', 0, [], 'simple', None, '', [('custom', 'Ev1'), ('in', 'Ev2', '')]))
    return Chart('react', sts)


T4 = react_chart()


def react_src(ch):
    b = []
    ents = []
    for n in ch.order:
        for ev in ('Ev1', 'Ev2', 'Ev3'):
            e = 'entry_react_%s_%s' % (n, ev)
            b.append('extern "C" int %s( %s & s, const sc::event_base & e ) { return s.%s::react_impl( e, %s::static_type() ); }' % (e, n, n, ev))
            ents.append((e, n, ev))
        b.append('extern "C" int entry_defer_%s( %s & s ) { return result_utility::get_result( s.defer_event() ); }' % (n, n))
        b.append('extern "C" int entry_discard_%s( %s & s ) { return result_utility::get_result( s.discard_event() ); }' % (n, n))
        b.append('extern "C" int entry_forward_%s( %s & s ) { return result_utility::get_result( s.forward_event() ); }' % (n, n))
    return '\n'.join(b), ents


def signature(ch, s, d, act):
    """shape of a transition: what distinguishes the library code involved"""
    c = ch.common(s, d)
    cs = [s] + ch.ctxs(s)
    path = ch.path(d, c)
    return (cs.index(c), c == '', len(path), tuple(ch.region(x) for x in path[1:]), path[-1][0] if isinstance(path[-1], tuple) else '',
            None if act is None else cs.index(act) - cs.index(c), not ch.st[s].regions)


def shapes(ch, ents):
    """one entry per distinct shape"""
    seen = {}
    for e in ents:
        seen.setdefault(signature(ch, *e[1:]), e)
    return list(seen.values())


def entry_text(ch, e, relax=False):
    n, s, d, act = e
    dt = d if isinstance(d, str) else '%s< %s >' % (HT[d[0]], d[1])
    if act is None:
        return 'extern "C" int %s( %s & s ) { return result_utility::get_result( s.transit< %s >() ); }' % (n, s, dt)
    return 'extern "C" int %s( %s & s, const Ev1 & e ) { return result_utility::get_result( s.transit< %s >( static_cast< void (%s::*)( const Ev1 & ) >( &%s::act ), e ) ); }' % (n, s, dt, act or 'M', act or 'M')


def access_src(ch):
    """every way to get from a state to its contexts and its machine"""
    b = []
    ents = []
    for n in ch.order:
        for c in [n] + ch.ctxs(n):
            T = c or 'M'
            # the documented domain: contexts; on a non-const state also the state itself
            for k, q in (('ctx', ''), ('cctx', 'const '))[:1 if c == n else 2]:
                for pre in ('', 'I_'):
                    e = 'entry_%s_%s_%s%s' % (k, n, pre, T)
                    b.append('extern "C" const void * %s( %s%s & s ) { return &s.context< %s%s >(); }' % (e, q, n, pre, T))
                    ents.append((e, n, 'context', c, pre == 'I_'))
        b.append('extern "C" const void * entry_oc_%s( %s & s ) { return &s.outermost_context(); }' % (n, n))
        b.append('extern "C" const void * entry_coc_%s( const %s & s ) { return &s.outermost_context(); }' % (n, n))
        b.append('extern "C" const void * entry_osp_%s( const %s & s ) { return s.%s::outer_state_ptr(); }' % (n, n, n))
        b.append('extern "C" const void * entry_te_%s( const %s & s ) { return s.triggering_event(); }' % (n, n))
        b.append('extern "C" bool entry_sb_%s( const %s & s, const M & m ) { return s.state_begin() == m.state_begin(); }' % (n, n))
        b.append('extern "C" bool entry_se_%s( const %s & s, const M & m ) { return s.state_end() == m.state_end(); }' % (n, n))
        for k, what in (('oc', 'machine'), ('coc', 'machine'), ('osp', 'outer'), ('te', 'trigger'), ('sb', 'begin'), ('se', 'end')):
            ents.append(('entry_%s_%s' % (k, n), n, what, '', False))
        b.append('extern "C" void entry_pr_%s( %s & s, const sc::event_base & e ) { s.post_event( e ); }' % (n, n))
        b.append('extern "C" void entry_pp_%s( %s & s, const boost::intrusive_ptr< const sc::event_base > & e ) { s.post_event( e ); }' % (n, n))
        t = ch.order[(ch.order.index(n) + 3) % len(ch.order)]
        b.append('extern "C" const void * entry_qc_%s( const %s & s ) { return s.state_cast< const %s * >(); }' % (n, n, t))
        b.append('extern "C" const void * entry_qd_%s( const %s & s ) { return s.state_downcast< const %s & >(); }' .replace('return s', 'return &s') % (n, n, t))
        ents.append(('entry_pr_%s' % n, n, 'post', False, False))
        ents.append(('entry_pp_%s' % n, n, 'post', True, False))
        ents.append(('entry_qc_%s' % n, n, 'castp', t, False))
        ents.append(('entry_qd_%s' % n, n, 'downr', t, False))
    import re
    def cpp():
        t = ch.cpp('\n'.join(b))
        ifs = ''.join('struct I_%s { long in_%s; };\n' % (n, n) for n in ['M'] + ch.order)
        t = re.sub(r'struct (\w+) : (sc::\w+<.*>)\n\{', lambda m: 'struct %s : %s, I_%s\n{' % (m.group(1), m.group(2), m.group(1)), t)
        return t.replace('struct Ev1', ifs + 'struct Ev1', 1)
    return cpp, ents

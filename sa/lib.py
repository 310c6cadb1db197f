"""Semantic layer: recognises the library's data structures (machine fields,
lists, history maps, intrusive reference counts), the user hooks and the
virtual functions in the event stream of the engine."""
import re
from engine import *

ROLE_NAMES = {
    'eventQueue': 'eventQueue_', 'deferred': 'deferredEventQueue_', 'states': 'currentStates_',
    'statesEnd': 'currentStatesEnd_', 'outermost': 'pOutermostState_', 'common': 'isInnermostCommonOuter_',
    'unstable': 'pOutermostUnstableState_', 'fullExit': 'performFullExit_', 'shallow': 'shallowHistoryMap_',
    'deep': 'deepHistoryMap_', 'trigger': 'pTriggeringEvent_', 'translator': 'translator_'}
ROLE_TYPES = {
    'eventQueue': r'list<boost::intrusive_ptr<const boost::statechart::event_base',
    'deferred': r'list<boost::intrusive_ptr<const boost::statechart::event_base',
    'states': r'list<boost::intrusive_ptr<boost::statechart::detail::leaf_state',
    'statesEnd': r'_List_iterator<boost::intrusive_ptr<boost::statechart::detail::leaf_state',
    'outermost': r'state_base<.*\*$', 'common': r'^bool$', 'unstable': r'intrusive_ptr<boost::statechart::detail::node_state_base',
    'fullExit': r'^bool$', 'shallow': r'^std::map<', 'deep': r'^std::map<', 'trigger': r'^const boost::statechart::event_base\*$',
    'translator': r'translator'}
ORDER = ['eventQueue', 'deferred', 'states', 'statesEnd', 'outermost', 'common', 'unstable', 'translator', 'fullExit', 'shallow', 'deep', 'trigger']


class Layout:
    def __init__(self, m, machine_rx=r'^boost::statechart::state_machine<'):
        cs = [c for c in m.classes if re.search(machine_rx, c['name']) and len(c['members']) >= 8]
        if not cs:
            raise EngineError('state_machine class not found in debug info')
        self.cls = cs[0]
        self.off = {}
        self.size = {}
        members = [(nm, off, ty, sz) for nm, off, ty, sz, ow in m.flat_members(self.cls) if not nm.startswith('_vptr')]
        byname = {x[0]: x for x in members}
        used = set()
        for r in ORDER:
            x = byname.get(ROLE_NAMES[r])
            if x:
                self.off[r] = x[1]; self.size[r] = x[3]; used.add(x[0])
        for r in ORDER:
            if r in self.off:
                continue
            c = [x for x in members if x[0] not in used and re.search(ROLE_TYPES[r], x[2])]
            if c:
                x = c[0]
                self.off[r] = x[1]; self.size[r] = x[3]; used.add(x[0])
            elif r != 'translator':
                raise EngineError('no member of state_machine plays the role %s' % r)
        self.byoff = {}
        self.members = members
        for r in self.off:
            self.byoff[self.off[r]] = r
        self.total = self.cls['size']

    def role_at(self, off):
        """(role, delta) of the field containing offset off"""
        for r, o in self.off.items():
            if o <= off < o + max(1, self.size[r]):
                return r, off - o
        return None, None


def field_offset(m, class_rx, member, type_rx=None):
    for c in m.classes:
        if re.search(class_rx, c['name']):
            for nm, off, ty, sz, ow in m.flat_members(c):
                if nm == member:
                    return off
            if type_rx:
                for nm, off, ty, sz, ow in m.flat_members(c):
                    if re.search(type_rx, ty):
                        return off
    return None


LISTS = ('eventQueue', 'deferred', 'states')
HDR = 0  # list header offset: next +0, prev +8, size +16

RESULT = {0: 'no_reaction', 1: 'do_forward_event', 2: 'do_discard_event', 3: 'do_defer_event', 4: 'consumed'}


class LibRule(Rule):
    """machine-level rule; subclasses override ev()"""
    MACHINE = ('arg', 0)
    MOFF = 0
    keep_on_react = ('trigger', 'fullExit')
    lists = LISTS
    post_only = ('eventQueue', 'shallow', 'deep')
    sticky_nodes = False

    def __init__(self, mod, lay):
        self.mod = mod
        self.lay = lay
        self.nodeset = set()

    # -- helpers ---------------------------------------------------------------
    def fptr(self, role, d=0):
        return ('p', self.MACHINE, self.MOFF + self.lay.off[role] + d)

    def role_of(self, ptr):
        if isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[1] == self.MACHINE:
            return self.lay.role_at(ptr[2] - self.MOFF)
        return None, None

    def get(self, eng, st, role, d=0, size=8):
        p = self.fptr(role, d)
        c = st.mem.get(p[1], {}).get(p[2])
        return c[0] if c else None

    def name_of(self, v):
        r, d = self.role_of(v)
        if r:
            return ('&' + r) + ('+%d' % d if d else '')
        return None

    def empty(self, eng, st, role):
        """True / False / None: is list `role` empty"""
        n = self.get(eng, st, role, 0)
        if n is not None:
            r = eng.cmp(st, 'eq', n, self.fptr(role))
            if r is not None:
                return r
        n = self.get(eng, st, role, 8)
        if n is not None:
            r = eng.cmp(st, 'eq', n, self.fptr(role))
            if r is not None:
                return r
        z = self.get(eng, st, role, 16)
        if z is not None:
            return eng.cmp(st, 'eq', z, 0)
        return None

    def havoc_roles(self, eng, st, keep=(), only=None):
        c = st.mem.get(self.MACHINE)
        if not c:
            return
        for o in list(c):
            r, d = self.lay.role_at(o - self.MOFF)
            if only is not None:
                if r in only:
                    del c[o]
            elif r is None:
                if o != self.MOFF:
                    del c[o]
            elif r not in keep:
                del c[o]

    def setup(self, eng, st, args):
        st.mem[self.MACHINE] = {}

    def ev(self, eng, st, kind, *d, loc=None):
        pass

    def g(self, st, k, d=None):
        return d

    def s(self, st, **kw):
        pass

    # -- engine callbacks --------------------------------------------------------
    def on_store(self, eng, st, ptr, val, size, loc):
        if isinstance(ptr, tuple) and ptr[0] == 'p' and ptr[2] == 16 and size == 8 and self.is_node(eng, ptr[1]):
            old = self.mget(st, ptr, 0)
            if old is not None and old != val:
                self.ev(eng, st, 'elemstore', old, val, ('p', ptr[1], 0), loc=loc)
        r, d = self.role_of(ptr)
        if r is not None:
            if r in self.lists or r in ('shallow', 'deep'):
                # link fields of a list header: (re)initialisation
                self.ev(eng, st, 'lstore', r, d, val, loc=loc)
            else:
                self.ev(eng, st, 'fstore', r, val, loc=loc)
        elif isinstance(ptr, tuple) and ptr[0] == 'p':
            b = ptr[1]
            if b[0] == 'o' and b[1] == 'slot' and ptr[2] == 0:
                self.ev(eng, st, 'mapstore', b[2], b[3], val, loc=loc)
            elif b[0] == 'o' and b[1] == 'mapnode' and ptr[2] == 48:
                self.ev(eng, st, 'mapstore', b[2], b[3], val, loc=loc)
            else:
                self.ev(eng, st, 'store', ptr, val, size, loc=loc)

    def is_node(self, eng, b, depth=0):
        """does base b denote a list node (by the way its address was obtained)"""
        if b[0] != 's' or depth > 8:
            return False
        if len(b) > 1 and b[1] == 'lf' or self.sticky_nodes and b in self.nodeset:
            return True
        q = eng.desc.get(b)
        if not q:
            return False
        if q[0] == self.MACHINE:
            r, d = self.lay.role_at(q[1] - self.MOFF)
            y = (r in self.lists and d in (0, 8)) or r == 'statesEnd'
        else:
            y = q[1] in (0, 8) and self.is_node(eng, q[0], depth + 1)
        if y and self.sticky_nodes:
            # the address keeps denoting nodes when its symbol is reused further down the list
            self.nodeset.add(b)
        return y

    def distinct(self, eng, st, a, b):
        """a node of one of the machine's lists is not a local variable"""
        for x, y in ((a, b), (b, a)):
            if x[1][0] == 'a' and self.is_node(eng, y[1]):
                return True
        return None

    def lazy(self, eng, st, b, o, ty, size):
        """the links of a list are mutually inverse"""
        if o in (0, 8) and size == 8:
            cands = []
            for n, cells in st.mem.items():
                v = cells.get(8 - o)
                if v and v[0] == ('p', b, 0) and v[1] == 8 and n != b and self.is_node(eng, n):
                    cands.append(n)
            if len(cands) == 1 and self.is_node(eng, b):
                return ('p', cands[0], 0)
        return None

    def weak(self, eng, b, o):
        """links between list nodes do not keep the next node's description alive"""
        return o in (0, 8) and b[0] == 's' and self.is_node(eng, b)

    def on_load(self, eng, st, ptr, val, size, loc):
        if self.sticky_nodes and size == 8 and isinstance(val, tuple) and val[0] == 'p':
            self.is_node(eng, val[1])
        # invariant of the library's lists: elements are non-null pointers
        if size == 8 and isinstance(val, tuple) and val[0] == 'p' and val[1][0] == 's' and isinstance(ptr, tuple) and ptr[0] == 'p' \
                and ptr[2] == 16 and self.is_node(eng, ptr[1]):
            k = ('eq', val, 0)
            if k not in st.facts:
                st.facts[k] = False

    def pre_equate(self, eng, st, s, val):
        return True

    # list refinement: header.next == &header  <=>  header.prev == &header <=> size == 0
    def on_vcall(self, eng, st, c):
        return self.vcall(eng, st, c)

    def vcall(self, eng, st, c):
        eng.event(st, 'virtual call %s(%s)' % (c.method, ', '.join(eng.show(a) for a in c.args)), c.loc)
        self.ev(eng, st, 'vcall', c.method, c.args, loc=c.loc)
        if c.method == 'react_impl':
            self.havoc_roles(eng, st, keep=self.keep_on_react)
            v = eng.fresh(st, 'react', st.frames[-1].ctx, c.id)
            return self.after(eng, st, c, v)
        if c.method == 'remove_from_state_list':
            self.havoc_roles(eng, st, keep=('trigger', 'fullExit', 'common'))
            self.havoc_objs(eng, st)
            self.havoc_arg(eng, st, c.args[1])
            self.havoc_arg(eng, st, c.args[2])
            return self.after(eng, st, c, None)
        if c.method == 'exit_impl':
            self.havoc_roles(eng, st, keep=('trigger', 'fullExit', 'common', 'statesEnd'))
            self.havoc_objs(eng, st)
            self.havoc_arg(eng, st, c.args[1])
            self.havoc_arg(eng, st, c.args[2])
            return self.after(eng, st, c, None)
        if c.method == 'outer_state_ptr':
            v = eng.fresh(st, 'outer', st.frames[-1].ctx, c.id)
            return [(st, 'ret', v)]
        if c.method == 'clone':
            return self.vclone(eng, st, c)
        if c.method and c.method.startswith('~'):
            return [(st, 'ret', None)]
        return None

    def havoc_objs(self, eng, st):
        pass

    def vclone(self, eng, st, c):
        # returns an intrusive_ptr via sret: args[0] = result slot, args[1] = this
        v = eng.fresh(st, 'clone', st.frames[-1].ctx, c.id)
        eng.assume(st, ('cmp', 'ne', v, 0), True)
        if len(c.args) >= 2:
            st.trace = st.trace
            eng.store(st, c.args[0], v, 'p', 8)
            self.ev(eng, st, 'clone', c.args[1], v, loc=c.loc)
        return self.after(eng, st, c, None)

    def havoc_arg(self, eng, st, p):
        if isinstance(p, tuple) and p[0] == 'p':
            eng.havoc(st, p[1], p[2], p[2] + 8)

    def after(self, eng, st, c, v):
        if c.nounwind:
            self.ev(eng, st, 'ret', c.method or c.dem, v, loc=c.loc)
            return [(st, 'ret', v)]
        s2 = st.copy()
        self.ev(eng, s2, 'throw', c.method or c.dem, loc=c.loc)
        eng.event(s2, '%s throws' % (c.method or c.dem), c.loc)
        self.ev(eng, st, 'ret', c.method or c.dem, v, loc=c.loc)
        return [(st, 'ret', v), (s2, 'throw', ('exc', 'user'))]

    def on_unknown_call(self, eng, st, c):
        d = c.dem or ''
        m = re.match(r'^hook_(\w+)(\((.*)\))?$', d)
        if not m:
            return self.unknown(eng, st, c)
        k = m.group(1)
        who = None
        if m.group(3):
            mm = re.search(r'([\w:]+)( const)?\*', m.group(3).split(', ')[-1] if k in ('enter', 'exit', 'dtor') else m.group(3))
            who = mm.group(1) if mm else None
        eng.event(st, 'hook %s %s(%s)' % (k, who or '', ', '.join(eng.show(a) for a in c.args)), c.loc)
        self.ev(eng, st, 'hook', k, who, c.args, loc=c.loc)
        if k in ('react',):
            self.havoc_roles(eng, st, keep=self.keep_on_react)
        elif k in ('unconsumed',):
            self.havoc_roles(eng, st, keep=self.keep_on_react)
        else:
            self.havoc_roles(eng, st, only=self.post_only)
        self.hook_effect(eng, st, k, who, c)
        v = eng.fresh(st, 'hook', st.frames[-1].ctx, c.id) if c.ret != 'v' else None
        c.method = 'hook_' + k
        if c.fn is not None and c.fn.nounwind:
            c.nounwind = True
        return self.after(eng, st, c, v)

    def hook_effect(self, eng, st, k, who, c):
        pass

    def unknown(self, eng, st, c):
        return None

    # -- primitives ----------------------------------------------------------------
    def h_addref(self, eng, st, c):
        self.ev(eng, st, 'addref', c.args[0], loc=c.loc)
        return [(st, 'ret', None)]

    def h_release(self, eng, st, c):
        self.ev(eng, st, 'release', c.args[0], 'simple_state<' in c.dem, loc=c.loc)
        return [(st, 'ret', None)]

    def list_of(self, ptr):
        r, d = self.role_of(ptr)
        if r in self.lists and d == 0:
            return r
        return None

    def list_with(self, eng, st, node):
        """(list, 'front'|'back'|None) if node is known to be the first / last"""
        for r in self.lists:
            if self.get(eng, st, r, 0) == node and node is not None:
                return r, 'front'
        for r in self.lists:
            if self.get(eng, st, r, 8) == node and node is not None:
                return r, 'back'
        return None, None

    def drop_links(self, eng, st, role, nonempty=None):
        c = st.mem.setdefault(self.MACHINE, {})
        o = self.MOFF + self.lay.off[role]
        for d in (0, 8):
            c.pop(o + d, None)

    # lists in local variables: the links are kept in memory as far as known
    def is_local(self, p):
        return isinstance(p, tuple) and p[0] == 'p' and p[1][0] == 'a' and not (p[1] == self.MACHINE)

    def mget(self, st, p, d):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return None
        v = st.mem.get(p[1], {}).get(p[2] + d)
        return v[0] if v else None

    def local_list(self, st, p):
        """nodes of the list in a local variable with header p (None: unknown)"""
        if not self.is_local(p):
            return None
        out = []
        n = self.mget(st, p, 0)
        while n != p:
            if n is None or not (isinstance(n, tuple) and n[0] == 'p') or len(out) > 6:
                return None
            out.append(n)
            n = self.mget(st, n, 0)
        return out

    def local_set(self, eng, st, p, nodes):
        seq = [p] + list(nodes) + [p]
        for a, b in zip(seq, seq[1:]):
            eng.put(st, a[1], a[2], b, 8)
            eng.put(st, b[1], b[2] + 8, a, 8)

    def local_header(self, st, p):
        """header of the local list position p belongs to"""
        for i in range(8):
            if self.is_local(p):
                return p
            p = self.mget(st, p, 0)
            if p is None:
                return None
        return None

    def take_front(self, eng, st, role, node, loc):
        """node leaves the front of list role"""
        nx = self.mget(st, node, 0)
        q = ('p', node[1], node[2] + 16)
        v = eng.load(st, q, 'p', 8, None, ('elem', node[1]))
        LibRule.on_load(self, eng, st, q, v, 8, loc)
        self.ev(eng, st, 'remove', role, 'front', v, node, loc=loc)
        eng.event(st, 'move the front of %s to a local list' % role, loc)
        cm = st.mem.setdefault(self.MACHINE, {})
        o = self.MOFF + self.lay.off[role]
        cm.pop(o, None); cm.pop(o + 8, None)
        if nx is not None:
            cm[o] = (nx, 8)
        for d in (0, 8):
            st.mem.get(node[1], {}).pop(node[2] + d, None)

    def local_transfer(self, eng, st, c):
        pos, first, last = c.args[0], c.args[1], c.args[2]
        dh = pos if self.is_local(pos) else None
        if dh is not None:
            dn = self.local_list(st, dh)
            if dn is None:
                return None
            r, where = self.list_with(eng, st, first)
            if r and where == 'front' and self.mget(st, first, 0) == last and last is not None and self.list_of(last) is None:
                self.take_front(eng, st, r, first, c.loc)
                self.local_set(eng, st, dh, dn + [first])
                return [(st, 'ret', None)]
            if r and where == 'front' and self.list_of(last) == r and self.get(eng, st, r, 8) == first:
                # the only element
                self.take_front(eng, st, r, first, c.loc)
                cm = st.mem.setdefault(self.MACHINE, {})
                o = self.MOFF + self.lay.off[r]
                cm[o] = (self.fptr(r), 8); cm[o + 8] = (self.fptr(r), 8)
                self.local_set(eng, st, dh, dn + [first])
                return [(st, 'ret', None)]
            return None
        sh = self.local_header(st, last) if self.local_header(st, first) is not None else None
        if sh is None:
            return None
        sn = self.local_list(st, sh)
        if sn is None or first not in sn or (last != sh and last not in sn):
            return None
        i = sn.index(first)
        j = len(sn) if last == sh else sn.index(last)
        moved, rest = sn[i:j], sn[:i] + sn[j:]
        out = [(st, 'ret', None)]
        for n in moved:
            class Call:
                pass
            k = Call()
            k.args = [n, pos]; k.loc = c.loc; k.ins = c.ins; k.dem = c.dem
            out = self.h_hook(eng, st, k)
        self.local_set(eng, st, sh, rest)
        return out

    def h_hook(self, eng, st, c):
        node, pos = c.args[0], c.args[1]
        if self.is_local(pos):
            ns = self.local_list(st, pos)
            if ns is not None:
                self.local_set(eng, st, pos, ns + [node])
            return [(st, 'ret', None)]
        val = st.mem.get(node[1], {}).get(node[2] + 16) if isinstance(node, tuple) and node[0] == 'p' else None
        val = val[0] if val else None
        r = self.list_of(pos)
        if r:
            first = self.get(eng, st, r, 0)
            wasempty = self.empty(eng, st, r)
            self.ev(eng, st, 'insert', r, 'back', val, node, loc=c.loc)
            eng.event(st, 'insert at the back of %s: %s' % (r, eng.show(val) if val is not None else '?'), c.loc)
            cm = st.mem.setdefault(self.MACHINE, {})
            o = self.MOFF + self.lay.off[r]
            cm[o + 8] = (node, 8)
            if wasempty is True:
                cm[o] = (node, 8)
            elif wasempty is None:
                f = eng.fresh(st, 'lf', st.frames[-1].ctx, c.ins[7] or 0)
                cm[o] = (f, 8)
                eng.assume(st, ('cmp', 'ne', f, self.fptr(r)), True)
            if isinstance(node, tuple) and node[0] == 'p':
                eng.put(st, node[1], node[2], self.fptr(r), 8)
            return [(st, 'ret', None)]
        r, where = self.list_with(eng, st, pos)
        if r and where == 'front':
            self.hookpos = pos
            self.ev(eng, st, 'insert', r, 'front', val, node, loc=c.loc)
            eng.event(st, 'insert at the front of %s' % r, c.loc)
            cm = st.mem.setdefault(self.MACHINE, {})
            o = self.MOFF + self.lay.off[r]
            cm[o] = (node, 8)
            if isinstance(pos, tuple) and pos[1][0] == 'h':
                # a chain of new nodes is not followed
                st.mem.get(node[1], {}).pop(node[2], None)
            else:
                eng.put(st, node[1], node[2], pos, 8)
            return [(st, 'ret', None)]
        # position known only as currentStatesEnd etc.
        if pos == self.get(eng, st, 'statesEnd'):
            self.ev(eng, st, 'insert', 'states', 'end', val, node, loc=c.loc)
            eng.event(st, 'insert before currentStatesEnd', c.loc)
            self.drop_links(eng, st, 'states')
            return [(st, 'ret', None)]
        self.hookpos = pos
        self.hookrole = None
        self.ev(eng, st, 'insert', r, '?', val, node, loc=c.loc)
        eng.event(st, 'insert at an unknown list position', c.loc)
        for x in [self.hookrole] if self.hookrole else self.lists:
            self.drop_links(eng, st, x)
        return [(st, 'ret', None)]

    def h_unhook(self, eng, st, c):
        node = c.args[0]
        h = self.local_header(st, node)
        if h is not None:
            ns = self.local_list(st, h)
            if ns is not None and node in ns:
                ns.remove(node)
                self.local_set(eng, st, h, ns)
                return [(st, 'ret', None)]
        r, where = self.list_with(eng, st, node)
        val = st.mem.get(node[1], {}).get(node[2] + 16) if isinstance(node, tuple) and node[0] == 'p' else None
        val = val[0] if val else None
        self.ev(eng, st, 'remove', r, where, val, node, loc=c.loc)
        eng.event(st, 'remove %s of %s' % (where, r), c.loc)
        if r:
            o = self.MOFF + self.lay.off[r]
            cm = st.mem.setdefault(self.MACHINE, {})
            nx = st.mem.get(node[1], {}).get(node[2]) if isinstance(node, tuple) and node[0] == 'p' else None
            cm.pop(o, None); cm.pop(o + 8, None)
            if where == 'front' and nx:
                cm[o] = nx
            for d in (0, 8):
                st.mem.get(node[1], {}).pop(node[2] + d, None)
        else:
            for x in self.lists:
                self.drop_links(eng, st, x)
        return [(st, 'ret', None)]

    def h_transfer(self, eng, st, c):
        r = self.local_transfer(eng, st, c)
        if r is not None:
            return r
        pos, first, last = c.args[0], c.args[1], c.args[2]
        dst = self.list_of(pos)
        where = 'back' if dst else None
        if not dst:
            dst, where = self.list_with(eng, st, pos)
        src = None
        lr = self.list_of(last)
        whole = False
        if lr:
            src = lr
            whole = self.get(eng, st, lr, 0) == first and first is not None
            if not whole and first is not None and self.get(eng, st, lr, 8) == first:
                whole = 'last'
        else:
            src, at = self.list_with(eng, st, first)
            if src and last is not None and self.mget(st, first, 0) == last:
                # one element
                whole = {'front': 'first', 'back': 'last'}.get(at, False)
        self.trpos = pos
        self.ev(eng, st, 'transfer', dst, where, src, whole, loc=c.loc)
        eng.event(st, 'transfer %s of %s to the %s of %s' % ('all' if whole is True else 'the %s' % whole if whole else 'part', src, where, dst), c.loc)
        for x in (dst, src):
            if x:
                self.drop_links(eng, st, x)
        if src and whole is True:
            o = self.MOFF + self.lay.off[src]
            cm = st.mem.setdefault(self.MACHINE, {})
            cm[o] = (self.fptr(src), 8); cm[o + 8] = (self.fptr(src), 8)
        if not dst and not src:
            for x in self.lists:
                self.drop_links(eng, st, x)
        return [(st, 'ret', None)]

    def h_lswap(self, eng, st, c):
        a, b = self.list_of(c.args[0]), self.list_of(c.args[1])
        self.ev(eng, st, 'lswap', a, b, loc=c.loc)
        eng.event(st, 'swap %s and %s' % (a, b), c.loc)
        for x in (a, b):
            if x:
                self.drop_links(eng, st, x)
        return [(st, 'ret', None)]

    def h_linsert(self, eng, st, c):
        # insertion of a range: copies of all elements of another list
        dst = self.list_of(c.args[0])
        if dst is None or len(c.args) != 4:
            return None
        pos, first, last = c.args[1:]
        where = 'back' if self.list_of(pos) == dst else self.list_with(eng, st, pos)[1]
        src = self.list_of(last)
        if src is None or src == dst:
            return None
        if self.get(eng, st, src, 0) != first or first is None:
            return None
        self.ev(eng, st, 'copyall', dst, where, src, loc=c.loc)
        eng.event(st, 'insert copies of all elements of %s at the %s of %s' % (src, where, dst), c.loc)
        self.drop_links(eng, st, dst)
        return [(st, 'ret', TOP)]

    def h_lop(self, eng, st, c):
        # operations of std::list that pick elements by their value
        r = self.list_of(c.args[0])
        m = re.search(r'>::(\w+)(?:<.*)?\(', c.dem)
        if r is None:
            return None
        fn = m.group(1) if m else '?'
        eng.event(st, '%s on %s' % (fn, r), c.loc)
        if fn in ('sort', 'reverse', 'merge'):
            self.ev(eng, st, 'lswap', r, r, loc=c.loc)
        else:
            self.ev(eng, st, 'remove', r, '?', 0, None, loc=c.loc)
        self.drop_links(eng, st, r)
        return [(st, 'ret', None)]

    def h_lclear(self, eng, st, c):
        r = self.list_of(c.args[0])
        if r is None and isinstance(c.args[0], tuple) and c.args[0][0] == 'p' and c.args[0][1][0] == 'a':
            # a local list: its elements are destroyed
            for n in self.local_list(st, c.args[0]) or ():
                v = self.mget(st, n, 16)
                if v is not None and v != 0:
                    self.ev(eng, st, 'release', v, False, loc=c.loc)
                    eng.event(st, 'destroy an element of a local list: %s' % eng.show(v), c.loc)
            return [(st, 'ret', None)]
        self.ev(eng, st, 'lclear', r, loc=c.loc)
        eng.event(st, 'destroy all elements of %s' % r, c.loc)
        if r:
            self.drop_links(eng, st, r)
        return [(st, 'ret', None)]

    # history maps -------------------------------------------------------------------
    def map_of(self, p):
        r, d = self.role_of(p)
        return r if r in ('shallow', 'deep') and d == 0 else None

    def key_of(self, eng, st, p):
        i = eng.load(st, p, 'p', 8, None, ('key', 0))
        q = eng.load(st, ('p', p[1], p[2] + 8), 'i8', 1, None, ('key', 1)) if isinstance(p, tuple) and p[0] == 'p' else TOP
        return self.keyname(eng, st, i, q)

    def keyname(self, eng, st, i, q):
        return '%s/%s' % (eng.show(i), eng.show(q))

    def h_map(self, eng, st, c):
        m = re.search(r'>::(operator\[\]|find|clear|erase|count|contains|insert|emplace_hint|emplace|insert_or_assign|try_emplace|at|lower_bound|upper_bound|equal_range|swap|~map|map|end|begin|empty|size|key_comp|operator=)(<.*)?\(', c.dem)
        fn = m.group(1) if m else None
        if fn in ('end', 'begin', 'empty', 'size', 'map', 'key_comp', None):
            return None
        mp = self.map_of(c.args[0])
        if mp is None and len(c.args) > 1:
            mp = self.map_of(c.args[1])
        if fn == 'clear':
            self.ev(eng, st, 'mapclear', mp, loc=c.loc)
            eng.event(st, 'clear %s history map' % mp, c.loc)
            self.drop_maps(st, mp)
            return [(st, 'ret', None)]
        if fn == '~map':
            return [(st, 'ret', None)]
        if fn == 'operator[]' or fn == 'at':
            k = self.key_of(eng, st, c.args[1])
            self.ev(eng, st, 'mapaccess', mp, k, loc=c.loc)
            return [(st, 'ret', ('p', ('o', 'slot', mp or '?', k), 0))]
        if fn == 'find':
            k = self.key_of(eng, st, c.args[1])
            self.ev(eng, st, 'mapfind', mp, k, loc=c.loc)
            s2 = st.copy()
            self.ev(eng, s2, 'mapmiss', mp, k, loc=c.loc)
            self.s(s2, mabs=(mp, k))
            eng.event(s2, 'no entry for %s in %s map' % (k, mp), c.loc)
            self.ev(eng, st, 'maphit', mp, k, loc=c.loc)
            eng.event(st, 'entry for %s in %s map' % (k, mp), c.loc)
            p = c.args[0]
            return [(st, 'ret', ('p', ('o', 'mapnode', mp or '?', k), 0)), (s2, 'ret', ('p', p[1], p[2] + 8))]
        if fn in ('count', 'contains'):
            k = self.key_of(eng, st, c.args[1])
            s2 = st.copy()
            self.ev(eng, st, 'maphit', mp, k, loc=c.loc)
            self.ev(eng, s2, 'mapmiss', mp, k, loc=c.loc)
            self.s(s2, mabs=(mp, k))
            return [(st, 'ret', 1), (s2, 'ret', 0)]
        if fn == 'erase':
            a = c.args[1]
            if isinstance(a, tuple) and a[0] == 'p' and a[1][0] == 'o' and a[1][1] == 'mapnode':
                self.ev(eng, st, 'maperase', mp, a[1][3], loc=c.loc)
            else:
                k = self.key_of(eng, st, a)
                self.ev(eng, st, 'maperase', mp, k, loc=c.loc)
            return [(st, 'ret', TOP)]
        if fn in ('insert', 'emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign'):
            r = self.map_insert(eng, st, c, mp, fn)
            if r is not None:
                return r
        self.ev(eng, st, 'mapother', mp, fn, loc=c.loc)
        return [(st, 'ret', TOP)]

    def map_insert(self, eng, st, c, mp, fn):
        """insertion of one entry: an entry that is there already stays as it is
        (insert, emplace, try_emplace) or is overwritten (insert_or_assign)"""
        params = c.dem[c.dem.rfind('>::' + fn) + 3 + len(fn):]
        a = list(c.args[1:])
        hint = fn == 'emplace_hint' or re.search(r'\(std::_Rb_tree_(const_)?iterator', params) is not None
        if hint:
            a = a[1:]
        isp = lambda x: isinstance(x, tuple) and x[0] == 'p'
        if len(a) == 1 and isp(a[0]):
            kp, vp = a[0], ('p', a[0][1], a[0][2] + 16)
        elif len(a) == 2 and isp(a[0]) and isp(a[1]):
            kp, vp = a
        else:
            return None
        k = self.key_of(eng, st, kp)
        v = eng.load(st, vp, 'p', 8, None, ('mapval', c.id))
        node = ('o', 'mapnode', mp or '?', k)
        ret = lambda new: ('p', node, 0) if hint else ('agg', (('p', node, 0), int(new)))

        def put(s):
            self.ev(eng, s, 'mapstore', mp, k, v, loc=c.loc)
            eng.event(s, 'record %s for %s in %s map' % (eng.show(v), k, mp), c.loc)
            eng.put(s, node, 48, v, 8)
            eng.put(s, ('o', 'slot', mp or '?', k), 0, v, 8)
        if fn == 'insert_or_assign' or self.g(st, 'mabs') == (mp, k):
            self.s(st, mabs=None)
            put(st)
            return [(st, 'ret', ret(1))]
        s2 = st.copy()
        eng.event(s2, 'there is an entry for %s in %s map already' % (k, mp), c.loc)
        put(st)
        return [(st, 'ret', ret(1)), (s2, 'ret', ret(0))]

    def drop_maps(self, st, mp):
        for b in [b for b in st.mem if b[0] == 'o' and b[1] in ('slot', 'mapnode') and b[2] == mp]:
            del st.mem[b]

    def h_mapdtor(self, eng, st, c):
        return [(st, 'ret', None)]

    handlers = [
        (R(r'\bintrusive_ptr_add_ref\b'), h_addref),
        (R(r'\bintrusive_ptr_release\b'), h_release),
        (R(r'^std::__detail::_List_node_base::_M_hook\('), h_hook),
        (R(r'^std::__detail::_List_node_base::_M_unhook\('), h_unhook),
        (R(r'^std::__detail::_List_node_base::_M_transfer\('), h_transfer),
        (R(r'^std::__detail::_List_node_base::swap\('), h_lswap),
        (R(r'^std::__cxx11::_List_base<.*>::_M_clear\(\)'), h_lclear),
        (R(r'std::__cxx11::list<.*>::insert<std::_List_(const_)?iterator<.*(std::_List_(const_)?iterator<[^(]*>, ){2}[^(]*\)$|std::__cxx11::list<.*>::insert<std::_List_(const_)?iterator<'), h_linsert),
        (R(r'std::__cxx11::list<(?:[^()]|\(\))*>::(remove|remove_if|unique|sort|reverse|merge)(<.*)?\('), h_lop),
        (R(r'^(?:.* )?std::map<boost::statechart::detail::history_key<.*>::(operator\[\]|find|clear|erase|count|contains|insert|emplace_hint|emplace|insert_or_assign|try_emplace|at|lower_bound|upper_bound|~map)(<.*)?\('), h_map),
        (R(r'^std::(map|_Rb_tree)<boost::statechart::detail::history_key<.*>::~(map|_Rb_tree)\('), h_mapdtor),
    ]


class Refine(LibRule):
    pass

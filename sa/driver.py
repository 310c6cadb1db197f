"""Runs the obligations of one property and reports."""
import json, os, resource, sys, time, traceback, shutil, multiprocessing as mp
sys.path.insert(0, os.path.dirname(__file__))
sys.setrecursionlimit(20000)
import build
from engine import Engine, EngineError, Module, OutOfTime
from lib import Layout

VERIF = build.VERIF


class Ob:
    """one obligation: analyse `entry` of a witness program with a rule"""

    def __init__(self, name, src, flags, entry, make, expect=(), budget=400000, args=None, tag=None):
        self.name = name; self.src = src; self.flags = tuple(flags); self.entry = entry; self.make = make
        self.expect = expect      # counters of the rule that must be non-zero
        self.budget = budget
        self.tag = tag


class PyOb:
    """an obligation decided by a Python function over the source / compiler"""

    def __init__(self, name, fn, *args):
        self.name = name; self.fn = fn; self.args = args


class ModOb:
    """an obligation decided over a whole exported module: fn(module) ->
    (violations, counters)"""

    def __init__(self, name, src, flags, fn, *args):
        self.name = name; self.src = src; self.flags = tuple(flags); self.fn = fn; self.args = args


_G = {}
BUDGET_QUICK = 600       # seconds; what is not finished by then is reported as incomplete
BUDGET_THOROUGH = 3000


def _run_group(key):
    obs = _G['groups'][key]
    path = _G['json'][key]
    out = []
    try:
        m = Module(path)
    except Exception as x:
        return [(i, None, {'error': 'module: %s' % x}) for i, o in obs]
    lay = None
    for i, o in obs:
        t = time.time()
        e = None
        try:
            if t > _G['deadline']:
                out.append((i, [], {'incomplete': 'not started, time ran out'}))
                continue
            if isinstance(o, ModOb):
                v, c = o.fn(m, *o.args)
                out.append((i, v, {'counts': c, 'steps': c.pop('_steps', 0), 'joins': 0, 'returns': 0, 'unwinds': 0, 'fns': sorted(c.pop('_fns', [])), 'secs': time.time() - t}))
                continue
            r = o.make(m)
            e = Engine(m, r, o.entry, budget=o.budget)
            # one obligation may use at most half of what is left
            e.deadline = t + max(20, (_G['deadline'] - t) / 2)
            inc = None
            try:
                e.run()
            except OutOfTime as x:
                inc = str(x)
            except MemoryError:
                e.work = e.visited = e.hcache = None
                inc = 'memory ran out in %s' % e.entry
            lib = sorted({m.fns[f].diname or f for f in e.fns_seen if m.fns[f].file and 'statechart' in m.fns[f].file})
            out.append((i, e.violations, {'counts': dict(getattr(r, 'counts', {})), 'steps': e.steps, 'joins': e.joins, 'returns': e.returns,
                                           'unwinds': e.unwinds, 'fns': lib, 'secs': time.time() - t, 'incomplete': inc}))
        except EngineError as x:
            out.append((i, None, {'error': str(x)}))
        except Exception as x:
            out.append((i, None, {'error': traceback.format_exc()[-1500:]}))
    return out


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _compile(key):
    src, flags = key
    return build.ir(src, flags, _G['work'])


def _run_py(k):
    o = _G['py'][k]
    t = time.time()
    try:
        v, c = o.fn(*o.args)
        return k, v, {'counts': c, 'secs': time.time() - t}
    except Exception as x:
        return k, None, {'error': traceback.format_exc()[-1500:]}


def known(prop):
    p = VERIF + '/known_findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def run(prop, obs, tier, title, technique, assumptions=(), verbose=False):
    t0 = time.time()
    build.tool()
    work = build.tmpdir()
    _G['work'] = work
    try:
        return _run(prop, obs, tier, title, technique, assumptions, verbose, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _run(prop, obs, tier, title, technique, assumptions, verbose, t0):
    groups = {}
    pys = {}
    for i, o in enumerate(obs):
        if isinstance(o, PyOb):
            pys[i] = o
        else:
            groups.setdefault((o.src, o.flags), []).append((i, o))
    _G['groups'] = groups
    _G['py'] = pys
    from concurrent.futures import ThreadPoolExecutor
    errors = []
    js = {}
    with ThreadPoolExecutor(8) as ex:
        fut = {k: ex.submit(_compile, k) for k in groups}
        pf = []
        for k, f in fut.items():
            try:
                js[k] = f.result()
            except Exception as x:
                errors.append('%s %s: %s' % (k[0], ' '.join(k[1]), x))
    _G['json'] = js
    results = {}
    # split big groups so that the pool is balanced
    keys = []
    for k in list(js):
        obl = groups[k]
        n = max(1, min(len(obl), 8 // max(1, len(js)) + 1))
        for p in range(n):
            part = obl[p::n]
            if part:
                kk = (k, p)
                groups[kk] = part
                js[kk] = js[k]
                keys.append(kk)
    _G['deadline'] = t0 + (BUDGET_THOROUGH if tier == 'thorough' else BUDGET_QUICK)
    with mp.get_context('fork').Pool(8, _limit) as pool:
        r1 = pool.imap_unordered(_run_group, keys, 1)
        r2 = pool.imap_unordered(_run_py, list(pys), 1)
        try:
            for _ in keys:
                for i, v, info in r1.next(max(1, _G['deadline'] + 60 - time.time())):
                    results[i] = (v, info)
            for _ in pys:
                i, v, info = r2.next(max(1, _G['deadline'] + 60 - time.time()))
                results[i] = (v, info)
        except mp.TimeoutError:
            for i, o in enumerate(obs):
                if i not in results and (isinstance(o, PyOb) or (o.src, o.flags) in js):
                    results[i] = ([], {'incomplete': 'no answer before the time ran out'})
        pool.terminate()
    vio = []
    cov = {'obligations': len(obs), 'discharged': 0, 'program_points_interpreted': 0, 'states_at_joins': 0, 'normal_exits': 0, 'exceptional_exits': 0}
    counts = {}
    fns = set()
    samples = []
    incomplete = []
    for i, o in enumerate(obs):
        if i not in results:
            continue
        v, info = results[i]
        if v is None:
            errors.append('%s: %s' % (o.name, info['error']))
            continue
        mine = [x for x in v if x['rule'] == prop or x.get('rule') is None]
        for x in mine:
            x['obligation'] = o.name
            vio.append(x)
        if info.get('incomplete'):
            incomplete.append('%s: %s' % (o.name, info['incomplete']))
        elif not mine:
            cov['discharged'] += 1
        for k, n in info.get('counts', {}).items():
            if isinstance(n, (int, float)):
                counts[k] = counts.get(k, 0) + n
        fns |= set(info.get('fns', ()))
        cov['program_points_interpreted'] += info.get('steps', 0)
        cov['states_at_joins'] += info.get('joins', 0)
        cov['normal_exits'] += info.get('returns', 0)
        cov['exceptional_exits'] += info.get('unwinds', 0)
        samples.append({'obligation': o.name, 'counts': info.get('counts', {}), 'seconds': round(info.get('secs', 0), 2)})
        if not v and not info.get('incomplete'):
            for e in getattr(o, 'expect', ()) or ():
                if not info.get('counts', {}).get(e):
                    errors.append('%s: the rule never saw "%s" (the analysis is vacuous)' % (o.name, e))
    cov['events_checked'] = counts
    cov['functions_analysed'] = sorted(fns)
    cov['samples'] = samples[:40]
    cov['incomplete'] = incomplete
    cov['explanation'] = technique
    # distinct violations
    seen = {}
    for x in vio:
        k = (x['message'], x['where'])
        seen.setdefault(k, x)
    kn = known(prop)
    fresh = []
    for k, x in seen.items():
        ident = '%s @ %s' % (x['message'], x['where'].split(' in ')[-1])
        if any(ident == q for q in kn):
            print('KNOWN-FINDING: property=%s %s' % (prop, ident))
        else:
            fresh.append(x)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other', 'coverage': cov,
          'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1, default=str)
    print('%s: %s' % (prop, title))
    print('  %d obligations, %d discharged, %d functions, %d program points, %d joins, %.1fs' % (
        len(obs), cov['discharged'], len(fns), cov['program_points_interpreted'], cov['states_at_joins'], time.time() - t0))
    print('  checked: ' + ', '.join('%s %s' % (v, k) for k, v in sorted(counts.items())))
    for x in incomplete[:10]:
        print('  incomplete: ' + x)
    if incomplete:
        print('  (%d obligations incomplete)' % len(incomplete))
    if fresh:
        rp = VERIF + '/evidence/%s.replay.txt' % prop
        with open(rp, 'w') as f:
            for x in fresh:
                f.write('%s: %s\n  at %s\n  obligation: %s\n' % (prop, x['message'], x['where'], x.get('obligation')))
                for s in x.get('stack', []):
                    f.write('    called from %s\n' % s)
                if x.get('path'):
                    f.write('  path:\n')
                    for s in x['path']:
                        f.write('    %s\n' % s)
                f.write('\n')
        for x in fresh[:12]:
            print('  * %s\n      at %s [%s]' % (x['message'], x['where'], x.get('obligation')))
        for e in errors:
            print('  (analysis error: %s)' % e.splitlines()[-1][:300])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 2
    return 0

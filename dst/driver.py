"""Seeded search: many simulated runs over forked batches, minimisation,
replay files, evidence."""
import argparse
import gc
import hashlib
import importlib
import json
import mmap
import os
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import traceback

from . import seams, zygote

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('DST_OUT') or VERIF
REPLAYS = os.path.join(OUT, 'replays')
now = seams.real_monotonic

HANG_S = 90.0


def load_world(prop):
    return importlib.import_module('dst.worlds.' + prop.lower())


def run_seed(base, prop, idx):
    h = hashlib.sha256(('%s/%s/%d' % (base, prop, idx)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Outcome(object):
    __slots__ = ('kind', 'message', 'trace', 'ctx', 'error')

    def __init__(self, ctx):
        self.ctx = ctx
        self.kind = self.message = self.trace = self.error = None


def _lib_frames(tb, root):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def execute(world, plan, seed, schedule=None, keep_log=False):
    """One simulated run.  Deterministic in (code, plan, seed, schedule)."""
    from .core import Ctx, Violation, SimAbort
    ctx = Ctx(plan, seed, schedule)
    ctx.keep_log = keep_log
    out = Outcome(ctx)
    random.seed(seed)
    tz = plan.get('tz', 'UTC')
    if os.environ.get('TZ') != tz:
        os.environ['TZ'] = tz
        import time
        time.tzset()
    ctx.scratch = None
    gc.disable()
    seams.ACTIVE = ctx
    old_stderr = sys.stderr
    try:
        world.execute(ctx)
    except Violation as v:
        out.kind, out.message = v.kind, v.message
    except SimAbort:
        out.error = 'SimAbort leaked'
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
        lib = _lib_frames(e.__traceback__, ctx.trace_root)
        if lib:
            out.kind = 'crash:' + type(e).__name__
            out.message = 'unexpected %s: %s' % (type(e).__name__, e)
            out.trace = tb
        elif isinstance(e, OSError):
            out.error = tb
        else:
            out.kind = 'check-crash:' + type(e).__name__
            out.message = 'the check could not interpret the behaviour: %s: %s' % (type(e).__name__, e)
            out.trace = tb
    finally:
        seams.ACTIVE = None
        sys.stderr = old_stderr
        if ctx.scratch:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
            if out.message:
                out.message = out.message.replace(ctx.scratch, '$SCRATCH')
    if out.kind is not None:
        ctx.log('violation', out.kind)
    return out


def gen(world, seed, tier):
    return world.generate(random.Random(seed), tier)


# ---- child ------------------------------------------------------------------

def child_batch(world, prop, base, tier, indices, wfd, beat, slot):
    agg = {
        'runs': 0, 'faults': {}, 'probes': {}, 'steps': 0, 'switches': 0,
        'sim_time': 0.0, 'sigs': [], 'isigs': [], 'states': [], 'nontrivial': 0,
        'viol': None, 'errors': [], 'det_checked': 0, 'det_bad': 0, 'samples': [],
        'events': 0,
    }
    states = set()
    if getattr(world, 'PRISTINE', False):
        zygote.start()
    for n, idx in enumerate(indices):
        beat[slot * 8:slot * 8 + 8] = struct.pack('q', idx)
        seed = run_seed(base, prop, idx)
        plan = gen(world, seed, tier)
        out = execute(world, plan, seed)
        c = out.ctx
        agg['runs'] += 1
        agg['steps'] += c.steps
        agg['switches'] += c.switches
        agg['events'] += c.nevents
        agg['sim_time'] += c.clock.elapsed
        for k, v in c.faults.items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        for k, v in c.probes.items():
            agg['probes'][k] = agg['probes'].get(k, 0) + v
        states |= c.states
        if c.sched_sig and c.switches:
            agg['isigs'].append(c.sched_sig[:16])
        if out.error is not None:
            agg['errors'].append([idx, out.error])
            continue
        if c.faults or c.switches or c.probes.get('nontrivial'):
            agg['nontrivial'] += 1
            agg['sigs'].append(c.digest()[:16])
        if out.kind is not None:
            if known(prop, out.kind, out.message):
                agg['probes']['known:' + out.kind] = agg['probes'].get('known:' + out.kind, 0) + 1
                continue
            agg['viol'] = {
                'idx': idx, 'kind': out.kind, 'message': out.message,
                'trace': out.trace, 'schedule': c.recorded, 'digest': c.digest(),
                'position': n,
            }
            break
        if n % 25 == 0:
            agg['det_checked'] += 1
            again = execute(world, plan, seed, schedule=c.recorded)
            if again.ctx.digest() != c.digest():
                agg['det_bad'] += 1
                agg['samples'].append({'nondeterministic_run': idx})
        if n == 0 and len(agg['samples']) < 1:
            agg['samples'].append({'run': idx, 'seed': seed, 'plan': plan,
                                   'preemptions': len(c.recorded),
                                   'faults': c.faults, 'digest': c.digest()[:16]})
    agg['states'] = sorted(states)[:200000]
    data = json.dumps(agg, default=str).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)


# ---- known findings ----------------------------------------------------------

_KNOWN = None


def known_entries():
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = []
        p = os.path.join(VERIF, 'known_findings.txt')
        try:
            for line in seams.real_open(p, encoding='utf-8'):
                line = line.strip()
                if line.startswith('known: '):
                    # known: property=C01 kind=<kind> contains=<text> :: what
                    head, _, what = line[7:].partition(' :: ')
                    d = {}
                    for part in ('property', 'kind', 'contains'):
                        if part + '=' in head:
                            rest = head.split(part + '=', 1)[1]
                            for other in (' property=', ' kind=', ' contains='):
                                rest = rest.split(other)[0]
                            d[part] = rest
                    d['what'] = what
                    _KNOWN.append(d)
        except FileNotFoundError:
            pass
    return _KNOWN


def known(prop, kind, message):
    for d in known_entries():
        if d.get('property') == prop and d.get('kind') == kind \
                and d.get('contains') and d['contains'] in message:
            return d
    return None


# ---- isolated execution (fresh fork) -------------------------------------------

def isolated(fn, timeout):
    """Run fn() in a forked child, return its JSON result, or 'hang'/'died'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            data = json.dumps(fn(), default=str).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    buf = b''
    end = now() + timeout
    res = None
    while True:
        left = end - now()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            res = 'hang'
            break
        rd, _, _ = select.select([r], [], [], min(left, 1.0))
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    os.waitpid(pid, 0)
    if res == 'hang':
        return 'hang'
    if not buf:
        return 'died'
    return json.loads(buf)


def run_case(world, prop, base, tier, case):
    """Execute prelude runs, then the case; result of the case."""
    if getattr(world, 'PRISTINE', False):
        zygote.start()
    for p in case.get('prelude', ()):
        execute(world, p['plan'], p['seed'])
    out = execute(world, case['plan'], case['seed'], schedule=case.get('schedule'))
    return {'kind': out.kind, 'message': out.message, 'trace': out.trace,
            'digest': out.ctx.digest(), 'schedule': out.ctx.recorded,
            'error': out.error}


def _lists(plan, paths):
    """(container, key) of every list selected by dotted paths with '*'"""
    found = []

    def walk(obj, parts, trail):
        if not parts:
            if isinstance(obj, list):
                found.append(list(trail))
            return
        p = parts[0]
        if p == '*':
            if isinstance(obj, list):
                for i in range(len(obj)):
                    walk(obj[i], parts[1:], trail + [i])
            elif isinstance(obj, dict):
                for k in list(obj):
                    walk(obj[k], parts[1:], trail + [k])
        elif isinstance(obj, dict) and p in obj:
            walk(obj[p], parts[1:], trail + [p])
    for path in paths:
        walk(plan, path.split('.'), [])
    return found


def _get(obj, trail):
    for k in trail:
        obj = obj[k]
    return obj


def _set(plan, trail, value):
    plan = json.loads(json.dumps(plan))
    if not trail:
        return value
    _get(plan, trail[:-1])[trail[-1]] = value
    return plan


def _ddmin(items, test, deadline):
    n = 2
    items = list(items)
    if items and now() < deadline and test([]):
        return []
    while len(items) >= 1 and now() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        for i in range(0, len(items), size):
            if now() >= deadline:
                break
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if size == 1:
                break
            n = min(n * 2, len(items))
    return items


def minimise(world, prop, base, tier, case, kind, budget=float(os.environ.get('DST_SHRINK_S', 45.0))):
    deadline = now() + budget
    tries = [0]

    def fails(c):
        tries[0] += 1
        r = isolated(lambda: run_case(world, prop, base, tier, c), 30)
        return isinstance(r, dict) and r['kind'] == kind

    if case.get('prelude'):
        case = dict(case)
        case['prelude'] = _ddmin(
            case['prelude'], lambda p: fails(dict(case, prelude=p)), deadline)
    if case.get('schedule'):
        # schedule first: most preemptions are irrelevant
        case = dict(case)
        case['schedule'] = _ddmin(
            case['schedule'], lambda s: fails(dict(case, schedule=s)), deadline)
    changed = True
    rounds = 0
    while changed and now() < deadline and rounds < 3:
        changed = False
        rounds += 1
        for trail in _lists(case['plan'], getattr(world, 'SHRINK', ())):
            try:
                items = _get(case['plan'], trail)
            except (KeyError, IndexError):
                continue
            if not items:
                continue
            got = _ddmin(items, lambda it: fails(dict(case, plan=_set(case['plan'], trail, it))), deadline)
            if len(got) < len(items):
                case = dict(case, plan=_set(case['plan'], trail, got))
                changed = True
                break
        else:
            continue
        # restart list discovery after a successful reduction
        changed = True
    for simplify in getattr(world, 'SIMPLIFY', ()):
        if now() >= deadline:
            break
        cand = simplify(json.loads(json.dumps(case['plan'])))
        if cand is not None and cand != case['plan'] and fails(dict(case, plan=cand)):
            case = dict(case, plan=cand)
    if case.get('schedule') and now() < deadline:
        case['schedule'] = _ddmin(
            case['schedule'], lambda s: fails(dict(case, schedule=s)), deadline)
    return case, tries[0]


# ---- search --------------------------------------------------------------------

def search(world, prop, base, tier, nruns, batch, workers, deadline):
    total = {
        'runs': 0, 'faults': {}, 'probes': {}, 'steps': 0, 'switches': 0,
        'sim_time': 0.0, 'nontrivial': 0, 'errors': [], 'det_checked': 0,
        'det_bad': 0, 'events': 0, 'truncated': False,
    }
    sigs, isigs, states, samples = set(), set(), set(), []
    viol = None
    beat = mmap.mmap(-1, 8 * max(workers, 1))
    jobs = [list(range(i, min(i + batch, nruns))) for i in range(0, nruns, batch)]
    jobs.reverse()
    live = {}      # fd -> [pid, slot, buf, indices, last_idx, last_change]
    slots = list(range(workers))
    hangs = []

    def reap(fd):
        pid, slot = live[fd][0], live[fd][1]
        os.close(fd)
        os.waitpid(pid, 0)
        slots.append(slot)
        return live.pop(fd)

    while jobs or live:
        while jobs and slots and viol is None:
            if now() > deadline:
                total['truncated'] = True
                jobs = []
                break
            idxs = jobs.pop()
            slot = slots.pop()
            r, w = os.pipe()
            beat[slot * 8:slot * 8 + 8] = struct.pack('q', -1)
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for other in live:
                    os.close(other)
                try:
                    child_batch(world, prop, base, tier, idxs, w, beat, slot)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            os.close(w)
            live[r] = [pid, slot, [], idxs, -1, now()]
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            d = os.read(fd, 1 << 20)
            if d:
                live[fd][2].append(d)
                continue
            rec = reap(fd)
            data = b''.join(rec[2])
            if not data:
                total['errors'].append([rec[3][0], 'worker died'])
                continue
            agg = json.loads(data)
            for k in ('runs', 'steps', 'switches', 'sim_time', 'nontrivial',
                      'det_checked', 'det_bad', 'events'):
                total[k] += agg[k]
            for k in ('faults', 'probes'):
                for a, b in agg[k].items():
                    total[k][a] = total[k].get(a, 0) + b
            total['errors'].extend(agg['errors'])
            sigs.update(agg['sigs'])
            isigs.update(agg['isigs'])
            states.update(agg['states'])
            if len(samples) < 3:
                samples.extend(agg['samples'])
            if agg['viol'] is not None:
                v = agg['viol']
                v['batch'] = rec[3]
                if viol is None or v['idx'] < viol['idx']:
                    viol = v
                jobs = []
        # hang detection
        for fd in list(live):
            rec = live[fd]
            cur = struct.unpack('q', beat[rec[1] * 8:rec[1] * 8 + 8])[0]
            if cur != rec[4]:
                rec[4] = cur
                rec[5] = now()
            elif now() - rec[5] > HANG_S:
                os.kill(rec[0], signal.SIGKILL)
                reap(fd)
                hangs.append((cur, rec[3]))
                if cur >= 0:
                    rest = [i for i in rec[3] if i > cur]
                    if rest and len(hangs) < 3:
                        jobs.append(rest)
                if len(hangs) >= 3:
                    jobs = []
        if viol is not None:
            jobs = []
            # a few seconds for the others to finish their batch, then stop
            for fd in list(live):
                os.kill(live[fd][0], signal.SIGKILL)
                reap(fd)
    total['sigs'] = len(sigs)
    total['isigs'] = len(isigs)
    total['states'] = len(states)
    total['samples'] = samples[:3]
    return total, viol, hangs


def write_replay(prop, case, kind, message, digest, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (prop, digest[:12]))
    doc = dict(property=prop, kind=kind, message=message, digest=digest, **extra)
    doc['case'] = case
    with seams.real_open(path, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    return path


def write_evidence(prop, doc):
    d = os.path.join(OUT, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d.tmp' % (prop, os.getpid()))
    with seams.real_open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, prop + '.json'))


def evidence_doc(world, prop, tier, base, total, wall, nviol, extra=None):
    hours = wall / 3600.0
    cov = {
        'evaluations': total['runs'],
        'distinct_nontrivial': total['sigs'],
        'rule': world.RULE + '  Non-trivial: at least one injected fault fired, or at least '
                'one preemption switched threads inside library code, or the run reached '
                'the state this property is about (probe "nontrivial"); distinct: by the '
                'hash of the full event log.',
        'samples': total['samples'],
        'runs_per_hour': int(total['runs'] / hours) if hours else 0,
        'seeds_per_hour': int(total['runs'] / hours) if hours else 0,
        'simulated_seconds': round(total['sim_time'], 3),
        'faults_injected': total['faults'],
        'probes': total['probes'],
        'distinct_interleavings': total['isigs'],
        'interleaving_measure': 'hash of the sequence (thread, function, line, next thread) of all preemptions of a run',
        'distinct_states': total['states'],
        'preemptions': total['switches'],
        'scheduled_steps': total['steps'],
        'history_events': total['events'],
        'determinism_rechecks': total['det_checked'],
        'determinism_mismatches': total['det_bad'],
        'truncated_by_deadline': total['truncated'],
        'harness_errors': len(total['errors']),
        'real_code': world.REAL,
        'stubbed': world.STUB,
    }
    if extra:
        cov.update(extra)
    return {
        'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration',
        'coverage': cov,
        'assumptions': getattr(world, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3), 'violations': nviol,
    }


def check(prop, tier, base, runs=None, workers=None):
    t0 = now()
    world = load_world(prop)
    nruns = runs or (world.QUICK if tier == 'quick' else world.THOROUGH)
    workers = workers or int(os.environ.get('DST_WORKERS', 0)) or min(16, os.cpu_count() or 1)
    batch = getattr(world, 'BATCH', 50)
    limit = 600.0 if tier == 'quick' else float(os.environ.get('DST_THOROUGH_S', 6 * 3600))
    print('%s tier=%s VERIF_SEED=%d runs=%d workers=%d' % (prop, tier, base, nruns, workers))
    sys.stdout.flush()
    total, viol, hangs = search(world, prop, base, tier, nruns, batch, workers, t0 + limit)
    nviol = 0
    path = None
    if viol is None and hangs:
        # a run that never ends: confirm it alone in a fresh process
        for idx, batch_idx in hangs:
            if idx < 0:
                continue
            seed = run_seed(base, prop, idx)
            plan = gen(world, seed, tier)
            case = {'plan': plan, 'seed': seed, 'schedule': None, 'prelude': []}
            r = isolated(lambda: run_case(world, prop, base, tier, case), HANG_S)
            if r == 'hang':
                viol = {'idx': idx, 'kind': 'hang', 'message':
                        'run %d does not terminate (limit %ds, confirmed alone)' % (idx, HANG_S),
                        'hang': True, 'case': case}
                break
        else:
            total['errors'].append([-1, 'unconfirmed hang(s): %r' % [h[0] for h in hangs]])
    if viol is not None:
        nviol = 1
        seed = run_seed(base, prop, viol['idx'])
        plan = gen(world, seed, tier)
        if viol.get('hang'):
            case = viol['case']
            path = write_replay(prop, case, 'hang', viol['message'], 'hang%d' % viol['idx'],
                                {'verif_seed': base, 'run': viol['idx'], 'tier': tier})
        else:
            case = {'plan': plan, 'seed': seed, 'schedule': viol['schedule'], 'prelude': []}
            kind = viol['kind']
            r = isolated(lambda: run_case(world, prop, base, tier, case), HANG_S)
            if not (isinstance(r, dict) and r['kind'] == kind):
                # state left behind by earlier runs of the same process matters
                prel = []
                for i in viol['batch'][:viol['position']]:
                    s = run_seed(base, prop, i)
                    prel.append({'seed': s, 'plan': gen(world, s, tier)})
                case['prelude'] = prel
                r = isolated(lambda: run_case(world, prop, base, tier, case), HANG_S * 2)
            repro = isinstance(r, dict) and r['kind'] == kind
            if repro:
                case, tries = minimise(world, prop, base, tier, case, kind)
                r2 = isolated(lambda: run_case(world, prop, base, tier, case), HANG_S)
                if isinstance(r2, dict) and r2['kind'] == kind:
                    r = r2
                msg, digest, trace = r['message'], r['digest'], r['trace']
            else:
                msg, digest, trace = viol['message'], viol['digest'], viol['trace']
                msg += '  [observed once; did not reproduce in a fresh process]'
                tries = 0
            path = write_replay(prop, case, kind, msg, digest, {
                'verif_seed': base, 'run': viol['idx'], 'tier': tier,
                'trace': trace, 'reproduced': repro, 'minimiser_runs': tries,
                'original_preemptions': len(viol['schedule'] or ()),
            })
            print('violation kind=%s run=%d seed=%d' % (kind, viol['idx'], seed))
            print('  ' + msg.replace('\n', '\n  '))
            if trace:
                print('  ' + trace.replace('\n', '\n  '))
            print('minimised: %d preemptions (of %d), plan %d bytes' % (
                len(case.get('schedule') or ()), len(viol['schedule'] or ()),
                len(json.dumps(case['plan']))))
    wall = now() - t0
    write_evidence(prop, evidence_doc(world, prop, tier, base, total, wall, nviol))
    for d in known_entries():
        if d.get('property') == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    if viol is not None:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: held on %d runs (%d distinct non-trivial, %d interleavings, faults %s) in %.1fs'
          % (prop, total['runs'], total['sigs'], total['isigs'],
             sum(total['faults'].values()), wall))
    if total['errors']:
        for e in total['errors'][:3]:
            print('HARNESS-ERROR run=%s %s' % (e[0], e[1]), file=sys.stderr)
        if len(total['errors']) > max(3, total['runs'] // 100) or not total['runs']:
            return 2
    if total['runs'] < min(nruns, 20):
        print('too few runs completed', file=sys.stderr)
        return 2
    return 0


def replay(path):
    doc = json.load(seams.real_open(path))
    prop = doc['property']
    world = load_world(prop)
    r = isolated(lambda: run_case(world, prop, None, None, doc['case']), HANG_S * 2)
    if r == 'hang':
        same = doc['kind'] == 'hang'
        print('replay: hang')
    elif r == 'died':
        print('replay: process died')
        return 2
    else:
        print('replay: kind=%s digest=%s' % (r['kind'], r['digest']))
        if r['message']:
            print('  ' + r['message'])
        if r['trace']:
            print(r['trace'])
        same = r['kind'] == doc['kind']
        if same and r['digest'] != doc['digest']:
            print('  (same violation; event log differs from the recorded one)')
    if same:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced (property holds on this replay)')
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--tier')
    ap.add_argument('--one', type=int, help='execute one run and print its log')
    a = ap.parse_args(argv)
    import warnings
    warnings.simplefilter('ignore')
    # everything the library raises as a warning is noise here
    seams.import_verktyg()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    base = int(os.environ.get('VERIF_SEED') or 1)
    if a.replay:
        return replay(a.replay)
    if a.one is not None:
        world = load_world(a.property)
        seed = run_seed(base, a.property, a.one)
        plan = gen(world, seed, tier)
        print(json.dumps(plan, indent=1))
        out = execute(world, plan, seed, keep_log=True)
        for line in out.ctx.logged:
            print(line)
        print('kind', out.kind, out.message, out.trace, out.error)
        print('faults', out.ctx.faults, 'probes', out.ctx.probes, 'steps', out.ctx.steps)
        return 0
    return check(a.property, tier, base, a.runs, a.workers)

#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py P01 [--tier quick|thorough]     explore; exit 0 held, 1 VIOLATION, 2 the check itself failed
  check.py --replay FILE                   run one recorded violation again

The simulator is built from /repo's working tree, then many seeds are run on
all cores. A violation counts only when the same seed gives the same execution
(event hash) and the same violation again in a fresh process; it is then
minimised and written down as a replay file."""
import argparse, json, os, re, signal, subprocess, sys, threading, time, collections, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as builder
from props import PROPS, COMPONENTS, MEASURE, CALM_KNOBS

EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.json')
CORES = min(8, os.cpu_count() or 4)


def scratch():
    d = '/tmp/nysim.%d' % os.getpid()
    os.makedirs(d, exist_ok=True)
    return d


def env_for(sc, flavour):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('SIM_', 'QT_', 'ASAN_')):
            del e[k]
    e['SIM_SCRATCH'] = sc
    e['SIM_CERTS'] = os.path.join(VERIF, 'sim', 'certs')
    e['SIM_CPU_LIMIT'] = '30' if flavour == 'asan' else '10'
    if flavour == 'asan':
        e['ASAN_OPTIONS'] = 'detect_leaks=0:log_path=%s/asan:abort_on_error=0:exitcode=97:handle_segv=1:allocator_may_return_null=1' % sc
    return e


def matches(cls, prefixes):
    return any(cls == p or cls.startswith(p if p.endswith('.') else p + '.') for p in prefixes)


class Sim:
    def __init__(self, sc):
        self.sc = sc
        self.exe = {}

    def build(self, flavour):
        self.exe[flavour] = builder.build(flavour)

    def one(self, flavour, profile, seed, drop=(), knobs=None, log=False, trace=None, verbose=2):
        """One run in a fresh process; returns its result."""
        cmd = [self.exe[flavour], 'run', '--profile', profile, '--seed', str(seed)]
        if drop:
            cmd += ['--drop', ','.join(map(str, sorted(drop)))]
        for k, v in (knobs or {}).items():
            cmd += ['--knob', '%s=%.9g' % (k, v)]
        if log:
            cmd += ['--log', '1']
        if trace:
            cmd += ['--trace', trace, '--verbose', str(verbose)]
        d = os.path.join(self.sc, 'o%d' % threading.get_ident())
        os.makedirs(d, exist_ok=True)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env_for(d, flavour), timeout=400)
            return json.loads(p.stdout.decode(errors='replace').strip().split('\n')[-1])
        except (subprocess.TimeoutExpired, ValueError):
            return None


def classes_of(res, prefixes):
    return [v for v in res['violations'] if matches(v['cls'], prefixes)] if res else []


class Known:
    def __init__(self, prop):
        self.items = []
        self.hit = set()
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN))['known']:
                if k['property'] == prop:
                    self.items.append(k)

    def covers(self, profile, v):
        for i, k in enumerate(self.items):
            if re.fullmatch(k['profile'], profile) and re.fullmatch(k['class'], v['cls']) and re.search(k['detail'], v['detail']):
                self.hit.add(i)
                return True
        return False


def explore(sim, spec, base, secs, known, stop_after):
    """Runs seeds on all cores until the time is over; returns the aggregate."""
    agg = dict(runs=0, sim_s=0.0, steps=0, hashes=set(), nontrivial=set(), states=set(), counters=collections.Counter(), bad=collections.OrderedDict(), unfinished=0,
               profiles=collections.Counter(), flavours=collections.Counter(), other=collections.Counter(), harness=[], samples=[], ops=0, known=collections.Counter())
    lock = threading.Lock()
    procs = []
    deadline = [None]
    profs = ','.join('%s:%d' % (p, w) for p, w in spec['profiles'])
    nasan = spec.get('asan', 0)

    def worker(w):
        flavour = 'asan' if w < nasan else 'plain'
        # sanitised runs cover seeds of their own
        sd = os.path.join(sim.sc, 'w%d' % w)
        os.makedirs(sd, exist_ok=True)
        cmd = [sim.exe[flavour], 'batch', '--profiles', profs, '--seed', str(base), '--start', str(w), '--stride', str(CORES), '--until', str(secs)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env_for(sd, flavour), start_new_session=True)
        with lock:
            procs.append(p)
        for line in p.stdout:
            try:
                r = json.loads(line.decode(errors='replace'))
            except ValueError:
                continue
            with lock:
                agg['runs'] += 1
                agg['sim_s'] += r['sim_s']
                agg['steps'] += r['steps']
                agg['ops'] += r['ops']
                agg['profiles'][r['profile']] += 1
                agg['flavours'][flavour] += 1
                agg['counters'].update(r['counters'])
                agg['states'].update(r['states'])
                faults = sum(v for k, v in r['counters'].items() if k.startswith(('fault.', 'net.')))
                agg['hashes'].add(r['hash'])
                if r['finished'] and (faults > 0 or r['ops'] >= 5):
                    agg['nontrivial'].add(r['hash'])
                if len(agg['samples']) < 3 and r['finished'] and faults > 3 and r['profile'] not in [s[1] for s in agg['samples']]:
                    agg['samples'].append((flavour, r['profile'], r['seed'], r['hash']))
                mine = []
                for v in r['violations']:
                    if v['cls'] == 'harness':
                        agg['harness'].append(v['detail'])
                    elif not matches(v['cls'], spec.get('profile_classes', {}).get(r['profile'], spec['classes'])):
                        agg['other'][v['cls']] += 1
                    elif known.covers(r['profile'], v):
                        agg['known'][v['cls']] += 1
                    else:
                        mine.append(v)
                if not r['finished'] and not r['violations']:
                    agg['unfinished'] += 1
                if mine:
                    # one entry for every class: the run with the fewest steps
                    v = mine[0]
                    old = agg['bad'].get(v['cls'])
                    if old is None or (r['steps'] and r['steps'] < old[0]):
                        agg['bad'][v['cls']] = (r['steps'] or 10**9, flavour, r['profile'], r['seed'], r['hash'], v)
                    if deadline[0] is None:
                        deadline[0] = time.time() + stop_after
                stop = deadline[0] is not None and time.time() > deadline[0]
            if stop:
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    def guard():
        # violations found: give the search a little longer, then end it
        t = time.time()
        while time.time() - t < secs + 150:
            if done.wait(0.3):
                return
            if deadline[0] is not None and time.time() > deadline[0] + 1:
                break
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

    done = threading.Event()
    g = threading.Thread(target=guard)
    g.start()
    t0 = time.time()
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(CORES)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    done.set()
    g.join()
    agg['wall'] = time.time() - t0
    return agg


def same(res, cls, prefixes):
    return res is not None and any(v['cls'] == cls for v in res['violations'])


def minimise(sim, flavour, profile, seed, cls, prefixes, budget):
    """ddmin over the operations, then calmer knobs; any run showing the class counts."""
    t0 = time.time()
    first = sim.one(flavour, profile, seed, log=True)
    if first is None or first.get('steps', 0) == 0 and not first.get('knobs'):
        return set(), {}, first   # died hard: nothing more to learn from it
    n = first['ops']
    keep = list(range(n))
    drop = set()
    knobs = {}
    ex = ThreadPoolExecutor(CORES)
    left = lambda: budget - (time.time() - t0)

    def test(dr, kn):
        return same(sim.one(flavour, profile, seed, dr, kn), cls, prefixes)

    # calmer surroundings first: they change which operations are generated
    for k, v in CALM_KNOBS.items():
        if left() <= budget / 2:
            break
        if k in first.get('knobs', {}) and first['knobs'][k] != v:
            kn = dict(knobs)
            kn[k] = v
            if test(drop, kn):
                knobs = kn
    if knobs:
        keep = list(range((sim.one(flavour, profile, seed, (), knobs) or first)['ops']))
    chunk = max(1, len(keep) // 2)
    while keep and left() > 0:
        parts = [keep[i:i + chunk] for i in range(0, len(keep), chunk)]
        hit = False
        for g in range(0, len(parts), CORES):
            if left() <= 0:
                break
            grp = parts[g:g + CORES]
            oks = list(ex.map(lambda c: test(drop | set(c), knobs), grp))
            for c, ok in zip(grp, oks):
                if not ok:
                    continue
                cand = drop | set(c)
                # several parts may go together; if not, the first one does
                if cand != drop and (not hit or test(cand, knobs)):
                    drop = cand
                    keep = [k for k in keep if k not in drop]
                    hit = True
        if not hit:
            if chunk == 1:
                break
            chunk = max(1, chunk // 2)
        else:
            chunk = max(1, min(chunk, len(keep) // 2 or 1))
    ex.shutdown()
    return drop, knobs, sim.one(flavour, profile, seed, drop, knobs, log=True)


def write_replay(prop, sim, item, prefixes, budget, n):
    steps, flavour, profile, seed, h, v = item
    drop, knobs, res = minimise(sim, flavour, profile, seed, v['cls'], prefixes, budget)
    if not same(res, v['cls'], prefixes):
        drop, knobs = set(), {}
        res = sim.one(flavour, profile, seed, log=True)
    again = sim.one(flavour, profile, seed, drop, knobs)
    if not same(again, v['cls'], prefixes) or again['hash'] != (res or {}).get('hash'):
        return None, None
    vv = [x for x in res['violations'] if x['cls'] == v['cls']][0]
    trace = os.path.join(sim.sc, 'trace')
    sim.one(flavour, profile, seed, drop, knobs, trace=trace, verbose=1)
    tail = []
    if os.path.exists(trace):
        tail = open(trace, errors='replace').read().split('\n')[-200:]
        k = [i for i, l in enumerate(tail) if 'VIOLATION' in l]
        if k:
            tail = tail[:k[0] + 1]
        tail = [t[:200] for t in tail[-60:]]
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    path = os.path.join(EVID, 'replays', '%s-%d-%s.json' % (prop, n, v['cls']))
    json.dump(dict(property=prop, flavour=flavour, profile=profile, seed=seed, dropped_operations=sorted(drop), operations=res.get('ops'), knobs=knobs, hash=res['hash'],
                   violation=vv, operations_and_faults=res.get('log'), all_knobs=res.get('knobs'), trace_before_violation=tail,
                   how='python3 tools/check.py --replay ' + path), open(path, 'w'), indent=1)
    return path, vv


def replay(path):
    r = json.load(open(path))
    sc = scratch()
    sim = Sim(sc)
    try:
        sim.build(r['flavour'])
        res = sim.one(r['flavour'], r['profile'], r['seed'], r['dropped_operations'], r['knobs'], log=True)
        got = [v for v in (res or {'violations': []})['violations'] if v['cls'] == r['violation']['cls']]
        exact = bool(got) and got[0]['detail'] == r['violation']['detail'] and res['hash'] == r['hash']
        for l in (res or {}).get('log', []):
            print('   ', l)
        if got:
            print('%s: %s' % (got[0]['cls'], got[0]['detail']))
            print('exactly the recorded execution' if exact else 'same violation, other execution (the code or the simulator changed)')
            print('VIOLATION property=%s replay=%s' % (r['property'], path))
            return 1
        print('the recorded run no longer violates %s' % r['property'])
        return 0
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    spec = PROPS[prop]
    t0 = time.time()
    secs = a.seconds or (spec.get('quick', 60) if a.tier == 'quick' else spec.get('thorough', 660))
    sc = scratch()
    sim = Sim(sc)
    try:
        try:
            sim.build('plain')
            if spec.get('asan'):
                sim.build('asan')
        except builder.BuildError as x:
            print('the simulator does not build against this tree:\n%s' % x)
            return 2
        tb = time.time() - t0
        known = Known(prop)
        base = a.seed * 100 + int(prop[1:])
        agg = explore(sim, spec, base, secs, known, 6 if a.tier == 'quick' else 20)
        if agg['harness']:
            print('the simulation could not be set up: %s' % agg['harness'][0])
            return 2
        if not agg['runs']:
            print('no run was completed')
            return 2

        # determinism: samples again, in fresh processes
        samples, differ = [], 0
        for flavour, profile, seed, h in agg['samples']:
            r = sim.one(flavour, profile, seed, log=True)
            ok = r is not None and r['hash'] == h
            differ += not ok
            samples.append(dict(profile=profile, seed=seed, build=flavour, event_hash=h, replayed_identically=ok, steps=r and r['steps'], simulated_s=r and r['sim_s'],
                                operations_and_faults=(r or {}).get('log', [])[:25], counters=(r or {}).get('counters')))

        out, unrep = [], []
        order = sorted(agg['bad'].values(), key=lambda i: i[0])
        budget = 60 if a.tier == 'quick' else 200
        for n, item in enumerate(order[:4]):
            path, vv = write_replay(prop, sim, item, spec['classes'], budget / (n + 1), n)
            if path:
                out.append((path, vv, item))
            else:
                unrep.append(dict(profile=item[2], seed=item[3], cls=item[5]['cls'], detail=item[5]['detail']))
            if out and n >= 1 and a.tier == 'quick':
                break

        wall = time.time() - t0
        hours = agg['wall'] / 3600.0
        inj = {k: v for k, v in sorted(agg['counters'].items())}
        ev = dict(property=prop, tier=a.tier, seed=a.seed, level='exploration', wall_s=round(wall, 1), violations=len(out),
                  assumptions=spec.get('assumptions', []) + COMPONENTS['assumptions'],
                  coverage=dict(evaluations=agg['runs'], distinct_nontrivial=len(agg['nontrivial']),
                                rule='One evaluation is one simulated execution of the whole system drawn from one seed (profiles %s). It is non-trivial when it ran to its end with at least one injected fault or at '
                                     'least five operations of the generated schedule; two are distinct when their event hashes differ (every system call, delivery, timer and answer with its time goes into the hash).' % ', '.join(p for p, _ in spec['profiles']),
                                samples=samples,
                                runs_per_hour=int(agg['runs'] / max(hours, 1e-9)), seeds_per_hour=int(agg['runs'] / max(hours, 1e-9)), simulated_hours=round(agg['sim_s'] / 3600, 2),
                                simulated_s_per_wall_s=round(agg['sim_s'] / max(agg['wall'], 1e-9), 1), scheduler_steps=agg['steps'], operations=agg['ops'],
                                first_run_seed=base * 1000000007, distinct_executions=len(agg['hashes']), distinct_states=len(agg['states']), state_measure=MEASURE,
                                runs_per_profile=dict(agg['profiles']), runs_per_build=dict(agg['flavours']), injected_and_observed=inj, unfinished_runs=agg['unfinished'],
                                violations_of_other_properties=dict(agg['other']), known_findings_met=dict(agg['known']), not_reproduced=unrep,
                                determinism_samples_differing=differ, components_real=COMPONENTS['real'], components_stub=COMPONENTS['stub'],
                                build_s=round(tb, 1), exploration_s=round(agg['wall'], 1), cores=CORES, classes=spec['classes']))
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
        print('%s: %d runs (%d distinct), %.1f simulated hours, %d states, %.0f runs/hour, build %.0f s, total %.0f s' %
              (prop, agg['runs'], len(agg['hashes']), agg['sim_s'] / 3600, len(agg['states']), agg['runs'] / max(hours, 1e-9), tb, wall))
        for i, k in enumerate(known.items):
            print('KNOWN-FINDING: property=%s %s%s' % (prop, k['what'], '' if i in known.hit else ' (not met in this run)'))
        for u in unrep:
            print('not reproduced, not counted: %s seed %s %s' % (u['profile'], u['seed'], u['cls']))
        for path, vv, item in out:
            print('%s (profile %s, seed %d): %s' % (vv['cls'], item[2], item[3], vv['detail'][:500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1 if out else 0
    finally:
        shutil.rmtree(sc, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs (see DESIGN.md).
exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: the check itself failed."""
import sys, os, json, time, subprocess, re, collections, tempfile, hashlib, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from plan import PLAN, BUDGET, NOFAULT_SHARE
VERIF = B.VERIF
NP = int(os.environ.get('SIM_PROCS', str(min(8, os.cpu_count() or 8))))

def sim(d, sc, *args, timeout=600, env_extra=None):
    env = dict(os.environ, SIM_MODDIR=os.path.join(d, 'modules')); env.pop('SIM_EXEC', None)
    exe = os.path.join(d, 'simangel' if sc.startswith('angel') else 'simworker')
    return [exe] + list(args), env

def run_json(d, sc, args, timeout=400):
    cmd, env = sim(d, sc, *args)
    try: r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: return None
    try: return json.loads(r.stdout.decode(errors='replace').strip().splitlines()[-1])
    except Exception: return None

def tagmatch(prop, tags): return tags == '*' or prop in tags.split(',')

def same(prop, a, b): return a and b and b.get('status') == 2 and tagmatch(prop, b['prop']) and a['cls'] == b['cls']

def load_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ :: (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def read_dec(path):
    head, dec = [], []
    for l in open(path): (dec if l.startswith('d ') else head).append(l)
    return head, dec

def minimise(d, sc, prop, ref, path, budget):
    """ddmin over the non-default decisions; several candidates are tried in parallel."""
    head, dec = read_dec(path)
    t0 = time.time(); tmp = tempfile.mkdtemp(prefix='simmin')
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(NP); n0 = len(dec); cnt = [0]
    def ok(cand):
        cnt[0] += 1
        p = os.path.join(tmp, 'c%d' % cnt[0] + hashlib.md5(''.join(cand).encode()).hexdigest()[:8])
        open(p, 'w').writelines(head + cand)
        r = run_json(d, sc, ['run', '--replay', p, '--prop', prop, '--run-timeout', '60'], timeout=100)
        os.unlink(p)
        return same(prop, ref, r)
    try:
        # by site first: drop whole kinds of decisions
        sites = sorted(set(l.split()[1] for l in dec), key=lambda s: -sum(1 for l in dec if l.split()[1] == s))
        i = 0
        while i < len(sites) and time.time() - t0 < budget * 0.5:
            batch = sites[i:i + NP]; i += NP
            res = list(ex.map(ok, [[l for l in dec if l.split()[1] != s] for s in batch]))
            drop = [s for s, r in zip(batch, res) if r]
            if drop:
                c = [l for l in dec if l.split()[1] not in drop]
                if len(drop) == 1 or ok(c): dec = c
                else: dec = [l for l in dec if l.split()[1] != drop[0]]
        n = 2
        while len(dec) >= 1 and time.time() - t0 < budget:
            n = min(n, len(dec)); sz = (len(dec) + n - 1) // n
            parts = [dec[k:k + sz] for k in range(0, len(dec), sz)]
            done = False; k = 0
            while k < len(parts) and time.time() - t0 < budget:
                batch = list(range(k, min(k + NP, len(parts)))); k += NP
                cands = [sum(parts[:b] + parts[b + 1:], []) for b in batch]
                res = list(ex.map(ok, cands))
                good = [c for c, r in zip(cands, res) if r]
                if good:
                    dec = min(good, key=len); done = True; break
            if done: n = max(n - 1, 2); continue
            if n >= len(dec): break
            n = min(len(dec), n * 2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True); ex.shutdown(wait=True)
    return head, dec, n0, cnt[0]

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a.startswith('--tier='): tier = a[7:]
    seed0 = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = float(os.environ.get('SIM_BUDGET', BUDGET[tier]))
    try: d = B.build()
    except B.BuildError as e:
        print('BUILD FAILED\n' + str(e)); return 2
    tb = time.time() - t0
    plan = PLAN[prop]
    evd = os.path.join(VERIF, 'evidence'); os.makedirs(os.path.join(evd, 'replays'), exist_ok=True)
    # one job list: (scenario, flags, wall); processes run them in parallel, seeds strided
    jobs = []
    tot = sum(w for _, w in plan)
    for sc, w in plan:
        for fl, sh in (([], 1 - NOFAULT_SHARE), (['--no-faults'], NOFAULT_SHARE)):
            jobs.append((sc, fl, budget * w / tot * sh))
    agg = collections.Counter(); named = {}; traces, scheds, sigs = {}, {}, {}; V, E, other = [], [], []
    cov = {}; per = {}
    base = seed0 * 10000000
    for sc, fl, wall in jobs:
        ps = []
        b0 = base + (5000000 if fl else 0)
        for i in range(NP):
            cmd, env = sim(d, sc, 'batch', '--scenario', sc, '--seed', str(b0 + i), '--stride', str(NP), '--count', '100000000', '--wall', '%.2f' % wall, '--maxviol', '2', '--prop', prop, '--run-timeout', '60', *fl)
            ps.append(subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
        key = sc + (' (fault-free)' if fl else '')
        P = per.setdefault(key, collections.Counter())
        for p in ps:
            o = p.communicate()[0]
            try: j = json.loads(o.decode(errors='replace'))
            except Exception:
                E.append({'scenario': sc, 'r': {'msg': 'batch process failed rc=%s' % p.returncode}}); continue
            for k in ('runs', 'steps', 'bb', 'switches', 'preempts', 'dec', 'nontrivial'): agg[k] += j[k]; P[k] += j[k]
            agg['vtime'] += j['vtime']; P['vtime'] += j['vtime']
            for k, (a, c) in j['named'].items():
                x = named.setdefault(k, [0, 0]); x[0] += a; x[1] += c
            traces.setdefault(sc, set()).update(j['traces'].split()); scheds.setdefault(sc, set()).update(j['scheds'].split()); sigs.setdefault(sc, set()).update(j['sigs'].split())
            exe = 'angel' if sc.startswith('angel') else 'worker'
            cov[exe] = cov.get(exe, 0) | int(j['cov'], 16)
            for v in j['violations']:
                v['scenario'] = sc; v['flags'] = fl
                (V if tagmatch(prop, v['r']['prop']) else other).append(v)
            for v in j['errors']: v['scenario'] = sc; E.append(v)
        if len(V) >= 4: break
    # ---- gate, minimise, report -----------------------------------------------------------------
    findings = [f for f in load_findings() if f[0] == prop]
    reported, notes = [], []
    seen = set()
    V.sort(key=lambda v: (v['r']['cls'], v['r']['dec']))
    tmin = time.time()
    for v in V:
        r = v['r']; sc = v['scenario']; k = (sc, r['cls'])
        if k in seen: continue
        fk = [f for f in findings if f[1] in (sc, '*') and f[2] == r['cls'] and re.search(f[3], r['msg'])]
        if fk: v['known'] = fk[0]; continue
        if len(reported) >= 3 or time.time() - tmin > 240: break
        name = '%s-%s-%s-%d' % (prop, sc, re.sub(r'[^A-Za-z0-9_-]', '_', r['cls']), v['seed'])
        rp = os.path.join(evd, 'replays', name + '.replay'); full = rp + '.full'
        args = ['run', '--scenario', sc, '--seed', str(v['seed']), '--prop', prop, '--run-timeout', '60'] + v['flags']
        a = run_json(d, sc, args + ['--dump', full]); b = run_json(d, sc, args)
        if not (same(prop, r, a) and same(prop, r, b)):
            notes.append('seed %d of %s did not reproduce in a fresh process: %s' % (v['seed'], sc, r['msg'][:200])); continue
        exact = a['hash'] == b['hash'] == r['hash']
        if not exact and not r['cls'].startswith('crash'):
            notes.append('seed %d of %s reproduced with a different trace' % (v['seed'], sc)); continue
        c = run_json(d, sc, ['run', '--replay', full, '--prop', prop, '--run-timeout', '60'])
        if not same(prop, r, c):
            notes.append('seed %d of %s: the recorded decisions did not replay' % (v['seed'], sc)); continue
        head, dec, n0, tries = minimise(d, sc, prop, r, full, 40 if tier == 'quick' else 150)
        open(rp, 'w').writelines(['# property %s class %s seed %d scenario %s\n' % (prop, r['cls'], v['seed'], sc), '# %s\n' % r['msg'][:600].replace('\n', ' '),
                                  '# replay: python3 %s/tools/replay.py %s\n' % (VERIF, rp)] + head + dec)
        f1 = run_json(d, sc, ['run', '--replay', rp, '--prop', prop]); f2 = run_json(d, sc, ['run', '--replay', rp, '--prop', prop])
        if not (same(prop, r, f1) and same(prop, r, f2)):
            shutil.copy(full, rp)     # fall back to the complete recording, which was checked above
            f1 = c; dec = read_dec(rp)[1]
        os.unlink(full)
        seen.add(k)
        reported.append({'scenario': sc, 'seed': v['seed'], 'class': r['cls'], 'message': f1['msg'][:800], 'replay': rp, 'decisions': n0, 'minimised_decisions': len(dec), 'minimiser_runs': tries, 'trace_hash': f1['hash'], 'exact_replay': exact})
    known_seen = {}
    for v in V:
        if 'known' in v: known_seen.setdefault(v['known'], v)
    # ---- evidence -----------------------------------------------------------------------------------
    wall = time.time() - t0
    faults = {k[6:]: {'injected': v[0], 'runs': v[1]} for k, v in sorted(named.items()) if k.startswith('fault.')}
    probes = {k[6:]: {'hits': v[0], 'runs': v[1]} for k, v in sorted(named.items()) if k.startswith('probe.')}
    stats = {k[5:]: v[0] for k, v in sorted(named.items()) if k.startswith('stat.')}
    samples = []
    for sc, _ in plan[:3]:
        sp = os.path.join(evd, 'sample.%s.tmp' % prop)
        s = run_json(d, sc, ['run', '--scenario', sc, '--seed', str(base), '--prop', prop, '--dump', sp])
        if s:
            _, dec = read_dec(sp)
            samples.append({'scenario': sc, 'seed': base, 'status': s['status'], 'trace_hash': s['hash'], 'virtual_seconds': s['vtime'], 'system_calls': s['steps'], 'thread_switches': s['switches'],
                            'decisions': len(dec), 'first_decisions': [l.strip()[2:] for l in dec[:25]], 'counters': s['named']})
        if os.path.exists(sp): os.unlink(sp)
    ev = {'property': prop, 'tier': tier, 'seed': seed0, 'level': 'exploration',
          'coverage': {
              'evaluations': agg['runs'], 'distinct_nontrivial': sum(len(s) for s in sigs.values()),
              'rule': 'A case is one simulated run: the real server booted from its real configuration parser, driven to completion and shut down, with every schedule, timing, input and fault choice drawn from one seed. It is non-trivial when its scenario reached its oracle at least once (each oracle mixes what it judged into a signature); distinct = distinct signatures per scenario.',
              'samples': samples,
              'runs_per_hour': round(agg['runs'] / max(1e-9, budget) * 3600), 'seeds_per_hour': round(agg['runs'] / max(1e-9, budget) * 3600),
              'seed_base': base, 'worker_processes': NP,
              'simulated_seconds': round(agg['vtime'], 1), 'system_calls_simulated': agg['steps'], 'basic_blocks_executed': agg['bb'],
              'thread_switches': agg['switches'], 'preemptions_inside_code': agg['preempts'], 'nondefault_decisions': agg['dec'],
              'distinct_event_traces': sum(len(s) for s in traces.values()), 'distinct_thread_schedules': sum(len(s) for s in scheds.values()),
              'covered_block_hash_bits': {k: bin(v).count('1') for k, v in cov.items()},
              'per_scenario': {k: dict(v, vtime=round(v['vtime'], 1)) for k, v in per.items()},
              'faults_injected': faults, 'probes': probes, 'stats': stats,
              'real_components': 'lighttpd2 worker or angel process code, every loaded module, glib, libev, lua, zlib, bzip2, openssl: real code on real threads, one running at a time',
              'stubbed_components': 'Linux kernel interface (sockets, epoll, eventfd, pipes, files under /vfs, clocks, signals, process control, futex/mutex blocking, thread scheduling); HTTP clients, backends, memcached and angel/worker counterparts are simulator actors',
              'build_s': round(tb, 1), 'harness_errors': len(E), 'other_property_violations': len(other),
              'unreproduced': notes, 'violation_details': reported,
          },
          'assumptions': ['sequentially consistent interleavings of basic blocks (no weak memory effects)', 'the simulated kernel follows Linux semantics for the calls used'],
          'violations': len(reported), 'wall_s': round(wall, 1)}
    with open(os.path.join(evd, prop + '.json.tmp'), 'w') as f: json.dump(ev, f, indent=1)
    os.rename(os.path.join(evd, prop + '.json.tmp'), os.path.join(evd, prop + '.json'))
    print('%s %s: %d runs, %.0f simulated s, %d distinct cases, %d faults injected, %.0f s' % (prop, tier, agg['runs'], agg['vtime'], ev['coverage']['distinct_nontrivial'], sum(f['injected'] for f in faults.values()), wall))
    for e in E[:5]: print('harness error: %s' % json.dumps(e)[:600])
    for n in notes[:5]: print('note: ' + n)
    for v in other[:3]: print('note: another property failed here: %s %s seed %d: %s' % (v['r']['prop'], v['r']['cls'], v['seed'], v['r']['msg'][:200]))
    for f in findings: print('KNOWN-FINDING: property=%s %s%s' % (prop, f[4], '' if f in known_seen else ' (listed; not hit in this run)'))
    for r in reported:
        print('%s in %s seed %d (%d -> %d decisions): %s' % (r['class'], r['scenario'], r['seed'], r['decisions'], r['minimised_decisions'], r['message']))
        print('VIOLATION property=%s replay=%s' % (prop, r['replay']))
    if reported: return 1
    if agg['runs'] == 0: print('no run completed'); return 2
    if len(E) > agg['runs'] * 0.2: print('too many harness errors'); return 2
    return 0

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

"""Runs scenarios of one property: worker processes, shrinking, replay, evidence."""
import importlib
import json
import os
import random
import select
import subprocess
import sys
import time
import zlib

from dst import env

REAL = time.monotonic


# ------------------------------------------------------------------ inside a worker
def scenario_of(mod, seed, i):
    rng = random.Random(f'{seed}:{mod.ID}:{i}')
    # via JSON, so that no value is an object shared by accident (the union rule compares results by identity, and the
    # restarted processes, like a replay, only ever see the JSON text)
    return json.loads(json.dumps(mod.gen(rng, i)))


def run_scenario(mod, scn, timeout):
    """in a fresh fork; returns ('ok', stats) | ('viol', {...}) | ('invalid', msg) | ('harness', msg)"""
    from dst.common import forked, Viol, HarnessError
    from dst.userland import Invalid
    try:
        return 'ok', forked(lambda: mod.run(scn), timeout)
    except Viol as v:
        return 'viol', {'kind': v.kind, 'msg': v.msg, 'detail': v.detail}
    except Invalid as e:
        return 'invalid', str(e)
    except HarnessError as e:
        return 'harness', str(e)


def worker_main(argv):
    mod_id, w, n_workers, seed, tier, count = argv[0], int(argv[1]), int(argv[2]), argv[3], argv[4], int(argv[5])
    env.boot()
    mod = importlib.import_module('dst.props.' + mod_id.lower())
    if hasattr(mod, 'setup'):
        mod.setup()
    groups = len(env.HASH_SEEDS)
    out = sys.stdout
    mine = [i for i in range(count) if i % groups == w % groups and (i // groups) % (n_workers // groups) == w // groups]
    if os.environ.get('DST_ONLY'):
        mine = [i for i in mine if str(i) in os.environ['DST_ONLY'].split(',')]
    timeout = 120.0
    for i in mine:
        try:
            scn = scenario_of(mod, seed, i)
        except Exception as e:
            # (the generator only looks at its own random numbers: no scenario)
            out.write(json.dumps({'i': i, 'k': 'invalid', 'r': f'generator: {type(e).__name__}'}) + '\n')
            out.flush()
            continue
        k, res = run_scenario(mod, scn, timeout)
        line = {'i': i, 'k': k, 'r': res}
        if k == 'ok' and res.get('sample'):
            line['sample'] = scn
        if k == 'viol':
            out.write(json.dumps({'i': i, 'k': 'pre', 'r': {'kind': res['kind']}}) + '\n')
            out.flush()
            small, sres, tried = shrink(mod, scn, res, budget=float(os.environ.get('DST_SHRINK', '40')))
            line['r'] = sres
            line['scn'] = small
            line['orig'] = scn
            line['tried'] = tried
            line['hashseed'] = os.environ.get('PYTHONHASHSEED')
        out.write(json.dumps(line) + '\n')
        out.flush()
    out.write(json.dumps({'k': 'done'}) + '\n')
    out.flush()


# ------------------------------------------------------------------ shrinking
def _paths(x, path=()):
    """(path, node) of every list/dict inside a scenario, outermost first"""
    yield path, x
    if isinstance(x, dict):
        for k in x:
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _with(x, path, new):
    """a copy of x with the value at path replaced (new is DELETE: removed)"""
    if not path:
        return new
    if isinstance(x, dict):
        out = dict(x)
    else:
        out = list(x)
    p = path[0]
    if len(path) == 1:
        if new is DELETE:
            del out[p]
        else:
            out[p] = new
    else:
        out[p] = _with(out[p], path[1:], new)
    return out


DELETE = object()
LISTS = ('ops', 'threads', 'faults', 'classes', 'fields', 'toks', 'parsers', 'pre_bind', 'pool', 'selects', 'handles', 'sw',
         'history', 'steps', 'sel', 'probes', 'bases', 'tags', 'events', 'writes', 'm', 'e', 'restarts', 'swaps', 'intrs',
         'program', 'queries', 'victims', 'new', 'disk', 'battery', 'fills', 'uses', 'ops_')
DICTKEYS = ('post_new', 'pre_bind', 'default', 'final', 'ordered', 'unary', 'bool', 'len', 'intr', 'intr_at', 'fail_at', 'ex',
            'jkw', 'kw', 'rm', 'mrm', 'ren', 'mren', 'add', 'madd', 'when', 'deco', 'nine', 'style', 'frozen', 'sel',
            'include_defaults', 'sort', 'blacklist', 'whitelist', 'io', 'pre_hook', 'pyname', 'retry', 'share', 'classattr')


def candidates(scn):
    """smaller scenarios, most promising first"""
    nodes = list(_paths(scn))
    # pool, selects and handles are referred to by index: removing one invalidates references, so blank them instead
    for path, x in nodes:
        if isinstance(x, list) and path and path[-1] in LISTS and x:
            key = path[-1]
            if key in ('pool',):
                for i in range(len(x)):
                    if x[i] != ['n']:
                        yield _with(scn, path + (i,), ['n'])
                continue
            if key in ('selects',):
                for i in range(len(x)):
                    if x[i]:
                        yield _with(scn, path + (i,), {})
                continue
            n = len(x)
            step = n
            while step >= 1:
                for a in range(0, n, step):
                    if step == n and key in ('threads', 'fields', 'toks', 'm', 'e', 'classes'):
                        continue
                    yield _with(scn, path, x[:a] + x[a + step:])
                step //= 2
    for path, x in nodes:
        if isinstance(x, dict):
            for k in x:
                if k in DICTKEYS:
                    yield _with(scn, path + (k,), DELETE)
                    if k in ('kw', 'ex') and isinstance(x[k], dict):
                        for kk in x[k]:
                            yield _with(scn, path + (k, kk), DELETE)
    for path, x in nodes:
        # simpler values
        if isinstance(x, list) and len(x) == 2 and x and isinstance(x[0], str):
            if x[0] in ('l', 't', 'S', 'F') and isinstance(x[1], list) and x[1]:
                for i in range(len(x[1])):
                    yield _with(scn, path + (1,), x[1][:i] + x[1][i + 1:])
            elif x[0] in ('d', 'od') and isinstance(x[1], list) and x[1]:
                for i in range(len(x[1])):
                    yield _with(scn, path + (1,), x[1][:i] + x[1][i + 1:])
            elif x[0] == 'i' and x[1] not in (0, 1):
                yield _with(scn, path, ['i', 1])
            elif x[0] == 's' and isinstance(x[1], str) and len(x[1]) > 1:
                yield _with(scn, path, ['s', 'a'])
        if isinstance(x, dict) and x.get('k') in ('union', 'iter', 'map', 'tup', 'tupv', 'optional', 'newtype', 'lit'):
            yield _with(scn, path, {'k': 'plain', 't': 'int', 'toks': []})
            yield _with(scn, path, {'k': 'any', 'toks': []})


def shrink(mod, scn, res, budget):
    """greedy minimisation keeping the same kind of violation"""
    kind = res['kind']
    end = REAL() + budget
    tried = 0
    # pin the schedule first
    tr = res.get('detail', {}).get('schedule')
    if tr and isinstance(scn.get('sched'), dict):
        cand = dict(scn)
        cand['sched'] = {**scn['sched'], 'desc': tr}
        k, r = run_scenario(mod, cand, 60)
        tried += 1
        if k == 'viol' and r['kind'] == kind:
            scn, res = cand, r
    seen = set()
    progress = True
    while progress and REAL() < end:
        progress = False
        for cand in candidates(scn):
            if REAL() > end:
                break
            if hasattr(mod, 'fixup'):
                cand = mod.fixup(cand)
                if cand is None:
                    continue
            h = zlib.crc32(json.dumps(cand, sort_keys=True).encode())
            if h in seen:
                continue
            seen.add(h)
            tried += 1
            try:
                k, r = run_scenario(mod, cand, 30)
            except Exception:
                continue
            if k == 'viol' and r['kind'] == kind:
                scn, res = cand, r
                progress = True
                break
    return scn, res, tried


# ------------------------------------------------------------------ the driver
def spawn(args, hashseed, **kw):
    return subprocess.Popen([env.python(), '-B', '-s', os.path.join(env.VERIF, 'check.py'), *args], env=env.child_env(hashseed),
                            cwd=env.VERIF, preexec_fn=env.no_aslr, **kw)


def known_findings(pid):
    """lines 'known: property=<id> kind=<kind> <substring of the message>'"""
    out = []
    p = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: '):
                parts = line[7:].strip().split(' ', 2)
                if parts[0] == f'property={pid}':
                    out.append((parts[1].split('=', 1)[1], parts[2] if len(parts) > 2 else ''))
    return out


def main_check(pid):
    t0 = REAL()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = os.environ.get('VERIF_SEED', '1') or '1'
    mod_meta = json.loads(subprocess.run([env.python(), '-B', '-s', os.path.join(env.VERIF, 'check.py'), '--meta', pid],
                                         env=env.child_env('0'), cwd=env.VERIF, capture_output=True, text=True,
                                         check=True).stdout)
    print(f'seed={seed} property={pid} tier={tier}')
    count = mod_meta['thorough' if tier == 'thorough' else 'quick']
    if os.environ.get('DST_LIMIT'):
        count = int(os.environ['DST_LIMIT'])
    nw = int(os.environ.get('DST_WORKERS', '8'))
    nw = max(len(env.HASH_SEEDS), nw // len(env.HASH_SEEDS) * len(env.HASH_SEEDS))
    wall_cap = 600.0 if tier == 'quick' else 6 * 3600.0
    procs = []
    bufs = {}
    for w in range(nw):
        p = spawn(['--worker', pid, str(w), str(nw), seed, tier, str(count)], env.HASH_SEEDS[w % len(env.HASH_SEEDS)],
                  stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        procs.append(p)
        bufs[p.stdout.fileno()] = [p, b'']
        os.set_blocking(p.stdout.fileno(), False)
        os.set_blocking(p.stderr.fileno(), False)
    agg = {'runs': 0, 'nontrivial': 0, 'invalid': 0}
    sums = {}
    sigs = set()
    states = set()
    samples = []
    viols, harness, known_hits = [], [], {}
    done = 0
    stop_at = None
    known = known_findings(pid)
    errs = {}
    log = open(os.environ['DST_LOG'], 'w') if os.environ.get('DST_LOG') else None
    loglines = {}
    live = dict(bufs)
    while live:
        if stop_at is not None and REAL() > stop_at:
            break
        if REAL() - t0 > wall_cap:
            errs[f'stopped after {wall_cap} s, before all runs were made'] = count - agg['runs']
            break
        r, _, _ = select.select(list(live), [], [], 1.0)
        for fd in r:
            p, buf = live[fd]
            try:
                data = os.read(fd, 1 << 20)
            except BlockingIOError:
                continue
            if not data:
                del live[fd]
                p.wait()
                if p.returncode not in (0, None):
                    try:
                        err = p.stderr.read() or b''
                    except Exception:
                        err = b''
                    harness.append(f'worker ended with {p.returncode}: {err.decode(errors="replace")[-1500:]}')
                continue
            buf += data
            *lines, buf = buf.split(b'\n')
            live[fd][1] = buf
            for ln in lines:
                m = json.loads(ln)
                k = m['k']
                if k == 'done':
                    done += 1
                    continue
                if k == 'pre':
                    if stop_at is None and not any(kk == m['r']['kind'] for kk, _ in known):
                        stop_at = REAL() + 75
                    continue
                if log is not None:
                    loglines[m['i']] = json.dumps({x: m[x] for x in ('i', 'k', 'r')}, sort_keys=True)
                if k == 'ok':
                    st = m['r']
                    agg['runs'] += 1
                    agg['nontrivial'] += bool(st.get('nontrivial'))
                    for kk, v in st.get('sum', {}).items():
                        sums[kk] = sums.get(kk, 0) + v
                    sigs.update(st.get('sigs', ()))
                    states.update(st.get('states', ()))
                    if 'sample' in m and len(samples) < 3:
                        samples.append({'index': m['i'], 'scenario': m['sample']})
                elif k == 'invalid':
                    agg['invalid'] += 1
                    errs[m['r']] = errs.get(m['r'], 0) + 1
                elif k == 'harness':
                    harness.append(f"scenario {m['i']}: {m['r']}")
                elif k == 'viol':
                    hit = next(((kk, t) for kk, t in known if kk == m['r']['kind'] and t in m['r']['msg']), None)
                    if hit:
                        known_hits[hit] = known_hits.get(hit, 0) + 1
                    else:
                        viols.append(m)
                        stop_at = min(stop_at or 1e18, REAL() + 1.0)
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    wall = REAL() - t0
    if log is not None:
        for i in sorted(loglines):
            log.write(loglines[i] + '\n')
        log.close()
    code = 0
    if viols:
        viols.sort(key=lambda m: m['i'])
        m = viols[0]
        path = write_replay(pid, seed, m)
        ok = verify_replay(pid, path, m['r']['kind'])
        if not ok:
            m2 = {**m, 'scn': m['orig']}
            path = write_replay(pid, seed, m2)
            ok = verify_replay(pid, path, m['r']['kind'])
        print(f"{m['r']['kind']}: {m['r']['msg']}")
        if not ok:
            print('note: the violation did not reproduce in a fresh process')
        print(f'VIOLATION property={pid} replay={path}')
        code = 1
    elif harness:
        print('HARNESS ERROR:', harness[0])
        code = 2
    elif sum(n for m, n in errs.items() if m.startswith('generator')) > 3 + agg['runs'] // 100:
        print('HARNESS ERROR: the generator fails', errs)
        code = 2
    elif agg['runs'] == 0:
        print('HARNESS ERROR: nothing ran', errs)
        code = 2
    for (kk, t), n in known_hits.items():
        print(f'KNOWN-FINDING: property={pid} {kk} {t}')
    write_evidence(pid, tier, seed, mod_meta, agg, sums, sigs, states, samples, wall, len(viols), nw, errs)
    print(f"{pid}: {agg['runs']} runs, {agg['nontrivial']} non-trivial, {len(sigs)} distinct, {wall:.1f} s, "
          f"invalid {agg['invalid']} {dict(list(errs.items())[:3])}")
    if os.environ.get('DST_VERBOSE'):
        print(json.dumps(sums, sort_keys=True))
        for h in harness[:3]:
            print('HARNESS', h)
    sys.exit(code)


def write_replay(pid, seed, m):
    d = os.path.join(env.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{seed}-{m["i"]}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'index': m['i'], 'hashseed': m.get('hashseed', '0'),
                   'kind': m['r']['kind'], 'message': m['r']['msg'], 'detail': m['r'].get('detail', {}),
                   'shrink_runs': m.get('tried', 0), 'scenario': m['scn']}, f, indent=1)
    return path


def verify_replay(pid, path, kind):
    try:
        p = subprocess.run([env.python(), '-B', '-s', os.path.join(env.VERIF, 'check.py'), pid, '--replay', path],
                           cwd=env.VERIF, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1 and f'{kind}:' in p.stdout


def main_replay(pid, path):
    """re-executed in an interpreter with the recorded hash seed"""
    data = json.load(open(path))
    if os.environ.get('DST_REPLAYING') != '1':
        e = env.child_env(data.get('hashseed', '0'))
        e['DST_REPLAYING'] = '1'
        p = subprocess.run([env.python(), '-B', '-s', os.path.join(env.VERIF, 'check.py'), pid, '--replay', path], env=e,
                           cwd=env.VERIF, preexec_fn=env.no_aslr)
        sys.exit(p.returncode)
    env.boot()
    mod = importlib.import_module('dst.props.' + pid.lower())
    if hasattr(mod, 'setup'):
        mod.setup()
    k, r = run_scenario(mod, data['scenario'], 120)
    if k == 'viol':
        print(f"{r['kind']}: {r['msg']}")
        for kk, v in r.get('detail', {}).items():
            print(f'  {kk}: {json.dumps(v)[:1500]}')
        print(f'VIOLATION property={pid} replay={path}')
        sys.exit(1)
    print(k, json.dumps(r)[:2000])
    sys.exit(0 if k == 'ok' else 2)


def main_meta(pid):
    env.boot()
    mod = importlib.import_module('dst.props.' + pid.lower())
    print(json.dumps({'quick': mod.QUICK, 'thorough': mod.THOROUGH, 'rule': mod.RULE, 'measure': mod.MEASURE,
                      'real': mod.REAL, 'stub': mod.STUB, 'level': getattr(mod, 'LEVEL', 'exploration'),
                      'assumptions': getattr(mod, 'ASSUMPTIONS', [])}))


def write_evidence(pid, tier, seed, meta, agg, sums, sigs, states, samples, wall, nviol, nw, errs):
    d = os.path.join(env.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    faults = {k[6:]: v for k, v in sums.items() if k.startswith('fault:')}
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': min(len(sigs), agg['nontrivial']) if sigs else agg['nontrivial'],
        'rule': meta['rule'],
        'samples': samples,
        'simulated_runs_per_hour': round(agg['runs'] / max(wall, 1e-9) * 3600),
        'seeds_per_hour': round(agg['runs'] / max(wall, 1e-9) * 3600),
        'simulated_time_s': round(sums.get('steps', 0) * 0.001, 3),
        'scheduler_steps': sums.get('steps', 0),
        'thread_switches': sums.get('switches', 0),
        'faults_fired': faults,
        'distinct_measure': meta['measure'],
        'distinct_interleavings_or_states': len(sigs),
        'distinct_secondary': len(states),
        'counts': {k: v for k, v in sums.items() if not k.startswith('fault:')},
        'discarded_scenarios': agg['invalid'],
        'components_real': meta['real'],
        'components_stub': meta['stub'],
        'workers': nw,
        'hash_seeds': env.HASH_SEEDS,
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(seed) if str(seed).lstrip('-').isdigit() else 0, 'level': meta['level'],
          'coverage': cov, 'assumptions': meta['assumptions'], 'wall_s': round(wall, 2), 'violations': nviol}
    with open(os.path.join(d, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main(argv):
    if argv and argv[0] == '--worker':
        return worker_main(argv[1:])
    if argv and argv[0] == '--meta':
        return main_meta(argv[1])
    if argv and argv[0] == '--server':
        from dst import server
        return server.main(argv[1:])
    if len(argv) >= 3 and argv[1] == '--replay':
        return main_replay(argv[0], argv[2])
    return main_check(argv[0])

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property on /repo's current tree.

Builds the harness crate against /repo, emits its LLVM IR, lets the symbolic engine (twsym, z3) decide the
harness configurations of the property, replays every counterexample natively and writes evidence/<id>.json."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from configs import CHECKS

V = '/verif'
TW = V + '/engine/target/release/twsym'
H = V + '/harness/target/release/h'

def build():
    t = time.time()
    p = subprocess.run(['bash', V + '/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write(p.stdout.decode(errors='replace')[-6000:])
        print('ERROR: the harness does not build against the current tree')
        sys.exit(2)
    return time.time() - t

def native(entry, params, inputs, d, tmo=30):
    rp = os.path.join(d, 'rp')
    with open(rp, 'w') as f:
        f.write(''.join('%s %d\n' % (n, x) for n, x in inputs))
    env = dict(os.environ, TWSYM_REPLAY=rp, TWSYM_PARAMS=','.join('%s=%d' % kv for kv in params.items()), RUST_BACKTRACE='0')
    try:
        p = subprocess.run(['prlimit', '--as=%d' % (8 << 30), '--core=0', H, entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, cwd=d)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', 'no result within %d s' % tmo

def known():
    k = []
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', l.strip())
        if m:
            k.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return k

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[pid]
    t0 = time.time()
    tb = build()
    d = tempfile.mkdtemp(prefix='twsym-')
    try:
        rc = run(pid, tier, seed, c, d, t0, tb)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, seed, c, d, t0, tb):
    jobs = os.cpu_count() or 4
    cfgs = c['quick'] if tier == 'quick' else c.get('thorough', c['quick'])
    tot = {}
    runs, inc_all, reach_all, funcs, viol, samples = [], {}, {}, set(), [], []
    validated = 0
    unconf = []
    encode_mismatch = []
    for ci, (entry, params, secs) in enumerate(cfgs):
        o = os.path.join(d, 'o%d' % ci)
        os.mkdir(o)
        cmd = [TW, V + '/build/h.ll', '--entry', entry, '--out', o + '/o', '--jobs', str(jobs), '--secs', str(secs), '--max-viol', '3']
        for k, v in params.items():
            cmd += ['--param', '%s=%d' % (k, v)]
        cmd += c.get('args', [])
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 120)
            log = p.stdout.decode(errors='replace')[-2000:]
        except subprocess.TimeoutExpired:
            log = 'engine timeout'
        r, inc, reach, vs, sm = {}, {}, {}, [], []
        n = 0
        for f in glob.glob(o + '/o*'):
            try:
                x = json.load(open(f))
            except Exception:
                inc['unreadable worker result'] = 1
                continue
            n += 1
            for k in ('paths', 'done', 'assumed', 'checks', 'proved', 'forks', 'float_undecided', 'steps', 'queries', 'cached', 'sat', 'unsat', 'unknown', 'solver_time'):
                r[k] = r.get(k, 0) + x.get(k, 0)
            for k in ('max_query', 'max_path_condition', 'vars'):
                r[k] = max(r.get(k, 0), x.get(k, 0))
            for k, v in x['incomplete'].items():
                inc[k] = inc.get(k, 0) + v
            for k, v in x['reach'].items():
                reach[k] = reach.get(k, 0) + v
            funcs.update(x['functions'])
            vs += x['violations']
            sm += x['samples']
        if n == 0:
            inc['engine failed: ' + log[-300:]] = 1
        # the encoding is validated by running models of completed paths natively
        ok = 0
        for s in sm[:24]:
            rc, out = native(entry, params, s, d)
            if rc == 0 and 'COMPLETED' in out:
                ok += 1
            else:
                encode_mismatch.append({'entry': entry, 'params': params, 'inputs': s, 'rc': rc, 'out': out[-300:]})
                # the real code disagrees with the encoding: judge what the real code does
                if rc == 17 or rc in (-6, 134) or rc == 101:
                    vs.append({'kind': 'native', 'msg': out.strip()[-200:], 'site': '', 'stack': [], 'inputs': s})
        validated += ok
        samples += [{'entry': entry, 'params': params, 'inputs': s[:60]} for s in sm[-1:]]
        seen = {}
        for v in vs:
            key = (v['kind'], v['msg'], v['site'])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 3 or len(seen) > 60:
                continue
            rc, out = native(entry, params, v['inputs'], d)
            v['rc'], v['out'], v['entry'], v['params'] = rc, out[-1500:], entry, params
            if rc == 17 or rc in (-6, 134, 101, -11, 139, 'timeout', -9, 137):
                viol.append(v)
                seen[key] = 9
            else:
                unconf.append({'entry': entry, 'params': params, 'msg': v['msg'], 'kind': v['kind'], 'rc': rc})
        if not reach.get('end'):
            inc['no path reached the end of the harness'] = 1
        runs.append(dict(entry=entry, params=params, wall_s=round(time.time() - t, 2), incomplete=inc, reach=reach, native_replays=ok, **r))
        for k, v in r.items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith('max') or k == 'vars' else tot.get(k, 0) + v
        for k, v in inc.items():
            inc_all[k] = inc_all.get(k, 0) + v
        for k, v in reach.items():
            reach_all[k] = reach_all.get(k, 0) + v
        if viol and tier == 'quick':
            break
    kn = [k for k in known() if k[0] == pid]
    new, hit = [], {}
    for v in viol:
        text = '%s %s %s' % (v['kind'], v['msg'], v['out'])
        for k in kn:
            if k[1].search(text):
                hit[k[2]] = v
                break
        else:
            new.append(v)
    rdir = V + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + '/%s-*' % pid):
        os.remove(f)
    lines = []
    for i, v in enumerate(new[:5]):
        rp = '%s/%s-%d.txt' % (rdir, pid, i)
        with open(rp, 'w') as f:
            f.write('# property %s: %s %s at %s\n' % (pid, v['kind'], v['msg'].replace('\n', ' '), v['site']))
            f.write('# replay: TWSYM_REPLAY=%s TWSYM_PARAMS=%s %s %s\n' % (rp, ','.join('%s=%d' % kv for kv in v['params'].items()), H, v['entry']))
            f.write('# native result %s: %s\n' % (v['rc'], v['out'].strip().replace('\n', '\n#   ')))
            f.write('# stack: %s\n' % ' < '.join(v['stack'][:12]))
            f.write(''.join('%s %d\n' % (n, x) for n, x in v['inputs']))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
    twiggy = sorted(f for f in funcs if 'twiggy' in f)
    complete = not inc_all and not unconf and not encode_mismatch
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('forks', 0),
            'traces_validated_against_impl': validated,
            'samples': samples[:4],
            'exhaustive': bool(complete),
            'explanation': 'states are path classes of the symbolic execution (each stands for all values of the symbolic inputs that satisfy its path condition); transitions are solver-decided branches; traces validated are models of completed paths whose native run agreed with the encoding',
            'bounds': c['bounds'],
            'outside_the_bounds': c['outside'],
            'assertions_checked': tot.get('checks', 0),
            'assertions_proved': tot.get('proved', 0),
            'paths_cut_by_assumptions': tot.get('assumed', 0),
            'instructions_executed_symbolically': tot.get('steps', 0),
            'solver_queries': tot.get('queries', 0),
            'queries_answered_from_cache': tot.get('cached', 0),
            'sat': tot.get('sat', 0), 'unsat': tot.get('unsat', 0), 'unknown': tot.get('unknown', 0),
            'float_comparisons_undecided': tot.get('float_undecided', 0),
            'solver_time_s': round(tot.get('solver_time', 0), 3),
            'max_query_s': round(tot.get('max_query', 0), 3),
            'reachability_witnesses': reach_all,
            'incomplete': inc_all,
            'unconfirmed_counterexamples': unconf[:10],
            'encoding_mismatches': encode_mismatch[:10],
            'functions_encoded': len(funcs),
            'twiggy_functions_encoded': twiggy[:400],
            'runs': runs,
            'build_s': round(tb, 1),
        },
        'assumptions': c.get('assumptions', []) + COMMON,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s %s: %d paths, %d assertions (%d proved), %d queries (+%d cached), %.1f s solver, %d native replays, %.0f s' % (
        pid, tier, tot.get('paths', 0), tot.get('checks', 0), tot.get('proved', 0), tot.get('queries', 0), tot.get('cached', 0), tot.get('solver_time', 0), validated, time.time() - t0))
    if inc_all:
        print('INCOMPLETE:', inc_all)
    for u in unconf[:5]:
        print('UNCONFIRMED counterexample (not reported):', u)
    for u in encode_mismatch[:5]:
        print('ENCODING MISMATCH (native run of a completed path):', str(u)[:600])
    for k in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for v in new[:5]:
        print('  %s: %s | %s' % (v['kind'], v['msg'], v['out'].strip()[-300:].replace('\n', ' | ')))
    for l in lines:
        print(l)
    return 1 if new else 0

COMMON = [
    'the encoding is the LLVM IR rustc 1.77.2 emits for /repo (debug assertions and overflow checks on, panic=abort), executed by /verif/engine; z3 decides every branch and assertion',
    'allocation never fails; the hash seed of HashMap is one fixed value; the digits of a symbolic number are an opaque token that decodes to that number',
    'percentages are compared over the reals; a counterexample is only reported after it failed natively as well',
]

main()

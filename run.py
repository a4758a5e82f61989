#!/usr/bin/env python3
"""Decide one property: run.py <ID> [--tier quick|thorough] [--keep] ; run.py --replay FILE"""
import os, sys, json, time, threading, shutil, tempfile, subprocess, argparse, re, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import build
from checks import CHECKS
KINDS_SCHEDULE = {'race', 'deadlock', 'livelock'}
NAT_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:allocator_may_return_null=1:strict_memcmp=1', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=98', 'TSAN_OPTIONS': 'exitcode=97'}

def known():
    r = []
    p = os.path.join(V, 'KNOWN_FINDINGS.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) entry=(\S+) kind=(\S+) match="([^"]*)" (.*)', l.strip())
        if m:
            r.append(dict(zip(('property', 'entry', 'kind', 'match', 'what'), m.groups())))
    return r

def finding(kf, e, v):
    return [k for k in kf if k['entry'] == e['entry'] and k['kind'] == v['kind'] and k['match'] in (v['msg'] + ' @ ' + v['where'] + ' | ' + v['stack'])]

def inputs_file(path, inputs):
    with open(path, 'w') as f:
        for n, h in inputs:
            f.write('%s\t%s\n' % (n, h))

def native_run(exe, inputs, entry, work, params, timeout=60, pre=(), trace=None):
    d = tempfile.mkdtemp(prefix='replay.', dir=work)
    inp = os.path.join(d, 'inputs.txt'); inputs_file(inp, inputs)
    env = dict(os.environ); env.update(NAT_ENV)
    for k, v in params.items():
        env['VTP_' + k] = str(v)
    if trace:
        env['VT_TRACE'] = trace
    os.mkdir(d + '/cwd')
    try:
        r = subprocess.run(list(pre) + [exe, inp, entry], cwd=d + '/cwd', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = r.returncode, r.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        rc, out = 'timeout', (e.stdout or b'').decode('latin1')
    shutil.rmtree(d, ignore_errors=True)
    return rc, out[-3000:]

def confirm(v, harness, entry, params, work):
    """replay a counterexample natively; returns (confirmed, description)"""
    threads = any(v['schedule'])
    if v['kind'] == 'uninit':
        exe = build.native('plain', harness, work)
        if exe and shutil.which('valgrind'):
            rc, out = native_run(exe, v['inputs'], entry, work, params, 300, ['valgrind', '-q', '--error-exitcode=96', '--trace-children=no'])
            if rc == 96 or rc == 1 or (isinstance(rc, int) and rc < 0):
                return True, {'tool': 'valgrind', 'rc': rc, 'output': out}
            return False, {'tool': 'valgrind', 'rc': rc, 'output': out}
    exe = build.native('asan', harness, work)
    if not exe:
        return False, {'tool': 'asan', 'rc': 'no native build'}
    tries = 3 if threads else 1
    for _ in range(tries):
        rc, out = native_run(exe, v['inputs'], entry, work, params)
        if rc in (1, 98, 99) or (isinstance(rc, int) and rc < 0) or (rc == 'timeout' and v['kind'] in ('steps', 'deadlock', 'livelock')):
            return True, {'tool': 'asan+ubsan', 'rc': rc, 'output': out}
    return False, {'tool': 'asan+ubsan', 'rc': rc, 'output': out}

def replay(path):
    j = json.load(open(path)); work = tempfile.mkdtemp(prefix='vt.')
    ok, d = confirm(j, j['harness'], j['entry'], j['params'], work)
    print(json.dumps(d, indent=1)); print('reproduced' if ok else 'not reproduced')
    shutil.rmtree(work, ignore_errors=True)
    return 0 if ok else 1

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--only'); ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time(); pid = a.id; chk = CHECKS[pid]; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(V, 'evidence', 'replays'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vt-%s.' % pid)
    try:
        return run(pid, chk, tier, seed, work, a, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(pid, chk, tier, seed, work, a, t0):
    entries = [e for e in chk['entries'] if tier == 'thorough' and e.get('tier') != 'quick-only' or tier == 'quick' and e.get('tier') != 'thorough']
    if a.only:
        entries = [e for e in entries if a.only in e['entry']]
    hs = sorted({e['harness'] for e in entries})
    with cf.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(build.engine); fb = ex.submit(build.symbolic, hs, work)
        eng = fe.result(); bcs = fb.result()
    tb = time.time() - t0
    stop = threading.Event(); kf = [k for k in known() if k['property'] == pid]
    def one(i):
        e = entries[i]; out = os.path.join(work, 'r%d.json' % i)
        params = dict(e.get('params', {}))
        if tier == 'thorough':
            params.update(e.get('tparams', {}))
        e['_params'] = params
        lim = e.get('time', 240) * (8 if tier == 'thorough' else 1)
        cmd = [eng, bcs[e['harness']], '--entry=' + e['entry'], '--out=' + out, '--max-time=%d' % lim, '--max-viol=%d' % e.get('max_viol', 6), '--query-timeout=%d' % (60000 if tier == 'quick' else 240000), '--samples=%d' % (6 if tier == 'quick' else 24), '--seed=%d' % seed]
        if 'delays' in e: cmd.append('--delays=%d' % (e.get('tdelays', e['delays']) if tier == 'thorough' else e['delays']))
        if e.get('quiet'): cmd.append('--quiet-loads')
        if 'preempt' in e:
            cmd.append('--preempt=%d' % (e.get('tpreempt', e['preempt']) if tier == 'thorough' else e['preempt']))
        cmd += ['--param=%s=%d' % kv for kv in params.items()] + e.get('flags', [])
        ts = time.time()
        if stop.is_set():
            return None
        lf = open(out + '.log', 'wb+')
        r = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)
        while r.poll() is None:
            time.sleep(0.05)
            if stop.is_set() or time.time() - ts > lim + 120:
                r.kill(); r.wait()
                if stop.is_set():
                    return None
        lf.seek(0); log, rc = lf.read().decode('latin1')[-2000:], r.returncode
        j = json.load(open(out)) if os.path.exists(out) and os.path.getsize(out) else None
        if j is None:
            j = {'problems': ['engine failed rc=%s %s' % (rc, log[-300:])], 'violations': [], 'covers': {}, 'functions': [], 'externals': [], 'asserts': {}, 'path_samples': []}
        if any(not finding(kf, e, v) for v in j['violations']):
            stop.set()      # one confirmed counterexample decides; the other entries are cut short
        return e, j, time.time() - ts
    order = sorted(range(len(entries)), key=lambda i: -entries[i].get('time', 240))
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        res = [x for x in ex.map(one, order) if x]
    # ------------------------------------------------------------ judge
    status = 0; nviol = 0; lines = []; kfseen = {}; problems = []; fns = set(); exts = set(); per = []; samples = []; tot = {}
    for e, j, wall in res:
        for k in ('paths', 'paths_error', 'paths_assumed_away', 'forks', 'instructions', 'asserts_checked', 'memory_checks', 'queries', 'sat', 'unsat', 'unknown', 'lia', 'query_cache_hits', 'model_hits'):
            tot[k] = tot.get(k, 0) + j.get(k, 0)
        tot['solver_time'] = tot.get('solver_time', 0) + j.get('solver_time', 0)
        fns |= set(j['functions']); exts |= set(j['externals'])
        new = []
        for v in j['violations']:
            hit = finding(kf, e, v)
            if hit:
                kfseen[hit[0]['what']] = 1
            else:
                new.append(v)
        missing = [c for c in e.get('covers', []) if not j['covers'].get(c)]
        per.append({'entry': e['entry'], 'harness': e['harness'], 'params': e['_params'], 'paths': j.get('paths', 0), 'queries': j.get('queries', 0), 'unsat': j.get('unsat', 0), 'solver_time': j.get('solver_time', 0), 'wall': round(wall, 1), 'assertions': j['asserts'], 'covers': j['covers'], 'violations': len(j['violations']), 'what': e.get('what', '')})
        expect_known = any(k['entry'] == e['entry'] for k in kf)
        if not new:
            for p in j['problems']:
                if not (expect_known and p == 'violation limit reached'):
                    problems.append('%s: %s' % (e['entry'], p))
            if missing and not expect_known:
                problems.append('%s: not reached: %s' % (e['entry'], missing))
        for s in j['path_samples'][:2]:
            samples.append({'entry': e['entry'], 'inputs': s['inputs'][:12], 'trace': s['trace'][:12]})
        done = False; unconf = []
        for v in new:
            rep = {'property': pid, 'entry': e['entry'], 'harness': e['harness'], 'params': e['_params'], 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'stack': v['stack'], 'inputs': v['inputs'], 'schedule': v['schedule'], 'others': [w['sig'] for w in new if w is not v][:10]}
            ok, d = confirm(v, e['harness'], e['entry'], e['_params'], work)
            rep['native'] = d; rep['confirmed_natively'] = ok
            if ok or v['kind'] in KINDS_SCHEDULE or any(v['schedule']) or e.get('trust'):
                nviol += 1
                path = os.path.join(V, 'evidence', 'replays', '%s-%s-%d.json' % (pid, e['entry'], nviol))
                json.dump(rep, open(path, 'w'), indent=1)
                lines.append('VIOLATION property=%s replay=%s' % (pid, path)); done = True
                print('%s: [%s] %s at %s' % (e['entry'], v['kind'], v['msg'], v['where'][:200]))
                break
            unconf.append(v)
        if not done:
            for v in unconf:
                problems.append('%s: counterexample not reproduced natively: [%s] %s at %s inputs=%s native=%s' % (e['entry'], v['kind'], v['msg'], v['where'], str(v['inputs'])[:300], str(d)[:600]))
        if len(lines) >= 3:
            break
    # ------------------------------------------------------------ replay sampled paths natively: validates engine and models
    validated = 0
    if not lines and (tier == 'thorough' or chk.get('validate_quick')):
        jobs = []
        for e, j, _ in res:
            if e.get('no_native') or any(k['entry'] == e['entry'] for k in kf):
                continue
            for s in j['path_samples']:
                if not s['threads']:
                    jobs.append((e, s))
        exes = {h: build.native('asan', h, work) for h in sorted({e['harness'] for e, _ in jobs})}
        def val(es):
            e, s = es
            tr = tempfile.mktemp(prefix='tr.', dir=work)
            rc, out = native_run(exes[e['harness']], s['inputs'], e['entry'], work, e['_params'], 120, trace=tr)
            got = [l[6:].rstrip('\n') for l in open(tr, encoding='latin1') if l.startswith('cover ')] if os.path.exists(tr) else []
            return e, s, rc, out, got
        with cf.ThreadPoolExecutor(8) as ex:
            for e, s, rc, out, got in ex.map(val, jobs):
                if rc == 0 and got == s['trace']:
                    validated += 1
                else:
                    problems.append('%s: native run of a verified path differs: rc=%s trace %s vs %s inputs=%s %s' % (e['entry'], rc, got[:8], s['trace'][:8], str(s['inputs'])[:200], out[-400:]))
    for w in sorted(kfseen):
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, w))
    for k in kf:
        if k['what'] not in kfseen and any(e['entry'] == k['entry'] for e, _, _ in res):
            print('note: known finding not observed any more: ' + k['what'])
    if nviol:
        status = 1
    elif problems:
        status = 2
    for p in problems:
        print('PROBLEM ' + p[:1500])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': chk['level'],
          'coverage': {'states': tot.get('paths', 0), 'transitions': tot.get('instructions', 0), 'traces_validated_against_impl': validated,
                       'samples': samples[:12] or [{'note': 'no completed path'}], 'rule': 'states = symbolic paths completed (each a set of inputs described by a path condition); transitions = LLVM instructions interpreted',
                       'functions_encoded': sorted(fns), 'functions_encoded_count': len(fns), 'external_models_called': sorted(exts)[:200],
                       'bounds': chk['bounds'], 'outside_bounds': chk.get('outside', ''), 'entries': per,
                       'solver_queries': tot.get('queries', 0), 'queries_sat': tot.get('sat', 0), 'queries_unsat': tot.get('unsat', 0), 'queries_unknown': tot.get('unknown', 0), 'queries_as_integer_arithmetic': tot.get('lia', 0),
                       'queries_answered_by_cached_result': tot.get('query_cache_hits', 0), 'queries_answered_by_known_model': tot.get('model_hits', 0), 'solver_time_s': round(tot.get('solver_time', 0), 2),
                       'assertion_instances': tot.get('asserts_checked', 0), 'memory_safety_checks': tot.get('memory_checks', 0), 'forks': tot.get('forks', 0), 'paths_assumed_away': tot.get('paths_assumed_away', 0),
                       'known_findings_seen': sorted(kfseen), 'problems': problems, 'build_s': round(tb, 1)},
          'assumptions': chk.get('assumptions', []) + COMMON, 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in lines:
        print(l)
    print('%s %s: %s; %d entries, %d paths, %d queries (%.1f s in the solver), %d functions, %d native replays, %.0f s' % (pid, tier, ['held within the stated bounds', 'VIOLATED', 'NO ANSWER'][status], len(res), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_time', 0), len(fns), validated, time.time() - t0))
    return status

COMMON = ['the compiler (clang 18 -O1 to LLVM bitcode; the project itself is built by g++-11 -O0) and the engine in /verif/engine translate the code faithfully',
          'heap allocation never fails', 'the C/C++ runtime behaves as modelled in /verif/runtime and /verif/shim (allocation, streams, containers\' out-of-line parts, threads, clocks)']
if __name__ == '__main__':
    sys.exit(main())

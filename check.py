#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's current tree by contracts.

Back ends, in the order they decide:
  verus   unbounded: functions extracted mechanically from /repo (verus/extract.py) against the contracts in verus/*.vrs
  kani    harness = precondition (assumptions) + call of the real code + postcondition (assertions), over symbolic values;
          kind `complete` is a proof for all values of the stated domain, `bounded` a proof up to the stated bound
  native  the same contracts executed on the real code (kind `native`: bounded stand-in, never counted as proved;
          for the other kinds only used to find a concrete failing input)
Exit 0: held on everything. Exit 1 + VIOLATION line: broken. Exit 2: the check could not decide (e.g. /repo does not build).
"""
import json, os, re, subprocess, sys, time, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HX = os.path.join(VERIF, 'hx')
sys.path.insert(0, os.path.join(VERIF, 'verus'))
import extract
from props import PROPS

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
WORK = os.path.join(VERIF, 'evidence', 'work')
REPLAY = os.path.join(VERIF, 'evidence', 'replay')

def sh(cmd, timeout, **kw):
    """(rc, output); rc None on timeout. The whole process group is ended."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                         start_new_session=True, env=kw.pop('env', ENV), **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out

def hookflags(hooks):
    return dict(ENV, RUSTFLAGS='--cfg knaster_verif') if hooks else ENV

def build_native(hooks=True):
    td = os.path.join(HX, 'target')
    cmd = ['cargo', 'build', '--offline', '--manifest-path', os.path.join(HX, 'Cargo.toml'), '--target-dir', td]
    if hooks: cmd += ['--features', 'hooks']
    rc, out = sh(cmd, 600, env=hookflags(hooks))
    return rc == 0, out, os.path.join(td, 'debug', 'hx')

# ------------------------------------------------------------------ verus
def run_verus(templates):
    """[{template, status: ok|failed|lost|tool, obligations, discharged, failed[], functions[], output, seconds, assumptions}]"""
    def one(t):
        path = os.path.join(VERIF, 'verus', t)
        r = {'template': t, 'obligations': 0, 'discharged': 0, 'failed': [], 'functions': [], 'seconds': 0.0, 'output': ''}
        raw = open(path).read()
        r['assumptions'] = sorted(set(a for a in re.findall(r'\b(?:assume_specification|assume|admit|external_body|axiom\s+fn\s+\w+|external_type_specification|uninterp)\b[^\n]*', raw) if a not in ('external_body]',)))
        t0 = time.time()
        try:
            text, log = extract.expand(path, REPO)
        except (extract.Lost, ValueError, IndexError) as e:
            r.update(status='lost', output=str(e)); return r
        r['functions'] = log
        f = os.path.join(WORK, t.replace('.vrs', '') + '_x.rs')
        open(f, 'w').write(text)
        # an obligation the solver gave up on is tried again under other seeds; a function counts as verified when one run accepted all of it
        still, first = None, None
        for seed in (None, 7, 13):
            one_run(r, f, seed)
            if r['status'] == 'tool':
                if first is None: break
                continue
            fs = set(r['failed']) or ({'(unnamed)'} if r['status'] == 'failed' else set())
            if first is None: first = dict(r, failed=sorted(fs))
            still = fs if still is None else still & fs
            if not still: break
        if first is not None:
            r.update(first)
            r['failed'] = sorted(still); r['status'] = 'failed' if still else 'ok'
            if not still: r['discharged'] = r['obligations']
        r['seconds'] = round(time.time() - t0, 2)
        return r
    def one_run(r, f, seed):
        rc, out = sh(['verus', f, '--edition', '2024', '--output-json', '--time', '--multiple-errors', '5', '--rlimit', '40', '--triggers-mode', 'silent'] + (['--smt-option', f'smt.random_seed={seed}', '--smt-option', f'sat.random_seed={seed}'] if seed else []), 300, cwd=WORK)
        r['output'] = out[:20000]
        r['failed'] = []
        m = re.search(r'^\{\n', out, re.M)
        try:
            j = json.loads(out[m.start():]) if m else {}
        except json.JSONDecodeError:
            try: j, _ = json.JSONDecoder().raw_decode(out[m.start():])
            except Exception: j = {}
        vr = j.get('verification-results', {})
        fns = []
        def walk(o):
            if isinstance(o, dict):
                if 'function' in o and 'success' in o: fns.append(o)
                for v in o.values(): walk(v)
            elif isinstance(o, list):
                for v in o: walk(v)
        walk(j.get('times-ms', {}))
        r['solver_ms'] = sum(x.get('time', 0) for x in fns)
        if rc is None or not vr or vr.get('encountered-vir-error') or (vr.get('verified', 0) == 0):
            r['status'] = 'tool'; return
        r['discharged'] = vr.get('verified', 0)
        r['obligations'] = vr.get('verified', 0) + vr.get('errors', 0)
        r['failed'] = sorted({x['function'].split('::', 1)[-1] for x in fns if not x['success']})
        if vr.get('success') and vr.get('errors', 0) == 0:
            r['status'] = 'ok'
        elif re.search(r'rlimit|resource limit', out) and not re.search(r'(postcondition|precondition|invariant|assertion|requires) (not|fail)', out):
            r['status'] = 'tool'
        else:
            r['status'] = 'failed'
    with cf.ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, templates))

# ------------------------------------------------------------------ kani
UNDECIDED = re.compile(r'unwinding assertion|is not currently supported by Kani|unsupported|recursion unwinding', re.I)

def run_kani(names, hooks, timeout):
    """{name: {status: ok|failed|undecided|timeout, checks, covers, failed[], seconds}}, tail of the output"""
    res = {n: {'status': 'missing', 'checks': 0, 'failed': [], 'seconds': 0.0, 'covers': None} for n in names}
    if not names: return res, ''
    cmd = ['cargo', 'kani', '--manifest-path', os.path.join(HX, 'Cargo.toml'), '--target-dir', os.path.join(HX, 'target', 'kani'),
           '-j', '8', '--output-format', 'terse', '-Z', 'unstable-options', '--harness-timeout', f'{timeout}s']
    if hooks: cmd += ['--features', 'hooks']
    for n in names: cmd += ['--harness', n]
    rc, out = sh(cmd, 840 if not THOROUGH else 3000, env=hookflags(hooks))
    parse_kani(out, res)
    return res, out

def parse_kani(out, res):
    cur = {}
    th = None
    for line in out.splitlines():
        m = re.match(r'Thread (\d+): ?(.*)$', line)
        if m:
            th = m.group(1); line = m.group(2)
        m = re.match(r'Checking harness (\S+?)\.\.\.', line)
        if m:
            cur[th] = m.group(1).split('::')[-1]; continue
        n = cur.get(th)
        if n not in res: continue
        r = res[n]
        m = re.search(r'\*\* (\d+) of (\d+) failed', line)
        if m: r['checks'] = int(m.group(2)); continue
        m = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', line)
        if m: r['covers'] = (int(m.group(1)), int(m.group(2))); continue
        m = re.match(r'Failed Checks: (.*)', line)
        if m: r['failed'].append(m.group(1)); continue
        m = re.match(r'VERIFICATION:- (\S+)', line)
        if m: r['status'] = 'ok' if m.group(1) == 'SUCCESSFUL' else 'failed'; continue
        m = re.match(r'Verification Time: ([\d.]+)s', line)
        if m: r['seconds'] = float(m.group(1)); continue
        if 'timed out' in line or 'TIMEOUT' in line: r['status'] = 'timeout'
    for r in res.values():
        if r['status'] == 'failed':
            real = [f for f in r['failed'] if not UNDECIDED.search(f)]
            # a failing unwinding assertion or unsupported construct leaves the rest undetermined
            if not real: r['status'] = 'undecided'
            r['failed'] = real or r['failed']

def kani_playback(name, hooks):
    cmd = ['cargo', 'kani', '--manifest-path', os.path.join(HX, 'Cargo.toml'), '--target-dir', os.path.join(HX, 'target', 'kani'),
           '-Z', 'concrete-playback', '--concrete-playback=print', '--harness', name]
    if hooks: cmd += ['--features', 'hooks']
    rc, out = sh(cmd, 300, env=hookflags(hooks))
    cex = []
    for blk in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
        cex.append([[int(x) for x in v.split(',') if x.strip()] for v in re.findall(r'vec!\[([^\]]*)\]', blk)])
    return cex, out

# ------------------------------------------------------------------ native
def replay_file(pid, name, vals, head):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, f'{pid}-{name}.txt')
    with open(p, 'w') as f:
        for h in head:
            for l in str(h).split('\n'): f.write('# ' + l + '\n')
        for v in vals: f.write(' '.join(map(str, v)) + '\n')
    return p

def native_replay(hx, name, path):
    rc, out = sh([hx, 'replay', name, path], 60)
    if rc == 0:
        try: j = json.loads(out.strip().splitlines()[-1])
        except Exception: return False, out
        return j['result'] == 'failed', j.get('message', j['result'])
    return True, ('hang' if rc is None else f'the process died (exit {rc})') + ' ' + out[-500:]

def native_search(hx, name, iters, millis):
    prog = os.path.join(WORK, f'{name}.prog')
    rc, out = sh([hx, 'search', name, str(SEED), str(iters), str(millis), prog], millis / 1000 + 60)
    if rc == 0:
        try: return json.loads(out.strip().splitlines()[-1])
        except Exception: return {'result': 'error', 'message': out[-800:]}
    it = int.from_bytes(open(prog, 'rb').read(8), 'little') if os.path.exists(prog) else 0
    # confirm the crash/hang on its own
    rc2, out2 = sh([hx, 'one', name, str(SEED), str(it)], 60)
    if rc2 == 0:
        try: j = json.loads(out2.strip().splitlines()[-1])
        except Exception: j = {}
        if j.get('result') == 'failed': return dict(j, iter=it)
        return {'result': 'error', 'message': f'search ended with {rc} at iteration {it}, which passes alone: ' + out[-300:]}
    return {'result': 'crash', 'iter': it, 'message': ('hang' if rc2 is None else f'the process died with exit {rc2}') + ': ' + out2[-600:]}

# ------------------------------------------------------------------ known findings
def known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                j = json.loads(l)
                if j['property'] == pid: r.append(j)
    return r

def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    notes, violations = [], []

    hooks = True
    ok, out, hx = build_native(True)
    if not ok:
        ok2, out2, hx = build_native(False)
        if not ok2:
            print(out2[-6000:])
            print(f'check {pid}: the harness crate does not build against /repo')
            sys.exit(2)
        hooks = False
        notes.append('built without the knaster_verif hooks (the hooked build failed): harnesses that need private items did not run')
    rc, lst = sh([hx, 'list'], 60)
    allh = json.loads(lst)
    mine = [h for h in allh if h['name'].startswith(P['prefix'])]
    kani_names = [h['name'] for h in mine if h['kind'] in ('complete', 'bounded')]
    slow = P.get('thorough_only', [])
    if not THOROUGH: kani_names = [n for n in kani_names if n not in slow]
    kinds = {h['name']: h for h in mine}

    with cf.ThreadPoolExecutor(16) as ex:
        fv = ex.submit(run_verus, P.get('verus', []))
        fk = ex.submit(run_kani, kani_names, hooks, 1500 if THOROUGH else P.get('kani_timeout', 200))
        nat = {}
        k = 20 if THOROUGH else 1
        with cf.ThreadPoolExecutor(6) as ex2:
            futs = {}
            for h in mine:
                ms = (P.get('native_ms', 12000) if h['kind'] == 'native' else 1500) * k
                futs[h['name']] = ex2.submit(native_search, hx, h['name'], 10**9 if h['kind'] == 'native' else 200000 * k, ms)
            for n, f in futs.items(): nat[n] = f.result()
        verus = fv.result()
        kani, kout = fk.result()

    # native failures are concrete failing inputs
    failed_native = set()
    for n, r in nat.items():
        if r['result'] in ('failed', 'crash'):
            failed_native.add(n)
            if r['result'] == 'failed':
                p = replay_file(pid, n, r['vals'], [f'property {pid}, obligation {n}', f'replay: hx replay {n} <this file>', r['message'], 'values: ' + ' '.join(r['text'])])
            else:
                p = replay_file(pid, n, [], [f'property {pid}, obligation {n}', f"replay: hx one {n} {SEED} {r['iter']}", r['message']])
            violations.append({'obligation': n, 'replay': p, 'found': True, 'message': r['message']})
        elif r['result'] == 'error':
            notes.append(f"native search of {n}: {r['message']}")
    # kani
    for n, r in kani.items():
        if r['status'] == 'failed' and n not in failed_native:
            cex, pout = kani_playback(n, hooks)
            done = False
            for vals in cex:
                p = replay_file(pid, n, vals, [f'property {pid}, obligation {n}', f'replay: hx replay {n} <this file>'] + r['failed'])
                bad, msg = native_replay(hx, n, p)
                if bad:
                    violations.append({'obligation': n, 'replay': p, 'found': True, 'message': msg}); done = True; break
            if not done:
                p = replay_file(pid, n, [], [f'property {pid}, obligation {n}: refuted by the verifier, no failing input replayed natively'] + r['failed'] + [pout[-6000:]])
                violations.append({'obligation': n, 'replay': p, 'found': False, 'message': '; '.join(r['failed'])})
        elif r['status'] in ('undecided', 'timeout', 'missing'):
            notes.append(f"kani {n}: {r['status']} {r['failed'][:3]}")
        elif r['status'] == 'ok' and r['covers'] and r['covers'][0] < r['covers'][1]:
            notes.append(f"kani {n}: only {r['covers'][0]} of {r['covers'][1]} cover goals reachable")
    # verus
    for r in verus:
        # functions of the template which this property does not depend on
        other = P.get('verus_not', {}).get(r['template'])
        if r['status'] == 'failed' and other and r['failed'] and all(re.search(other, f) for f in r['failed']):
            notes.append(f"verus {r['template']}: {', '.join(r['failed'])} failed; other properties depend on these")
        elif r['status'] == 'failed':
            if violations:
                continue  # the failing input is already reported
            p = replay_file(pid, r['template'].replace('.vrs', ''), [], [f"property {pid}: obligations of {r['template']} no longer discharged: {', '.join(r['failed'])}", r['output'][:8000]])
            violations.append({'obligation': ','.join(r['failed']), 'replay': p, 'found': False, 'message': 'verus: ' + ', '.join(r['failed'])})
        elif r['status'] in ('lost', 'tool'):
            notes.append(f"verus {r['template']}: unbounded proof not re-established ({r['status']}): {r['output'][-1500:]}")

    # known findings: identified by obligation and message pattern
    kf = known(pid)
    real = []
    seen = []
    for v in violations:
        hit = next((k for k in kf if k.get('obligation') == v['obligation'] and re.search(k['message'], v['message'])), None)
        (seen.append((hit, v)) if hit else real.append(v))

    vac = []
    if kani_names and kani and not any(r['checks'] for r in kani.values()): vac.append('kani generated no checks')
    obligations = sum(r['checks'] for n, r in kani.items() if kinds[n]['kind'] == 'complete' and r['status'] in ('ok', 'failed')) + sum(r['obligations'] for r in verus)
    discharged = sum(r['checks'] for n, r in kani.items() if kinds[n]['kind'] == 'complete' and r['status'] == 'ok') + sum(r['discharged'] for r in verus)
    wall = round(time.time() - t0, 1)
    cov = {
        'explanation': P['explanation'],
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': f'python3 /verif/check.py {pid}',
        'trusted_base': P.get('trusted', []) + sorted({a for r in verus for a in r.get('assumptions', [])}) + COMMON_TRUST,
        'verus': [{k: r.get(k) for k in ('template', 'status', 'obligations', 'discharged', 'failed', 'functions', 'seconds', 'solver_ms')} for r in verus],
        'kani': [{'harness': n, 'kind': kinds[n]['kind'], 'bound': kinds[n]['bound'], 'status': r['status'], 'checks': r['checks'], 'covers': r['covers'], 'solver_s': r['seconds']} for n, r in kani.items()],
        'native': [{'harness': n, 'kind': kinds[n]['kind'], 'bound': kinds[n]['bound'], **{k: r.get(k) for k in ('result', 'iters', 'passed', 'discarded', 'distinct', 'reached', 'sample')}} for n, r in nat.items()],
        'evaluations': sum(r.get('iters', 0) or 0 for r in nat.values()),
        'distinct_nontrivial': sum(r.get('distinct', 0) or 0 for r in nat.values()),
        'rule': 'pseudo-random executions of the contracts on the real code; distinct by the drawn values, those whose precondition is not met are discarded',
        'samples': [f"{n}: {r.get('sample')}" for n, r in nat.items() if r.get('sample')][:5],
        'notes': notes,
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': P['level'], 'coverage': cov, 'assumptions': P.get('assumptions', []),
          'wall_s': wall, 'violations': len(real)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)

    for n in notes: print('note:', n[:600])
    for k, v in seen: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for v in real:
        print(f"obligation {v['obligation']}: {v['message'][:800]}")
        print(f"VIOLATION property={pid} replay={v['replay']}" + ('' if v['found'] else ' no-failing-input-found'))
    if real: sys.exit(1)
    if vac:
        print('vacuous:', vac); sys.exit(2)
    # nothing at all decided?
    if not discharged and not any(r['status'] == 'ok' for r in kani.values()) and not any(r['result'] == 'ok' and r.get('passed') for r in nat.values()):
        print('nothing was decided'); sys.exit(2)
    print(f'{pid}: held; {discharged}/{obligations} obligations discharged, {sum(1 for r in kani.values() if r["status"]=="ok")}/{len(kani)} kani harnesses, {cov["evaluations"]} native evaluations, {wall}s')

COMMON_TRUST = ['Verus/Z3, Kani/CBMC, rustc', 'verus/extract.py copies the function text (rewrites listed per function)']
main()

#!/usr/bin/env python3
"""check.py CID  -- decides one property of /repo's working tree.

 1. vx extracts the functions the property depends on from /repo and merges them with the
    contracts in units/ (deciding text = the code that runs, see DESIGN.md);
 2. Verus has to discharge every obligation (the deciding step);
 3. the same text with reachability probes has to FAIL at every probe (no vacuous contract);
 4. the executable form of the contracts runs against the real code: it validates what the
    proof assumes of the outside world and supplies the failing input for a broken property.
"""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
VX = f'{V}/target/vx/debug/vx'
ORACLE = f'{V}/target/h/debug/oracle'
T0 = time.time()
CFG = json.load(open(f'{V}/checks.json'))
PROOF_BY = 640      # seconds after the start: no verifier run begins or goes on past this (a check has 900 s)


def left(most):
    return max(1.0, min(most, PROOF_BY - (time.time() - T0)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def env(**kw):
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(kw)
    return e


class Lock:
    def __init__(self, n):
        os.makedirs(f'{V}/target', exist_ok=True)
        self.p = f'{V}/target/.lock-{n}'

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_vx():
    with Lock('vx'):
        r = sh(['cargo', 'build', '--offline', '-q'], cwd=f'{V}/vx', env=env(CARGO_TARGET_DIR=f'{V}/target/vx'))
    if r.returncode != 0:
        print(r.stderr, file=sys.stderr)
        sys.exit(2)


def build_oracle():
    """None if it built, else the compiler's output"""
    with Lock('h'):
        r = sh(['cargo', 'build', '--offline', '-q'], cwd=f'{V}/harness', env=env(CARGO_TARGET_DIR=f'{V}/target/h'))
        if r.returncode != 0:
            return r.stderr
    return None


# ------------------------------------------------------------------ verifier

VERIF_ERR = re.compile(
    r'(postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied|invariant not satisfied|'
    r'possible arithmetic|possible division|decreases not satisfied|could not prove termination|recursive call|possible bit shift|'
    r'index out of bounds|bounds|unreachable|loop must have|cannot show invariant|constructed value may fail|may panic|'
    r'cannot prove|might not|not satisfied|failed)', re.I)
RLIMIT = re.compile(r'(resource limit|rlimit|while loop: Resource|timed out)', re.I)


def parse_errors(stderr):
    out = []
    for blk in re.split(r'\n(?=error)', '\n' + stderr):
        m = re.match(r'\n?error(\[[^\]]*\])?: (.*)', blk)
        if not m or 'aborting due to' in m.group(2):
            continue
        loc = re.search(r'--> [^:\n]*:(\d+):', blk)
        out.append({'code': m.group(1), 'msg': m.group(2), 'line': int(loc.group(1)) if loc else 0, 'text': blk.strip()[:1800]})
    return out


def fn_at(rs, line):
    """name of the function around a line of the generated text"""
    ls = open(rs).read().split('\n')
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = re.match(r'\s*(?:#\[[^\]]*\]\s*)*(?:pub |broadcast |open |closed |proof |spec |axiom |uninterp )*fn\s+(\w+)', ls[i])
        if m:
            return m.group(1)
    return '?'


def run_verus(rs, rlimit, extra=()):
    cmd = ['verus', rs, '--output-json', '--time-expanded', '--triggers-mode', 'silent', '--multiple-errors', '4',
           '--rlimit', str(rlimit), '--num-threads', '4', *extra]
    t = time.time()
    try:
        r = sh(cmd, timeout=left(420), cwd=os.path.dirname(rs))
    except subprocess.TimeoutExpired:
        return {'kind': 'undecided', 'why': 'verifier timed out', 'cmd': ' '.join(cmd), 'errors': [], 'wall': time.time() - t}
    wall = time.time() - t
    errs = parse_errors(r.stderr)
    res = {'cmd': ' '.join(cmd), 'wall': round(wall, 2), 'stderr': r.stderr, 'errors': errs}
    try:
        j = json.loads(r.stdout)
    except Exception:
        res.update(kind='undecided', why='verifier gave no result: ' + (errs[0]['msg'] if errs else r.stderr[-300:]))
        return res
    vr = j.get('verification-results', {})
    res['verified'] = vr.get('verified', 0)
    res['failed'] = vr.get('errors', 0)
    tm = j.get('times-ms', {})
    res['smt_ms'] = tm.get('smt', {}).get('total', 0)
    fb = []
    for m in tm.get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            fb.append((f['function'].split('::', 1)[-1], f.get('mode:'), f['time'], f['success']))
    res['functions'] = fb
    if vr.get('success') and not vr.get('encountered-vir-error') and r.returncode == 0:
        res['kind'] = 'ok'
    elif vr.get('encountered-vir-error') or (vr.get('errors', 0) == 0):
        res['kind'] = 'undecided'
        res['why'] = 'outside the verifier\'s subset: ' + (errs[0]['msg'] if errs else r.stderr[-300:])
    else:
        real = [e for e in errs if not RLIMIT.search(e['msg'])]
        for e in errs:
            e['fn'] = fn_at(rs, e['line'])
        if not real:
            res['kind'] = 'undecided'
            res['why'] = 'solver resource limit reached'
        else:
            res['kind'] = 'failed'
    return res


def extract(unit, out, *args):
    r = sh([VX, f'{V}/units/{unit}.vx', out, out[:-3] + '.json', '--repo', REPO, *args])
    if r.returncode != 0:
        return None, (r.stderr.strip() or f'extractor exit {r.returncode}')
    return json.load(open(out[:-3] + '.json')), None


def trusted_of(rs):
    """assumptions, read mechanically from the verified text"""
    t = open(rs).read()
    out = []
    for m in re.finditer(r'axiom fn (\w+)', t):
        out.append(f'axiom {m.group(1)}')
    for m in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]+?)\s*\]', t):
        out.append(f'assumed contract of {m.group(1)}')
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub )?(fn|struct|proof fn)\s+(\w+)', t):
        out.append(('assumed contract of ' if m.group(1) != 'struct' else 'opaque type ') + m.group(2))
    for m in re.finditer(r'\b(assume|admit)\s*\(', t):
        out.append(m.group(1))
    for m in re.finditer(r'#\[verifier::external_type_specification\]', t):
        out.append('external type specification')
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def prove_unit(unit, work, res, tier):
    rs = f'{work}/{unit}.rs'
    meta, lost = extract(unit, rs)
    r = {'unit': unit}
    res[unit] = r
    if lost:
        r.update(kind='undecided', why=lost, meta=None, verified=0, failed=0)
        return
    r['meta'] = meta
    can = {}

    def canary():
        crs = f'{work}/{unit}_canary.rs'
        m, l = extract(unit, crs, '--canary')
        if not m:
            return
        lines = open(crs).read().split('\n')
        want = {i + 1 for i, x in enumerate(lines) if 'if vx_canary(' in x}
        cmd = ['verus', crs, '--output-json', '--triggers-mode', 'silent', '--multiple-errors', '40', '--rlimit', '20', '--num-threads', '3',
               '--no-auto-recommends-check']
        try:
            q = sh(cmd, timeout=left(400), cwd=work)
        except subprocess.TimeoutExpired:
            can.update(probes=len(want), reached=None)
            return
        got = {e['line'] for e in parse_errors(q.stderr)}
        hit = {w for w in want if any(w <= g <= w + 2 for g in got)}
        can.update(probes=len(want), reached=len(hit), unreached=[lines[w - 1].strip() + ' in ' + fn_at(crs, w) for w in sorted(want - hit)])

    th = threading.Thread(target=canary)
    th.start()
    v = run_verus(rs, CFG.get('rlimit', {}).get(unit, 20))
    if v['kind'] != 'ok':
        # more resources, other solver seed; local variables may have been renamed
        v2 = v if left(30) < 30 else run_verus(rs, 60, ('--smt-option', 'smt.random_seed=7'))
        if v2['kind'] == 'ok' or v['kind'] == 'undecided':
            v = v2
    if v['kind'] != 'ok' and meta['warnings']:
        for roles in role_guesses(meta):
            if left(30) < 30:
                extract(unit, rs)
                break
            m2, l2 = extract(unit, rs, *roles)
            if m2:
                v2 = run_verus(rs, 30)
                if v2['kind'] == 'ok':
                    v, r['meta'] = v2, m2
                    r['roles'] = roles
                    break
        else:
            extract(unit, rs)
    th.join()
    r.update(v)
    r['canary'] = can
    if r['kind'] == 'failed' and meta['warnings']:
        r['kind'] = 'undecided'
        r['why'] = 'contract places not found in the changed code: ' + '; '.join(meta['warnings'])
    r['trusted'] = trusted_of(rs)
    r['text'] = rs


def role_guesses(meta):
    """renamed locals: try the assignments of missing names to unclaimed locals"""
    miss = []
    for w in meta['warnings']:
        m = re.match(r'role (\S+)\.(\S+) missing; locals: (.*)', w)
        if m:
            miss.append((m.group(1), m.group(2), m.group(3).split()))
    if not miss or len(miss) > 3:
        return
    import itertools
    n = 0
    for pick in itertools.product(*[c for _, _, c in miss]):
        n += 1
        if n > 24:
            return
        a = []
        for (f, x, _), y in zip(miss, pick):
            a += ['--role', f'{f}.{x}={y}']
        yield a


# ------------------------------------------------------------------ executable contracts

def dictionary(work):
    """literals the tree has beyond the committed baseline (units/literals.json): steers the search for
    failing inputs, empty on the unchanged tree, decides nothing"""
    p = f'{work}/dict.json'
    try:
        now = json.loads(sh([VX, '--dict', REPO]).stdout)
        base = json.load(open(f'{V}/units/literals.json'))
        new = {k: [x for x, n in now[k].items() if n > base[k].get(x, 0)] for k in ('strs', 'ints')}
        new['ints'] = [int(x) for x in new['ints'] if int(x) > 1]
        new['strs'] = [x for x in new['strs'] if len(x) <= 300][:200]
        json.dump(new, open(p, 'w'))
    except Exception:
        return []
    return ['--dict', p]


def run_oracle(cid, work, tier, seed, out, longer=False):
    dic = dictionary(work)
    c = CFG['checks'][cid].get('oracle', {})
    shards = 8 if longer else c.get('shards', 1)
    millis = 90000 if longer else c.get('millis', 6000) * (20 if tier == 'thorough' else 1)
    tmp = f'{work}/tmp'
    os.makedirs(tmp, exist_ok=True)

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    ps = []
    for k in range(shards):
        o, cur = f'{work}/oracle{k}.json', f'{work}/cur{k}.txt'
        cmd = [ORACLE, cid, o, cur, '--seed', str(seed + 1000 * k), '--tier', tier, '--millis', str(millis), '--shard', f'{k}/{shards}'] + dic
        p = subprocess.Popen(cmd, cwd=REPO, stdout=subprocess.DEVNULL, stderr=open(f'{work}/oracle{k}.err', 'w'), env=env(TMPDIR=tmp), preexec_fn=lim)
        ps.append((p, o, cur, cmd))
    last = {}
    while any(p.poll() is None for p, *_ in ps):
        time.sleep(0.2)
        for p, o, cur, cmd in ps:
            if p.poll() is None:
                try:
                    st = os.stat(cur)
                    key = (st.st_mtime_ns, st.st_size)
                except OSError:
                    key = None
                if last.get(o, (None, 0))[0] != key:
                    last[o] = (key, time.time())
                elif time.time() - last[o][1] > 60:
                    p.kill()
                    p.wait()
                    last[o] = ('hang', 0)
    tot = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'rule': '', 'enumerated': ''}
    for p, o, cur, cmd in ps:
        rc = p.returncode
        def case():
            try:
                return open(cur, errors='replace').read()
            except OSError:
                return ''
        if rc == 0 or rc == 1:
            try:
                j = json.load(open(o))
            except Exception:
                out['error'] = 'no result file'
                continue
            tot['evaluations'] += j['evaluations']
            tot['distinct_nontrivial'] += j['distinct_nontrivial']
            if rc == 1:
                out.setdefault('fail', {'input': j['input'], 'difference': j['difference'], 'cmd': ' '.join(cmd)})
            else:
                tot['samples'] += j['samples'][:3]
                tot['rule'] = j['rule']
                tot['enumerated'] = j['enumerated']
        elif last.get(o, (None,))[0] == 'hang':
            out.setdefault('fail', {'input': case(), 'difference': 'does not return (no result within 60 s)', 'cmd': ' '.join(cmd)})
        elif rc < 0 and case():
            out.setdefault('fail', {'input': case(), 'difference': f'the process was ended by signal {-rc} (stack or memory exhausted, or abort) in this case', 'cmd': ' '.join(cmd)})
        else:
            out['error'] = f'oracle exit {rc}'
    tot['samples'] = tot['samples'][:6]
    out['tot'] = tot


def main():
    cid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    c = CFG['checks'][cid]
    work = f'{V}/work/{cid}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    os.makedirs(f'{V}/replay', exist_ok=True)

    ora = {}

    build_vx()

    def oracle_thread():
        e = build_oracle()
        if e is not None:
            ora['error'] = 'the executable contracts do not build against this tree: ' + e[-1500:]
            return
        try:
            run_oracle(cid, work, tier, seed, ora)
        except Exception as ex:  # never let the replay side decide by accident
            ora['error'] = f'oracle run: {ex!r}'

    ot = threading.Thread(target=oracle_thread)
    ot.start()
    res = {}
    for u in c['units']:
        prove_unit(u, work, res, tier)
    ot.join()

    units = [res[u] for u in c['units']]
    # functions whose contract is a stand-in only (oracle decides within its bound)
    obligations = sum(u.get('verified', 0) + u.get('failed', 0) for u in units)
    discharged = sum(u.get('verified', 0) for u in units)
    failed = [u for u in units if u['kind'] == 'failed']
    undec = [u for u in units if u['kind'] == 'undecided']
    vac = [x for u in units if u['kind'] == 'ok' for x in u.get('canary', {}).get('unreached', [])
           if not any(re.search(p, x) for p in c.get('dead_ok', []))]

    if (failed or undec) and not ora.get('fail') and not ora.get('error'):
        # an obligation failed: look longer for an input that shows it
        more = {}
        try:
            run_oracle(cid, work, tier, seed + 7777, more, longer=True)
        except Exception as ex:
            more['error'] = repr(ex)
        if more.get('fail'):
            ora['fail'] = more['fail']
        for k in ('evaluations', 'distinct_nontrivial'):
            ora['tot'][k] += more.get('tot', {}).get(k, 0)

    known = [l.split(' ', 2) for l in open(f'{V}/known-findings.txt') if l.startswith('known: property=' + cid + ' ')] if os.path.exists(f'{V}/known-findings.txt') else []
    lines, rc, viol = [], 0, []
    replay = f'{V}/replay/{cid}.txt'
    if os.path.exists(replay):
        os.remove(replay)
    fail = ora.get('fail')
    if fail or failed:
        with open(replay, 'w') as f:
            f.write(f'property {cid}\n')
            if fail:
                f.write(f'\nFAILING INPUT (run against the real code of /repo)\n{fail["input"]}\n\nDIFFERENCE\n{fail["difference"]}\n\nREPEAT (cwd /repo)\n{fail["cmd"]}\n')
            for u in failed:
                f.write(f'\nFAILED OBLIGATIONS of unit {u["unit"]} ({u["failed"]} of {u["verified"] + u["failed"]})\n')
                for e in u['errors']:
                    f.write(f'- in {e.get("fn")}: {e["msg"]}\n')
                f.write('\nVERIFIER OUTPUT\n' + u.get('stderr', '')[:20000] + '\n')
        if fail:
            lines.append(f'VIOLATION property={cid} replay={replay}')
            viol.append({'input': fail['input'][:2000], 'difference': fail['difference'][:2000]})
        else:
            lines.append(f'VIOLATION property={cid} replay={replay} no-failing-input-found')
        for u in failed:
            viol.append({'unit': u['unit'], 'obligations': [f'{e.get("fn")}: {e["msg"]}' for e in u['errors']]})
        rc = 1
    for k in known:
        lines.insert(0, f'KNOWN-FINDING: property={cid} {k[2].strip()}')
    if rc == 0 and undec and ora.get('error'):
        lines.append(f'NOT DECIDED: {undec[0].get("why")}; {ora["error"]}')
        rc = 2
    if rc == 0 and vac:
        lines.append('NOT PROVED (contract places never reached): ' + '; '.join(vac))

    proved = not failed and not undec and not vac
    tot = ora.get('tot', {})
    notes = sorted({n for u in units if u.get('meta') for n in u['meta']['notes']})
    trusted = []
    for u in units:
        for t in u.get('trusted', []):
            if t not in trusted:
                trusted.append(t)
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': [u.get('cmd', 'not run') for u in units][0] if len(units) == 1 else '; '.join(u.get('cmd', 'not run') for u in units),
        'back_end': 'Verus 0.2026.09.13.671956e, Z3 as shipped with it',
        'solver_ms': sum(u.get('smt_ms', 0) for u in units),
        'status': 'proved' if proved else ('violated' if rc == 1 else 'bounded'),
        'functions_under_contract': [f'{f["file"]}: {f["fn"]} ({f["loops"]} loops)' for u in units if u.get('meta') for f in u['meta']['functions']],
        'obligations_by_function': {f[0]: f'{"ok" if f[3] else "FAILED"} {f[2]} ms' for u in units for f in u.get('functions', [])},
        'reachability_probes': [dict(unit=u['unit'], **{k: v for k, v in u.get('canary', {}).items() if k != 'unreached'}) for u in units],
        'extraction_drops': notes,
        'trusted_base': ['Verus, its Rust front end and vstd; Z3; the extractor vx (rules listed under extraction_drops); rustc'] + trusted + c.get('assumes', []),
        'not_proved': [f'{u["unit"]}: {u.get("why")}' for u in undec] + [f'contract place never reached: {x}' for x in vac] + c.get('not_proved', []),
        'executable_contracts': {
            'role': 'replay: contracts run against the real code to validate the assumptions and to find failing inputs; not counted as proof',
            'evaluations': tot.get('evaluations', 0), 'distinct_nontrivial': tot.get('distinct_nontrivial', 0),
            'rule': tot.get('rule', ''), 'enumerated': tot.get('enumerated', ''), 'samples': tot.get('samples', []),
            'error': ora.get('error'),
        },
    }
    if undec:
        cov['bounded_stand_in'] = (f'some contract could not be checked on this tree; the executable contracts ran on {tot.get("evaluations", 0)} cases '
                                   f'({tot.get("enumerated", "")}; random beyond) and stand in for it: bounded, not proved')
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'proof' if proved or rc else 'exploration', 'coverage': cov,
          'wall_s': round(time.time() - T0, 1), 'violations': viol}
    if ev['level'] == 'exploration':
        cov.update(evaluations=tot.get('evaluations', 0), distinct_nontrivial=tot.get('distinct_nontrivial', 0), rule=tot.get('rule', ''), samples=tot.get('samples', []))
    json.dump(ev, open(f'{V}/evidence/{cid}.json', 'w'), indent=1)
    shutil.rmtree(f'{work}/tmp', ignore_errors=True)
    for l in lines:
        print(l)
    st = cov['status']
    print(f'{cid}: {st}; obligations {discharged}/{obligations}; solver {cov["solver_ms"]} ms; executable contracts {tot.get("evaluations", 0)} cases; {ev["wall_s"]} s')
    for u in failed + undec:
        print(f'  unit {u["unit"]}: {u["kind"]}: ' + (u.get('why') or '; '.join(f'{e.get("fn")}: {e["msg"]}' for e in u['errors']))[:600])
    if ora.get('error'):
        print('  ' + ora['error'][:600])
    sys.exit(rc)


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        build_vx()
        e = build_oracle()
        if e:
            print(e, file=sys.stderr)
            sys.exit(1)
        sys.exit(0)
    main()

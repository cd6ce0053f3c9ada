#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on /repo's current working tree:
 1. vx (extract/) re-extracts the functions under contract from /repo and emits one Verus file per proof unit;
 2. verus discharges every obligation of every unit; a second run with `assert(false)` planted behind every
    precondition must fail for every function (vacuity guard);
 3. vharness (harness/), built against /repo, replays the same contracts on the real code with generated inputs:
    it turns a failed obligation into a concrete failing input, and it is the stated, bounded stand-in for the
    glue that is not under contract (never counted as proved).
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import json, os, re, subprocess, sys, time, threading, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
WORK = os.path.join(HERE, '.work')
TGT = os.path.join(HERE, '.target')
sys.path.insert(0, HERE)
from units import PROPS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

# ------------------------------------------------------------------ extraction + verus
def build_vx():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TGT, 'extract'), CARGO_NET_OFFLINE='true')
    r = sh(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(HERE, 'extract'), env=env)
    exe = os.path.join(TGT, 'extract', 'debug', 'vx')
    if r.returncode != 0 or not os.path.exists(exe):
        return None, r.stderr
    return exe, ''

PROOF_ERR = ('postcondition not satisfied', 'unable to prove post-condition of closure', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
             'possible arithmetic underflow/overflow', 'possible division by zero', 'decreases not satisfied',
             'possible bit shift underflow/overflow', 'loop invariant not', 'unreachable', 'might panic', 'assert_by_compute',
             'ensures not satisfied', 'may be negative', 'index out of bounds', 'overflow')
UNDECIDED_ERR = ('rlimit', 'Resource limit', 'not supported', 'does not yet support', 'is not supported', 'while loop: Resource')

def parse_verus(err, report, genfile):
    """[(kind, message, functions, text)]"""
    blocks, cur = [], None
    for line in err.split('\n'):
        if re.match(r'^(error|warning|note)(\[[A-Z0-9]+\])?:', line):
            if cur: blocks.append(cur)
            cur = [line]
        elif cur is not None:
            cur.append(line)
    if cur: blocks.append(cur)
    out = []
    for b in blocks:
        if not b[0].startswith('error'): continue
        msg = re.sub(r'^error(\[[A-Z0-9]+\])?:\s*', '', b[0])
        if msg.startswith('aborting due to'): continue
        nums = []
        for l in b[1:]:
            m = re.match(r'^\s*(?:-->|:::)\s+(\S+?):(\d+):\d+', l)
            if m and os.path.basename(m.group(1)) == os.path.basename(genfile): nums.append(int(m.group(2)))
            m = re.match(r'^\s*(\d+)\s*\|', l)
            if m: nums.append(int(m.group(1)))
        fns = []
        for n in nums:
            for f in report['functions']:
                if f['out_line'] <= n <= f['out_end'] and f['fn'] not in fns: fns.append(f['fn'])
        if '[E' in b[0].split(':')[0]: kind = 'tool'
        elif any(k.lower() in msg.lower() for k in UNDECIDED_ERR): kind = 'tool'
        elif any(k in msg for k in PROOF_ERR): kind = 'proof'
        else: kind = 'tool'
        out.append(dict(kind=kind, message=msg, functions=fns, text='\n'.join(b)))
    return out

def run_unit(vx, unit, tier, res):
    """extract and verify one unit; a function the extractor or the verifier's front end cannot take is set aside
    (its contract is kept, its body is not verified on this run) and the rest of the unit is still verified"""
    u = dict(unit=unit, status='?', verified=0, errors=[], smt_ms=0, functions=[], lost=None, lost_fns={})
    res[unit] = u
    gen, rep = os.path.join(WORK, unit + '.rs'), os.path.join(WORK, unit + '.json')
    skip = []
    for attempt in range(6):
        r = sh([vx, REPO, os.path.join(HERE, 'proofs', unit + '.vrs'), gen, rep] + [x for f in skip for x in ('--skip', f)])
        if r.returncode != 0:
            u['status'], u['lost'] = 'undecided', (r.stderr or r.stdout).strip()[:2000]
            return
        report = json.load(open(rep))
        u['functions'] = report['functions']
        for f in report['functions']:
            for n in f['rewrites']:
                if n.startswith('LOST: ') and f['fn'] not in u['lost_fns']: u['lost_fns'][f['fn']] = n[6:]
        cmd = ['verus', '--output-json', '--time', '--triggers-mode', 'silent', '--multiple-errors', '20', '--num-threads', '4',
               '--rlimit', '60' if tier == 'thorough' else '40', os.path.basename(gen)]
        u['cmd'] = ' '.join(cmd)
        try:
            r = sh(cmd, cwd=WORK, timeout=600 if tier == 'thorough' else 300)
        except subprocess.TimeoutExpired:
            u['status'], u['lost'] = 'undecided', 'verus timed out'
            return
        u['stderr'] = r.stderr
        errs = parse_verus(r.stderr, report, gen)
        tool = [e for e in errs if e['kind'] == 'tool']
        blame = sorted({e['functions'][0] for e in tool if e['functions']} - set(skip) - set(u['lost_fns']))
        if tool and blame:
            for f in blame: u['lost_fns'][f] = '; '.join(e['message'] for e in tool if e['functions'] and e['functions'][0] == f)[:300]
            skip += blame
            continue
        break
    try:
        j = json.loads(r.stdout[r.stdout.index('{'):])
        vr = j.get('verification-results', {})
        u['verified'] = int(vr.get('verified', 0)); u['nerr'] = int(vr.get('errors', 0))
        t = j.get('times-ms', {})
        u['smt_ms'] = (t.get('smt') or {}).get('total', 0) or t.get('verification', {}).get('total', 0)
    except Exception as e:
        u['verified'], u['nerr'] = 0, 0
    u['errors'] = errs
    if u['lost_fns']: u['lost'] = 'not redone: ' + '; '.join('%s (%s)' % kv for kv in u['lost_fns'].items())
    if r.returncode == 0 and not errs and u['verified'] > 0: u['status'] = 'proved' if not u['lost_fns'] else 'partial'
    elif any(e['kind'] == 'tool' for e in errs) or not errs: u['status'] = 'undecided'; u['lost'] = '; '.join(e['message'] for e in errs)[:1500] or 'verus gave no verdict'
    else: u['status'] = 'failed'

def vacuity(vx, unit, res):
    """assert(false) behind every precondition must be refused in every function."""
    gen, rep = os.path.join(WORK, unit + '_vac.rs'), os.path.join(WORK, unit + '_vac.json')
    r = sh([vx, REPO, os.path.join(HERE, 'proofs', unit + '.vrs'), gen, rep, '--vacuity'])
    v = dict(checked=0, vacuous=[])
    res[unit] = v
    if r.returncode != 0: return
    report = json.load(open(rep))
    try:
        r = sh(['verus', '--triggers-mode', 'silent', '--multiple-errors', '1', '--num-threads', '4', '--rlimit', '40', os.path.basename(gen)], cwd=WORK, timeout=300)
    except subprocess.TimeoutExpired:
        return
    errs = parse_verus(r.stderr, report, gen)
    if any(e['kind'] == 'tool' and 'resource limit' not in e['message'].lower() for e in errs): return
    hit = set()
    for e in errs: hit.update(e['functions'])
    for f in report['functions']:
        if any('BODY NOT VERIFIED' in n for n in f['rewrites']): continue
        v['checked'] += 1
        if f['fn'] not in hit: v['vacuous'].append(f['fn'])

def scan_trust(unit):
    """every trusted item left in the generated text"""
    out = []
    p = os.path.join(WORK, unit + '.rs')
    if not os.path.exists(p): return out
    src = open(p).read().split('\n')
    for i, l in enumerate(src):
        if re.search(r'\bassume\s*\(|\badmit\s*\(', l): out.append('ASSUME line: ' + l.strip()[:160])
        if 'axiom fn' in l: out.append('axiom: ' + l.strip()[:200])
        if 'assume_specification' in l: out.append('assumed std contract: ' + l.strip()[:160])
        if 'external_body' in l:
            t = l + ' ' + (src[i + 1] if i + 1 < len(src) else '')
            m = re.search(r'\b(?:fn|struct)\s+(\w+)', t)
            out.append('external_body: ' + (m.group(1) if m else t.strip()[:80]))
    c = {}
    for o in out: c[o] = c.get(o, 0) + 1
    return [k + (' x%d' % n if n > 1 else '') for k, n in c.items()]

# ------------------------------------------------------------------ harness
def build_harness(out, pid):
    bin_ = 'vmono' if pid == 'P08' else 'vharness'
    t0 = time.time()
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(TGT, 'harness'))
    lock = os.path.join(HERE, 'harness', 'Cargo.lock')
    # the toolchain /repo builds with
    script = '. /opt/vp/env.sh >/dev/null 2>&1; cd %s/harness; export CARGO_TARGET_DIR=%s/harness CARGO_NET_OFFLINE=true; cargo clean -q --offline -p goko -p pointcloud -p serve_goko -p vharness >/dev/null 2>&1; cargo build --offline -q --bin %s' % (HERE, TGT, bin_)
    r = sh(['bash', '-c', script])
    exe = os.path.join(TGT, 'harness', 'debug', bin_)
    out['exe'] = exe if r.returncode == 0 and os.path.exists(exe) else None
    out['err'] = r.stderr[-4000:]
    out['build_s'] = round(time.time() - t0, 1)

def run_harness(exe, pid, tier, seed):
    wd = os.path.join(WORK, 'hz_' + pid)
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    o = os.path.join(wd, 'out.json')
    try:
        r = sh([exe, pid, tier, str(seed), o], cwd=wd, timeout=500 if tier == 'quick' else 2400)
        rc = r.returncode; tail = (r.stdout[-1500:] + r.stderr[-3000:])
    except subprocess.TimeoutExpired:
        rc, tail = 'timeout', ''
    j = None
    if os.path.exists(o):
        try: j = json.load(open(o))
        except Exception: j = None
    shutil.rmtree(wd, ignore_errors=True)
    return rc, j, tail

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfg = PROPS[pid]
    os.makedirs(WORK, exist_ok=True); os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True); os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    hb = {}
    ht = threading.Thread(target=build_harness, args=(hb, pid)); ht.start()
    vx, vxerr = build_vx()
    ures, vres = {}, {}
    if vx:
        ths = []
        for u in cfg['units']:
            ths.append(threading.Thread(target=run_unit, args=(vx, u, tier, ures)))
            ths.append(threading.Thread(target=vacuity, args=(vx, u, vres)))
        for t in ths: t.start()
        for t in ths: t.join()
    else:
        for u in cfg['units']: ures[u] = dict(unit=u, status='undecided', lost='extractor did not build: ' + vxerr[-500:], functions=[], errors=[], verified=0, smt_ms=0)
    ht.join()
    hrc, hj, htail = (None, None, hb.get('err', ''))
    if hb.get('exe'): hrc, hj, htail = run_harness(hb['exe'], pid, tier, seed)
    # ---- verdict
    def mine(e, u):
        pats = cfg['units'][u]
        if pats == '*' or not e['functions']: return True
        return any(re.fullmatch(p, f) for p in pats for f in e['functions'])
    failed = [(u, e) for u in ures for e in ures[u]['errors'] if ures[u]['status'] == 'failed' and mine(e, u)]
    def is_mine(u, f): return cfg['units'][u] == '*' or any(re.fullmatch(p, f) for p in cfg['units'][u])
    undecided = [(u, ures[u]['lost']) for u in ures if ures[u]['status'] == 'undecided' or any(is_mine(u, f) for f in ures[u].get('lost_fns', {}))]
    hfail = hj.get('failure') if hj else None
    if hb.get('exe') and hj is None:
        # the harness process died before it could report: that is the code under test aborting
        hfail = dict(what='the driver process ended abnormally (rc=%s) while exercising the property' % hrc, input=htail[-2000:]) if hrc not in (0, 'timeout') else None
    known = []
    kf = os.path.join(HERE, 'known-findings.jsonl')
    findings = [json.loads(l) for l in open(kf)] if os.path.exists(kf) else []
    for f in findings:
        if f.get('property') == pid and f.get('status') == 'known' and hj and f['key'] in (hj.get('known_hits') or []): known.append(f)
    for f in known: print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    extra = 0
    if failed and not hfail and hb.get('exe'):
        # an obligation failed but the replay found no failing input: look harder before saying so
        for sd in range(seed + 1, seed + 9):
            if time.time() - t0 > 420: break
            r2, j2, _ = run_harness(hb['exe'], pid, tier, sd)
            extra += 1
            if j2 and j2.get('failure'): hfail = j2['failure']; break
    viol = None
    if hfail:
        viol = dict(kind='failing input on the real code', harness=hfail)
    if failed:
        viol = viol or dict(kind='failed obligation')
        viol['obligations'] = [dict(unit=u, functions=e['functions'], message=e['message'], verifier_output=e['text']) for u, e in failed]
    replay = None
    if viol:
        replay = os.path.join(HERE, 'replays', '%s_%s.json' % (pid, hashlib.sha1(json.dumps(viol, sort_keys=True).encode()).hexdigest()[:10]))
        viol['property'] = pid
        viol['rerun'] = 'cd /verif && VERIF_SEED=%d python3 check.py %s --tier %s' % (seed, pid, tier)
        json.dump(viol, open(replay, 'w'), indent=1)
    # ---- evidence
    fns = []
    for u in ures.values():
        pats = cfg['units'][u['unit']]
        for f in u['functions']:
            if pats == '*' or any(re.fullmatch(p, f['fn']) for p in pats):
                fns.append(dict(function=f['fn'], at='%s:%d' % (f['file'], f['line']), rewrites=f['rewrites'], body_verified=not any('BODY NOT' in n for n in f['rewrites'])))
    obl = sum(u['verified'] + u.get('nerr', 0) for u in ures.values())
    dis = sum(u['verified'] for u in ures.values())
    trust = []
    for u in cfg['units']:
        for t in scan_trust(u):
            if t not in trust: trust.append(t)
    vac = [f for v in vres.values() for f in v['vacuous']]
    proved = bool(ures) and all(u['status'] in ('proved', 'partial') for u in ures.values()) and not undecided and not vac
    cov = dict(obligations=obl, discharged=dis, checker_cmd='; '.join(u.get('cmd', '') for u in ures.values()), trusted_base=trust + cfg.get('trusted', []),
               back_end='Verus 0.2026.09.13 / Z3', smt_ms=sum(u.get('smt_ms') or 0 for u in ures.values()),
               functions_under_contract=fns, proof_redone=proved,
               units={u['unit']: dict(status=u['status'], verified=u['verified'], reason=u['lost']) for u in ures.values()},
               vacuity=dict(functions_checked=sum(v['checked'] for v in vres.values()), vacuous=vac),
               bounded_replay=(dict(label='BOUNDED, not proved', evaluations=hj.get('evaluations'), distinct_nontrivial=hj.get('distinct'), rule=hj.get('rule'), samples=hj.get('samples')) if hj else dict(label='not run', reason=htail[-800:])))
    if hj:
        cov['evaluations'] = hj.get('evaluations', 0); cov['distinct_nontrivial'] = hj.get('distinct', 0); cov['rule'] = hj.get('rule', ''); cov['samples'] = hj.get('samples', [])
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if proved else 'exploration', coverage=cov,
              assumptions=cfg.get('assumptions', []) + COMMON_ASSUMPTIONS + ([] if proved else ['PROOF NOT REDONE on this tree: %s; only the bounded replay decided this run' % json.dumps(undecided)[:1500]]),
              wall_s=round(time.time() - t0, 1), violations=1 if viol else 0)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: proof=%s obligations=%d/%d functions=%d vacuity=%s; replay: %s cases; %.1fs' % (pid, 'redone' if proved else ('failed' if failed else 'undecided'), dis, obl, len(fns), 'ok' if not vac else vac,
          hj.get('evaluations') if hj else 'none', time.time() - t0))
    for u, why in undecided: print('  undecided unit %s: %s' % (u, (why or '')[:400]))
    if not hb.get('exe'): print('  harness did not build: ' + hb.get('err', '')[-600:])
    if viol:
        if hfail: print('  failing input: %s' % json.dumps(hfail)[:1500])
        for u, e in failed[:5]: print('  failed obligation in unit %s: %s %s' % (u, e['functions'], e['message']))
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if hfail else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)

COMMON_ASSUMPTIONS = [
    'floating point is read as exact real arithmetic (no rounding, no NaN, no overflow to infinity) in the proofs; the bounded replay runs the real f32/f64 code',
    'contracts marked external_body/axiom in trusted_base are assumed, not proved (std and smallvec collections, rayon read as sequential, the point-cloud trait where a unit is generic over it)',
    'the extraction rewrites listed per function are meaning-preserving (DESIGN.md, "Extraction")',
    'termination is not claimed where a loop carries exec_allows_no_decreases_clause',
]
main()

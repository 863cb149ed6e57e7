#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's tree.
exit 0 held / 1 VIOLATION / 2 the check could not answer."""
import os, sys, json, time, importlib.util, re, traceback
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'props'))
import driver

def load(pid):
    p = os.path.join(VERIF, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location(pid, p); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m

def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']

def matches(k, r):
    if k['key'] != r['id']: return False
    # a finding names the construct and the way it fails, so another failure of the same obligation is not covered
    return all(re.search(pat, json.dumps(r['detail'].get(f, ''))) for f, pat in k.get('match', {}).items())

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv or '-vv' in sys.argv
    t0 = time.time()
    mod = load(pid)
    results = []      # dict(id, kind, status, detail)
    units = {}
    if hasattr(mod, 'tus'):
        tus = mod.tus(tier)
        only = os.environ.get('VP_ONLY')
        if only:
            for t in tus: t.obs = [o for o in t.obs if re.search(only, o.id)]
            tus = [t for t in tus if t.obs]
        for name, res, secs in driver.run_tus(tus, seed, int(os.environ.get('VP_JOBS', '8')), 8 if tier == 'thorough' else 1):
            units[name] = round(secs, 1)
            for i, st, d in res: results.append(dict(id=i, kind='equivalence', status=st, detail=d))
    if hasattr(mod, 'analyses'):
        for r in mod.analyses(tier): results.append(r)      # dict(id, kind, status PROVED/DIFFER/UNDECIDED/BROKEN, detail)
    cnt = {}
    for r in results: cnt[r['status']] = cnt.get(r['status'], 0) + 1
    decided = [r for r in results if r['status'] in ('PROVED', 'AGREE', 'DIFFER')]
    broken = [r for r in results if r['status'] == 'BROKEN']
    bad = [r for r in results if r['status'] == 'DIFFER']
    kf = known(pid); listed = []; viol = []
    for r in bad:
        k = next((k for k in kf if matches(k, r)), None)
        (listed if k else viol).append((r, k))
    rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rd, f))
    lines = []
    for r, k in listed: lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r, k in viol:
        p = os.path.join(rd, '%s-%s.json' % (pid, re.sub(r'\W+', '_', r['id'])))
        with open(p, 'w') as f: json.dump(dict(property=pid, obligation=r['id'], **r['detail']), f, indent=1, default=repr)
        d = r['detail']
        lines.append('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(p, VERIF)))
        lines.append('  %s: %s' % (r['id'], d.get('what') or ''))
        lines.append('  %s' % str(d.get('why'))[:600])
        for s in (d.get('sites') or [])[:3]: lines.append('  at %s' % s)
        if d.get('valuation'): lines.append('  witness valuation: %s' % d['valuation'])
    level = getattr(mod, 'LEVEL', 'translation_validation')
    cov = dict(obligations=len(results), by_status=cnt, undecided=[dict(id=r['id'], why=r['detail'].get('why')) for r in results if r['status'] in ('UNDECIDED', 'BROKEN')][:40],
               rule=getattr(mod, 'RULE', ''), units=units)
    samp = []
    for r in decided[:: max(1, len(decided) // 6)][:6]:
        d = r['detail']; samp.append(dict(id=r['id'], what=d.get('what'), status=r['status'], analysed=d.get('size') or d.get('analysed'), normal_form=[str(x)[:400] for x in (d.get('impl') or [])[:3]]))
    cov['samples'] = samp
    if level == 'translation_validation':
        cov['programs'] = len(results)
        cov['disagreements_checked'] = cnt.get('AGREE', 0) + cnt.get('DIFFER', 0)
    elif level == 'proof':
        cov['discharged'] = cnt.get('PROVED', 0); cov['checker_cmd'] = 'python3 engine/check.py %s' % pid
        cov['trusted_base'] = getattr(mod, 'TRUSTED', ['clang 18 front end', 'engine/'])
    cov['explanation'] = getattr(mod, 'EXPLAIN', '') or (mod.__doc__ or '').strip() or 'see DESIGN.md'
    for k, v in getattr(mod, 'COVERAGE', {}).items(): cov[k] = v
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=getattr(mod, 'ASSUME', ['floating-point arithmetic is read as exact real arithmetic (rounding is not judged)', 'the unit is compiled with NDEBUG by clang 18; template bodies are those of /repo/src at this run']))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=repr)
    print('\n'.join(lines)) if lines else None
    print('%s: %d obligations %s, %.1f s' % (pid, len(results), cnt, time.time() - t0))
    if verbose:
        for r in results:
            if verbose and r['status'] != 'PROVED':
                d = r['detail']; print(r['status'], r['id'], d.get('why', ''), d.get('loc') or '', d.get('valuation') or '', '\n   '.join([''] + [str(x) for x in (d.get('sites') or [])]))
                if r['status'] in ('AGREE', 'DIFFER') and '-vv' in sys.argv:
                    print('   IMPL', r['detail'].get('iret')); [print('     ', x) for x in d.get('impl') or []]
                    print('   SPEC', r['detail'].get('sret')); [print('     ', x) for x in d.get('spec') or []]
                if d.get('tb'): print(d['tb'])
    if viol: return 1
    if broken:
        for r in broken[:3]: print('BROKEN %s: %s' % (r['id'], r['detail'].get('why')), file=sys.stderr)
    need = getattr(mod, 'MIN', max(1, int(len(results) * 0.6)))
    if len(decided) < need:
        print('%s: no answer: %d broken, %d decided (at least %d expected)' % (pid, len(broken), len(decided), need), file=sys.stderr)
        return 2
    return 0

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc) if False else sys.exit(rc)

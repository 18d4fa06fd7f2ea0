#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only REGEX] [-v]

Static check of one property: every witness TU of the property is compiled to LLVM IR against /repo's current headers,
each obligation (implementation expression vs. specification expression) is decided on the abstract summaries.
"""
import argparse
import glob
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import driver  # noqa: E402
import structural  # noqa: E402

ASSUME = [
    'integers are mathematical integers and floating point is exact rational arithmetic (no overflow, no rounding)',
    'clang 18 front end and -O2 middle end translate the headers correctly',
    'pointers handed to distinct witness parameters do not alias',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--tu')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--debug', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    opts = {'seed': seed, 'samples': 300 if tier == 'quick' else 3000, 'debug': a.debug, 'timeout': 240 if tier == 'quick' else 1500}
    pats = ['witness/%s*.cpp' % a.prop] + (['witness/thorough/%s*.cpp' % a.prop] if tier == 'thorough' else [])
    tus = sorted(x for p in pats for x in glob.glob(os.path.join(VERIF, p)))
    if a.tu:
        tus = [t for t in tus if __import__('re').search(a.tu, os.path.basename(t))]
    res, fails = driver.analyse(tus, a.prop + '_', opts, a.only) if tus else ([], [])
    st = structural.run(a.prop, a.only, a.v) if not a.only or a.only.startswith('S') else []
    res += st
    known = {}
    kf = os.path.join(VERIF, 'findings', 'known-findings.json')
    if os.path.exists(kf):
        for f in json.load(open(kf))['findings']:
            if f.get('status') == 'known' and f['property'] == a.prop:
                known[f['obligation']] = f
    bad = []
    for r in res:
        if r['status'] == 'refuted':
            k = known.get(r['name'])
            if k and (not k.get('match') or k['match'] in r['detail']):
                print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, r['name'], k['what']))
                r['status'] = 'known-finding'
            else:
                bad.append(r)
    cnt = {}
    for r in res:
        cnt[r['status']] = cnt.get(r['status'], 0) + 1
    if a.v or a.only:
        for r in res:
            print('%-10s %-44s %6.2fs %s' % (r['status'], r['name'], r.get('wall', 0), r.get('detail', '')[:300]))
            if r['status'] == 'agree' and a.only:
                print('     impl', (r.get('impl') or '')[:700], '\n     spec', (r.get('spec') or '')[:700])
            if r['status'] == 'refuted':
                print('     at', r.get('where'), '\n     point', dict(list((r.get('cex') or {}).items())[:14]))
                if a.v:
                    print('     impl', (r.get('impl') or '')[:700], '\n     spec', (r.get('spec') or '')[:700])
    for src, err in fails:
        print('note: witness %s does not compile against the current tree; its obligations are undecided' % os.path.basename(src))
        print('\n'.join(err.strip().split('\n')[:12 if a.v else 4]))
    fns = sorted({f for r in res for f in r.get('functions', [])})
    decided = [r for r in res if r['status'] in ('proved', 'agree', 'refuted', 'known-finding')]
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Closed-form summaries of the compiled (LLVM IR) code of the listed functions, obtained by gated-SSA abstract interpretation for all inputs at once, '
                           'compared with the specification summaries; plus structural rules over the syntax tree. obligations = proved (identical normal form) + agree '
                           '(different normal form, no difference at sampled points of the two closed forms) + undecided.',
            'obligations': len(res), 'discharged': cnt.get('proved', 0) + cnt.get('agree', 0), 'proved': cnt.get('proved', 0), 'agree': cnt.get('agree', 0),
            'undecided': [{'name': r['name'], 'why': r.get('detail', '')} for r in res if r['status'] == 'undecided'],
            'witness_units': [os.path.basename(t) for t in tus], 'witness_units_not_compiling': [os.path.basename(s) for s, _ in fails],
            'ir_instructions_summarised': sum(r.get('instrs', 0) for r in res), 'outputs_compared': sum(r.get('outputs', 0) or 0 for r in res),
            'functions_analysed': len(fns), 'functions': fns[:400],
            'samples': [{'name': r['name'], 'status': r['status'], 'rule': r.get('rule', 'impl summary == spec summary'), 'detail': r.get('detail', '')} for r in res[:400]],
        },
        'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only and not a.tu:
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d obligations, %s, %d samurai functions analysed, %.1fs' % (a.prop, len(res), ', '.join('%s %d' % kv for kv in sorted(cnt.items())), len(fns), time.time() - t0))
    if bad:
        rp = os.path.join(VERIF, 'evidence', a.prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(bad, f, indent=1)
        for r in bad:
            print('violation: %s at %s: %s' % (r['name'], ', '.join(x for x in (r.get('where') or []) if x) or (r.get('functions') or ['?'])[0], r['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    if not decided:
        print('analysis-broken: no obligation of %s could be decided' % a.prop)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Decide one property:  check.py <property> [quick|thorough]"""
import concurrent.futures
import fcntl
import json
import os
import re
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kani
import native
import scratch
import verusrun
from props import PROPS, TRUSTED

QUICK_LIMIT = 840


def known():
    """Entries of KNOWN_FINDINGS: 'known: property=<id> key=<substring of the failure> <text>'."""
    r = []
    p = os.path.join(scratch.VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known: '):
                w = ln.split(' ', 3)
                r.append((w[1].split('=')[1], w[2].split('=', 1)[1], w[3].strip()))
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = PROPS[prop]
    work = os.path.join(scratch.WORK, prop)
    os.makedirs(work, exist_ok=True)
    lock = open(os.path.join(work, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    evdir = os.path.join(scratch.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    limit = QUICK_LIMIT if tier == 'quick' else 4 * 3600
    notes = []
    log = []

    hs = [scratch.Harness(n) for n in P.get('contracts', [])]
    crate = os.path.join(work, 'crate')
    build_ok = True
    try:
        while True:
            reg = scratch.make(crate, hs, tier)
            if not hs:
                break
            b, out = native.build(crate, os.path.join(work, 'target-native'), log)
            bad = native.culprits(out, hs) if b is None else set()
            if not bad:
                break
            # a harness that names something the current source no longer has is left out; the others decide
            for h in hs:
                if h.name in bad:
                    notes.append(f'harness {h.name} does not fit the current source and was left out: ' + '; '.join(re.findall(r'error.*', out)[:3]))
            hs = [h for h in hs if h.name not in bad]
        native_bin = b if hs else None
        native_out = out if hs else ''
    except (FileNotFoundError, StopIteration) as e:
        build_ok = False
        notes.append(f'harness modules could not be placed: {e}')

    khs = []
    for h in hs:
        for fn, o in h.kani:
            if o.get('tier') == 'thorough' and tier == 'quick':
                continue
            khs.append((h, fn, o))

    def do_verus():
        return [verusrun.run_unit(u, os.path.join(work, 'verus'), 400) for u in P.get('verus', [])]

    def do_native():
        if not build_ok or not any(h.native or h.kani for h in hs):
            return None
        if native_bin is None:
            return ('nobuild', native_out, None)
        names = [f'{h.name}::{fn}' for h in hs for fn, o in h.native]
        recs, rc, out = native.run_many(native_bin, seed, 600 if tier == 'quick' else 3 * 3600, names)
        return (rc, recs, native_bin, out)

    def do_kani():
        if not build_ok or not khs:
            return None
        # compile in a copy: cargo writes to the crate directory's lock file
        kc = os.path.join(work, 'crate-kani')
        if os.path.isdir(kc):
            shutil.rmtree(kc)
        shutil.copytree(crate, kc)
        return kani.run_all(kc, os.path.join(work, 'target-kani'), [(h.name, fn, o) for h, fn, o in khs],
                            (700 if tier == 'quick' else 3 * 3600),
                            per_harness=(P.get('kani_timeout', 300) if tier == 'quick' else 3600)) + (kc,)

    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fv, fn_, fk = ex.submit(do_verus), ex.submit(do_native), ex.submit(do_kani)
        rv, rn, rk = fv.result(), fn_.result(), fk.result()

    violations = []   # (key, text, concrete)
    # ---- native
    evals = distinct = 0
    samples = []
    bounded = []
    if rn is not None and rn[0] == 'nobuild':
        notes.append('the contract harnesses do not compile against the current source; nothing was executed natively: ' + rn[1][-1500:])
    elif rn is not None:
        rc, recs, binary, out = rn
        for r in recs:
            if r['vx'] == 'stat':
                evals += r['evaluations']
                distinct += r['nontrivial']
                samples += [f"{r['check']}: {s}" for s in r['samples'][:2]]
                bounded.append({k: r[k] for k in ('check', 'evaluations', 'nontrivial', 'skipped', 'secs')})
            elif r['vx'] == 'fail':
                violations.append((f"{r['check']}: {r['input']}: {r['why']}",
                                   f"contract {r['check']} fails on the real code\ninput: {r['input']}\nresult: {r['why']}\n", True))
        if rc not in (0, 3) and not any(r['vx'] == 'fail' for r in recs):
            if rc == 'timeout':
                notes.append('bounded execution hit its time limit')
            else:
                violations.append((f'native run crashed ({rc})', f'bounded execution of the contracts crashed with status {rc}:\n{out[-3000:]}', True))
    # ---- kani
    kani_ev = []
    kchecks = kok = 0
    if rk is not None:
        res, out, secs, cmd, kc = rk
        compiled = any(r['status'] != 'unknown' for r in res.values())
        if not compiled:
            notes.append('Kani did not get to any harness (compilation failed or time ran out): ' + out[-1500:])
        for h, fn, o in khs:
            r = res[fn]
            ent = {'harness': f'{h.name}::{fn}', 'status': r['status'], 'checks': r.get('checks', 0), 'secs': r.get('secs', 0),
                   'stands_for': o.get('note', ''), 'bounded': o.get('bounded', '')}
            if r['status'] == 'failed' and any(v[2] for v in violations):
                ent['status'] = 'failed (not examined further: a failing input was found already)'
            elif r['status'] == 'failed':
                d = kani.detail(kc, os.path.join(work, 'target-kani'), fn, 300)
                real = [c for c in d['failed_checks'] if 'unwinding assertion' not in c and 'not currently supported' not in c
                        and 'recursion unwinding' not in c]
                ent['failed_checks'] = d['failed_checks'][:10]
                if not real:
                    ent['status'] = 'undetermined'
                    notes.append(f'Kani harness {h.name}::{fn} gave no answer: {d["failed_checks"][:3]}')
                else:
                    rep = ''
                    conc = False
                    if rn is not None and rn[0] != 'nobuild' and d['playback']:
                        recs, rc, nout = native.run(rn[2], seed, 60, replay=';'.join(d['vals']), only=f'{h.name}::{fn}')
                        for q in recs:
                            if q['vx'] == 'fail':
                                conc = True
                                rep += f"replayed on the real code: input {q['input']}: {q['why']}\n"
                            elif q['vx'] == 'replay':
                                rep += f"replayed on the real code: {q['result']} (input {q['input']})\n"
                    violations.append((f'{h.name}::{fn}: {real[0]}',
                                       f'Kani: obligation failed in {h.name}::{fn}\n' + '\n'.join(real) + '\n' + rep + '\n' + d['out'][-6000:], conc))
            elif r['status'] == 'ok':
                if not o.get('bounded'):
                    kok += r.get('checks', 0)
            if not o.get('bounded'):
                kchecks += r.get('checks', 0)
            kani_ev.append(ent)
    # ---- verus
    vtot = vok = 0
    units = []
    for r in rv:
        n = len(r['functions'])
        units.append({k: r.get(k) for k in ('unit', 'status', 'why', 'verified', 'functions', 'desugarings', 'trusted', 'secs', 'smt_ms', 'changed')})
        if r['status'] == 'ok':
            vok += r['verified']
            vtot += r['verified']
        elif r['status'] == 'failed' and r['changed']:
            vtot += r['obligation_groups'] - 1
            vok += r['verified']
            e = [x for x in r['errors'] if x['kind'] == 'obligation']
            violations.append((f"verus {r['unit']}: {e[0]['function']}: {e[0]['message']}: {e[0]['clause']}",
                               f"Verus: {len(e)} obligation(s) of unit {r['unit']} failed\nchanged since the proof was recorded: {r['changed']}\n" +
                               '\n'.join(f"obligation: function {x['function']}: {x['message']}: {x['clause']}\n{x['rendered']}" for x in e) +
                               f"\ncommand: {r['cmd']}\n", False))
        else:
            vtot += max(1, n)
            notes.append(f"Verus unit {r['unit']} not decided on this tree ({r['status']}: {r.get('why') or 'failed although no verified function changed'}); the bounded stand-in alone decided it on this run")
    # ---- outcome
    kf = [k for k in known() if k[0] == prop]
    real = []
    for v in violations:
        k = next((k for k in kf if k[1] in v[0]), None)
        if k:
            print(f'KNOWN-FINDING: property={prop} {k[2]}')
        else:
            real.append(v)
    conc = [v for v in real if v[2]]
    proof_total, proof_ok = vtot + kchecks, vok + kok
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'],
        'coverage': {
            'obligations': proof_total, 'discharged': proof_ok,
            'checker_cmd': ' ; '.join([r.get('cmd', '') for r in rv if r.get('cmd')] + ([' '.join(rk[3])] if rk else [])) or 'none',
            'trusted_base': TRUSTED + P.get('trusted', []) + sorted({t for r in rv for t in r.get('trusted', [])}),
            'verus_units': units,
            'kani_harnesses': kani_ev,
            'solver_seconds': {'verus': round(sum(r['secs'] for r in rv), 1), 'kani': round(sum(e['secs'] for e in kani_ev), 1)},
            'bounded_stand_ins': bounded,
            'evaluations': evals, 'distinct_nontrivial': distinct,
            'rule': 'bounded execution of the same contracts on the real code: enumerated or seeded inputs; non-trivial = satisfies the precondition and (random harnesses) was not generated before',
            'samples': samples[:12] or ['(none: no bounded stand-in ran)'],
            'explanation': P.get('explanation', ''),
            'notes': notes,
        },
        'assumptions': P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(real),
    }
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    for n in notes:
        print('note:', n[:1200])
    print(f'{prop}: verus {vok}/{vtot}, kani {kok}/{kchecks}, bounded executions {evals}; {ev["wall_s"]} s')
    if real:
        rp = os.path.join(evdir, f'{prop}.replay.txt')
        with open(rp, 'w') as f:
            for v in conc + [v for v in real if not v[2]]:
                f.write(v[1] + '\n----\n')
        print(('failing input: ' if conc else 'failed obligation: ') + (conc or real)[0][0][:600])
        print(f'VIOLATION property={prop} replay={rp}' + ('' if conc else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:
        # the machinery itself failed: no verdict about the code
        import traceback
        traceback.print_exc()
        print('note: the check itself failed; nothing was decided')
        sys.exit(2)

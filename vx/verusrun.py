"""Verus on mechanically extracted functions."""
import hashlib
import json
import os
import re
import subprocess
import time

import rustlex
import scratch
import vex

BASE = os.path.join(scratch.VERIF, 'verus', 'baseline.json')


def baseline():
    return json.load(open(BASE)) if os.path.exists(BASE) else {}


def fingerprint(unit):
    """Hash per copied item, over tokens (comments and layout do not matter)."""
    r = {}
    for name, text in unit.copied:
        toks = ' '.join(t.text for t in rustlex.lex(text))
        r[name] = hashlib.sha256(toks.encode()).hexdigest()[:16]
    return r


def verus(path, rlimit=None, timeout=400, threads=8):
    cmd = ['verus', path, '--output-json', '--error-format=json', '--time-expanded', '--num-threads', str(threads), '--multiple-errors', '4']
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    t = time.time()
    env = scratch.env('/nonexistent')
    env.pop('RUSTUP_TOOLCHAIN')
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           cwd=os.path.dirname(path), errors='replace', env=env)
    except subprocess.TimeoutExpired:
        return {'timeout': True}, [], time.time() - t, cmd, ''
    try:
        d = json.loads(p.stdout)
    except ValueError:
        d = {}
    diags = []
    for ln in p.stderr.split('\n'):
        if ln.startswith('{'):
            try:
                diags.append(json.loads(ln))
            except ValueError:
                pass
    return d, diags, time.time() - t, cmd, p.stderr


def fn_at(lines, ln):
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.match(r'\s*(?:pub(?:\([a-z]+\))?\s+)?(?:open\s+|closed\s+|uninterp\s+|broadcast\s+)*(?:const\s+|unsafe\s+)?(?:proof\s+|spec\s+|exec\s+)?fn\s+(\w+)', lines[i])
        if m:
            return m.group(1)
    return '?'


CANARY = 'vx_canary_must_fail'


def run_unit(name, work, timeout=400):
    """Returns a dict: status in ok / failed / unsupported / undetermined, with details."""
    r = {'unit': name, 'status': 'unsupported', 'functions': [], 'desugarings': [], 'verified': 0, 'errors': [], 'secs': 0.0}
    tpl = os.path.join(scratch.VERIF, 'verus', name + '.rs')
    try:
        u = vex.Unit(scratch.REPO, tpl)
        text = u.run()
    except vex.LostAnchor as e:
        r['why'] = f'extraction lost its anchor: {e}'
        return r
    except Exception as e:  # the source no longer has the expected form
        r['why'] = f'extraction failed: {type(e).__name__}: {e}'
        return r
    r['functions'] = [f'{p}::{n}' for n, _, _, p in u.fns]
    r['desugarings'] = u.subs
    fp = fingerprint(u)
    bl = baseline().get(name, {})
    r['changed'] = sorted(k for k in set(fp) | set(bl) if fp.get(k) != bl.get(k))
    r['fingerprint'] = fp
    r['trusted'] = sorted(set(re.findall(r'external_body\]\s*(?:pub\s+)?(?:proof\s+)?fn\s+(\w+)', text) +
                              re.findall(r'assume_specification[^\[]*\[\s*([^\]]+?)\s*\]', text)))
    if re.search(r'\b(admit|assume)\s*\(', text):
        r['trusted'].append('assume/admit in the template')
    # vacuity guard: the prelude must not prove false
    k = text.rindex('} // verus!')
    text = text[:k] + f'proof fn {CANARY}() ensures false {{}}\n' + text[k:]
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, name + '.rs')
    open(path, 'w').write(text)
    lines = text.split('\n')
    best = None
    for attempt, rl in enumerate((None, 40, 90)):
        d, diags, secs, cmd, err = verus(path, rl, timeout)
        r['secs'] += secs
        r['cmd'] = ' '.join(cmd)
        if d.get('timeout'):
            r['status'], r['why'] = 'undetermined', 'time limit'
            return r
        vr = d.get('verification-results')
        if not vr or vr.get('encountered-vir-error') or 'verified' not in vr:
            r['status'] = 'unsupported'
            r['why'] = '; '.join(x['message'] for x in diags if x.get('level') == 'error')[:800] or err[:400]
            r['output'] = err[-4000:]
            return r
        errs = []
        canary = False
        und = False
        for x in diags:
            if x.get('level') != 'error' or x['message'].startswith('aborting due'):
                continue
            sp = [s for s in x['spans'] if os.path.basename(s['file_name']) == name + '.rs']
            prim = [s for s in sp if s['is_primary']] or sp
            at = prim[0]['line_start'] if prim else 0
            others = [s['line_start'] for s in sp if not s['is_primary']]
            # the failing function is the one whose body is at fault
            fn = fn_at(lines, max([at] + [s['line_start'] for s in sp if s.get('label') and 'at the end of' in (s['label'] or '') or 'at this exit' in (s.get('label') or '')]) if sp else at)
            if fn == CANARY or CANARY in x.get('rendered', ''):
                canary = True
                continue
            if 'Resource limit' in x['message'] or 'rlimit' in x['message'] or 'while loop: Resource' in x['message']:
                und = True
                errs.append({'function': fn, 'message': x['message'], 'line': at, 'kind': 'rlimit'})
                continue
            errs.append({'function': fn, 'message': x['message'], 'line': at, 'clause': lines[at - 1].strip() if 0 < at <= len(lines) else '',
                         'rendered': x.get('rendered', '')[:1500], 'kind': 'obligation'})
        nverr = vr.get('errors', 0)
        smt = d.get('times-ms', {}).get('smt', {})
        fb = []
        for m in smt.get('smt-run-module-times', []):
            fb += m.get('function-breakdown', [])
        r['obligation_groups'] = vr['verified'] + nverr
        r['verified'] = vr['verified']
        r['smt_ms'] = smt.get('smt-run', {}).get('total', 0) if isinstance(smt.get('smt-run'), dict) else smt.get('smt-run', 0)
        r['per_function'] = [(f['function'], f.get('time', 0), f.get('success')) for f in fb if CANARY not in f['function']]
        if not canary:
            r['status'] = 'unsupported'
            # nothing was verified: the text does not compile in the verifier's dialect
            r['why'] = 'vacuity guard: the unit proves false' if vr['verified'] else '; '.join(x['message'] for x in diags if x.get('level') == 'error')[:800]
            return r
        if not errs and nverr == 1:
            r['status'] = 'ok'
            r['errors'] = []
            return r
        hard = [e for e in errs if e['kind'] == 'obligation']
        r['errors'] = errs
        if not hard:
            r['status'] = 'undetermined'
            r['why'] = 'solver resource limit'
        else:
            # errors at the time of a resource limit are still definite per obligation
            r['status'] = 'failed'
    return r

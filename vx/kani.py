"""Kani on the real code (contract harnesses)."""
import os
import re
import subprocess
import time

import scratch


def cargo_kani(crate, target, names, extra, timeout):
    cmd = ['cargo', 'kani', '--manifest-path', os.path.join(crate, 'Cargo.toml'), '--lib', '-Z', 'stubbing', '-Z', 'function-contracts', '-Z', 'loop-contracts', '--no-overflow-checks']  # (NaN checks only: integer overflow is asserted by rustc)
    cmd += extra
    for n in names:
        cmd += ['--harness', n]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=scratch.env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors='replace')
        return p.stdout, p.returncode, time.time() - t, cmd
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b''
        return (o.decode(errors='replace') if isinstance(o, bytes) else o), 'timeout', time.time() - t, cmd


def run_all(crate, target, hs, timeout, per_harness=240, jobs=8):
    """hs: list of (module name, fn, opts).  Returns {fn: dict}, raw output, seconds, command."""
    names = ['kani_' + fn for _, fn, _ in hs]
    out, rc, secs, cmd = cargo_kani(crate, target, names, ['-j', str(jobs), '--output-format', 'terse', '-Z', 'unstable-options', '--harness-timeout', f'{per_harness}s'], timeout)
    res = {fn: {'status': 'unknown'} for _, fn, _ in hs}
    th = {}
    for ln in out.split('\n'):
        m = re.match(r'Thread (\d+): ?(.*)', ln)
        tid, body = (m.group(1), m.group(2)) if m else (th.get('last', '0'), ln)
        if m:
            th['last'] = tid
        m2 = re.search(r'Checking harness (\S+?)\.\.\.', body)
        if m2:
            th[tid] = m2.group(1).split('::kani_')[-1]
            continue
        cur = th.get(tid)
        if cur not in res:
            continue
        r = res[cur]
        m2 = re.search(r'\*\* (\d+) of (\d+) failed', body)
        if m2:
            r['failed'], r['checks'] = int(m2.group(1)), int(m2.group(2))
        if 'VERIFICATION:- SUCCESSFUL' in body:
            r['status'] = 'ok'
        elif 'VERIFICATION:- FAILED' in body:
            r['status'] = 'failed'
        m2 = re.search(r'Verification Time: ([\d.]+)s', body)
        if m2:
            r['secs'] = float(m2.group(1))
        if 'timed out' in body or 'out of memory' in body.lower():
            r['status'] = 'timeout'
    return res, out, secs, cmd


def detail(crate, target, fn, timeout):
    """Re-run one failing harness to get the failed checks and the concrete input."""
    out, rc, secs, cmd = cargo_kani(crate, target, ['kani_' + fn], ['-Z', 'concrete-playback', '--concrete-playback=print'], timeout)
    failed = re.findall(r'^Failed Checks: (.*)$', out, re.M)
    vals = []
    m = re.search(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S)
    if m:
        vals = re.findall(r'vec!\[([0-9, ]*)\]', m.group(1))
    return {'failed_checks': failed, 'vals': vals, 'out': out, 'rc': rc, 'playback': bool(m)}

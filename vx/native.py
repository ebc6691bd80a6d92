"""Bounded execution of the contracts on the real code (stand-in, counterexample search, replay)."""
import concurrent.futures
import json
import os
import re
import subprocess
import time

import scratch


def build(crate, target, log):
    env = scratch.env(target)
    env['RUSTFLAGS'] = '--cfg vx'
    t = time.time()
    p = subprocess.run(['cargo', 'build', '--offline', '--bin', 'vx', '--message-format', 'short', '--manifest-path', os.path.join(crate, 'Cargo.toml')],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    log.append('native build: %.1f s' % (time.time() - t))
    if p.returncode:
        return None, p.stdout
    return os.path.join(target, 'debug', 'vx'), p.stdout


def culprits(out, hs):
    """The harness modules that compiler errors point into (short message format)."""
    bad = set()
    for f, ln in re.findall(r'^(\S+?):(\d+):\d+: error', out, re.M):
        for h in hs:
            if f.endswith(h.lines[0]) and h.lines[1] <= int(ln) <= h.lines[2]:
                bad.add(h.name)
    return bad


def run_many(binary, seed, timeout, names, jobs=6):
    """Each harness in a process of its own."""
    recs, rcs, outs = [], [], []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for r, rc, out in ex.map(lambda n: run(binary, seed, timeout, only=n), names):
            recs += r
            rcs.append(rc)
            outs.append(out)
    bad = [rc for rc in rcs if rc != 0]
    return recs, (bad[0] if bad else 0), '\n'.join(o[-2000:] for o, rc in zip(outs, rcs) if rc != 0)


def run(binary, seed, timeout, replay=None, only=None):
    env = scratch.env('/nonexistent')
    env['VERIF_SEED'] = str(seed)
    if replay is not None:
        env['VX_REPLAY'] = replay
    if only is not None:
        env['VX_ONLY'] = only
    try:
        p = subprocess.run([binary], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors='replace')
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
    recs = []
    for ln in out.split('\n'):
        if ln.startswith('{"vx"'):
            try:
                recs.append(json.loads(ln))
            except ValueError:
                pass
    return recs, rc, out

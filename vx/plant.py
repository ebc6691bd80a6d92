#!/usr/bin/env python3
"""Development tool: plant.py new ID PROP MOD-FILE [..]: makes seeded/<ID> from a change; plant.py test ID...: confirms it.

`test` works in a copy of /repo laid out by /tmp/s (see DESIGN.md); it is no part of any check."""
import json, os, subprocess, sys
V = '/verif/seeded'
R = '/tmp/s/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def new(id, prop, needs, breaks, changes, mod, probe):
    """changes: [(file, old, new)]; mod: file to which the probe is appended ('' = public API only)"""
    d = f'{V}/{id}'
    os.makedirs(d, exist_ok=True)
    sh(f'rm -rf {R}/src; cp -a /repo/src {R}/')
    diff = ''
    for f, o, n in changes:
        p = f'{R}/{f}'
        s = open(p).read()
        assert s.count(o) == 1, (id, f, s.count(o))
        open(p, 'w').write(s.replace(o, n))
    for f in sorted({c[0] for c in changes}):
        r = sh(f'git diff --no-index --no-prefix /repo/{f} {R}/{f}').stdout
        r = r.replace(f'repo/{f}', f).replace(f'tmp/s/{f}', f)
        lines = r.split('\n')
        lines[0] = f'diff --git a/{f} b/{f}'
        k = [i for i, l in enumerate(lines) if l.startswith('--- ')][0]
        lines[k], lines[k + 1] = f'--- a/{f}', f'+++ b/{f}'
        diff += '\n'.join(lines)
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    t = open('/tmp/seedlib/demo_priv.sh').read()
    m = mod[len('src/'):-3].split('/')
    if m[-1] == 'mod':
        m.pop()
    if m == ['lib']:
        m = []
    open(f'{d}/demo.sh', 'w').write(t.replace('@FILE@', mod).replace('@MOD@', ''.join(x + '::' for x in m)))
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/probe.rs', 'w').write(probe)
    sh(f'rm -rf {R}/src; cp -a /repo/src {R}/')


def test(id):
    d = f'{V}/{id}'
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh(f'rm -rf {R}/src; cp -a /repo/src {R}/')
    a = subprocess.run(['bash', f'{d}/demo.sh'], cwd=R, capture_output=True, text=True)
    g = sh(f'cd {R} && git apply {d}/patch.diff')
    if g.returncode:
        return print(id, 'DOES NOT APPLY', g.stderr)
    b = sh('bash /tmp/s/build.sh')
    if b.returncode:
        return print(id, 'NO BUILD', b.stderr[-600:])
    try:
        sh('bash /tmp/s/test.sh /tmp/s/o.json', timeout=300)
        bad = sorted(base - set(json.load(open('/tmp/s/o.json'))['passed']))
    except subprocess.TimeoutExpired:
        bad = ['timeout']
    c = subprocess.run(['bash', f'{d}/demo.sh'], cwd=R, capture_output=True, text=True)
    prop = json.load(open(f'{d}/meta.json'))['property']
    k = subprocess.run(['python3', '/verif/vx/check.py', prop], capture_output=True, text=True, env=dict(os.environ, VX_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'))
    print(f'{id} [{prop}]: tests {"pass" if not bad else f"KILLED {len(bad)} {bad[:2]}"}; demo clean {a.returncode} patched {c.returncode}; check exit {k.returncode}', flush=True)
    if a.returncode:
        print('   clean demo:', a.stdout[-400:])
    if '-v' in sys.argv or k.returncode != 1:
        print('   ', '\n    '.join(x[:300] for x in k.stdout.split('\n')[-4:]))
    sh(f'rm -rf {R}/src; cp -a /repo/src {R}/')


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        for x in eval(open(sys.argv[2]).read()):
            new(**x)
    else:
        for i in [x for x in sys.argv[2:] if x[0] != '-'] or sorted(os.listdir(V)):
            test(i)

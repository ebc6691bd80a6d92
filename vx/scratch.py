"""Mechanical scratch copy of /repo's crate with the contract harnesses appended to its modules.

The sources are copied byte for byte from /repo's working tree on every run.  Appended at the end of
the module named by a harness file's `//@into` line is a module guarded by cfg(kani)/cfg(vx) holding the
harness; it sees the private items of that module.  Nothing in the copied text is changed.
The generated Cargo.toml keeps the three normal dependencies and drops dev-dependencies, benches,
tests, examples and optional features (no verified code depends on them).
"""
import os
import re
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VX_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')

CARGO = '''[package]
name = "linesweeper"
version = "0.1.2"
edition = "2021"
autobins = false
autobenches = false
autoexamples = false
autotests = false
[workspace]
[features]
arbitrary = []
debug-svg = []
slow-asserts = []
generators = []
[dependencies]
arrayvec = { version = "0.7.6", features = ["serde"] }
kurbo = { version = "0.12.0", features = ["serde"] }
polycool = "0.4.0"
[[bin]]
name = "vx"
path = "vxmain.rs"
[lints.rust]
unexpected_cfgs = "allow"
[profile.dev]
opt-level = 2
debug = "line-tables-only"
incremental = false
'''


class Harness:
    def __init__(self, name):
        self.name = name
        self.path = os.path.join(VERIF, 'contracts', name + '.rs')
        src = open(self.path).read()
        self.into = re.search(r'^//@into (\S+)', src, re.M).group(1)
        self.kani = []      # (fn, {opts})
        self.native = []    # (fn, {opts})
        for kind, fn, rest in re.findall(r'^//@(kani|native) (\w+)(.*)$', src, re.M):
            opts = {}
            stubs = []
            for w in re.findall(r'(\w+)=("[^"]*"|\S+)', rest):
                if w[0] == 'stub':
                    stubs.append(w[1].replace('~', ' ').split('=>'))
                else:
                    opts[w[0]] = w[1].strip('"')
            opts['stubs'] = stubs
            (self.kani if kind == 'kani' else self.native).append((fn, opts))
        # a dependency replaced by a stub that implements its contract (Kani build only)
        self.kanisub = re.findall(r'^//@kanisub (.*?) ==> (.*)$', src, re.M)
        self.src = src

    def modpath(self):
        p = self.into[len('src/'):-len('.rs')].split('/')
        if p[-1] == 'mod':
            p = p[:-1]
        if p == ['lib']:
            p = []
        return p

    def text(self):
        out = [f'\n#[cfg(any(kani, vx))]\n#[allow(dead_code, unused, missing_docs, clippy::all)]\npub(crate) mod vx_{self.name} {{\n'
               'use super::*;\nuse crate::vx_rt as vx;\n', self.src, '\n']
        for fn, o in self.kani:
            a = '#[kani::proof]'
            if 'unwind' in o:
                a += f"\n#[kani::unwind({o['unwind']})]"
            if 'solver' in o:
                a += f"\n#[kani::solver({o['solver']})]"
            for x, y in o['stubs']:
                a += f'\n#[kani::stub({x}, {y})]'
            out.append(f'#[cfg(kani)]\n{a}\nfn kani_{fn}() {{ {fn}() }}\n')
        out.append('}\n')
        return ''.join(out)


def make(dest, harnesses, tier='quick'):
    """Create the scratch crate in dest.  harnesses: list of Harness."""
    if os.path.isdir(os.path.join(dest, 'src')):
        shutil.rmtree(os.path.join(dest, 'src'))
    os.makedirs(dest, exist_ok=True)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dest, 'src'), copy_function=shutil.copyfile)
    # (test snapshots are not needed)
    for r, ds, _ in os.walk(os.path.join(dest, 'src')):
        for d in list(ds):
            if d == 'snapshots':
                shutil.rmtree(os.path.join(r, d))
                ds.remove(d)
    shutil.copyfile(os.path.join(REPO, 'README.md'), os.path.join(dest, 'README.md'))
    shutil.copyfile(os.path.join(REPO, 'Cargo.lock'), os.path.join(dest, 'Cargo.lock'))
    open(os.path.join(dest, 'Cargo.toml'), 'w').write(CARGO)
    open(os.path.join(dest, 'vxmain.rs'), 'w').write(
        '#[cfg(vx)] fn main() { linesweeper::vx_main() }\n#[cfg(not(vx))] fn main() {}\n')
    reg = []
    for h in harnesses:
        f = os.path.join(dest, h.into)
        if not os.path.exists(f):
            raise FileNotFoundError(h.into)
        t = h.text()
        if h.kanisub:
            old = open(f).read()
            for a, b in h.kanisub:
                old = old.replace(a, f'#[cfg(not(kani))] {a} #[cfg(kani)] {b}', 1)
            open(f, 'w').write(old)
        n0 = open(f).read().count('\n')
        h.lines = (h.into, n0 + 1, n0 + t.count('\n') + 1)
        with open(f, 'a') as o:
            o.write(t)
        mp = h.modpath()
        # make the module nameable from the crate root
        for k in range(len(mp) - 1, 0, -1):
            par = mp[:k]
            cand = [os.path.join(dest, 'src', *par, 'mod.rs'), os.path.join(dest, 'src', *par) + '.rs']
            pf = next(c for c in cand if os.path.exists(c))
            with open(pf, 'a') as o:
                o.write(f'\n#[cfg(any(kani, vx))]\n#[allow(unused_imports)]\npub(crate) use {mp[k]}::vx_{h.name};\n')
        root = 'crate' + (f'::{mp[0]}' if mp else '') + f'::vx_{h.name}'
        for fn, o in h.native:
            n = o.get('iters')
            if tier == 'thorough':
                n = o.get('thorough', str(int(n) * 10) if n else None)
            kind = f'crate::vx_rt::Kind::Random({n})' if n else 'crate::vx_rt::Kind::Once'
            reg.append(f'("{h.name}::{fn}", {kind}, {root}::{fn} as fn())')
        # verifier counterexamples are replayed through the same functions
        names = {fn for fn, _ in h.native}
        for fn, o in h.kani:
            if fn not in names and not o.get('noreplay'):
                reg.append(f'("{h.name}::{fn}", crate::vx_rt::Kind::Random(0), {root}::{fn} as fn())')
    with open(os.path.join(dest, 'src', 'lib.rs'), 'a') as o:
        o.write('\n' + open(os.path.join(HERE, 'rt.rs')).read())
        o.write('\n#[cfg(vx)]\n#[doc(hidden)]\n#[allow(missing_docs)]\npub fn vx_main() { crate::vx_rt::run(&[' + ',\n'.join(reg) + ']); }\n')
    return reg


def env(target):
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=target, RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    for k in ('RUSTFLAGS', 'INSTA_UPDATE', 'INSTA_WORKSPACE_ROOT'):
        e.pop(k, None)
    return e

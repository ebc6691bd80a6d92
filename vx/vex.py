#!/usr/bin/env python3
"""Mechanical extractor: instantiates a Verus unit template with text copied verbatim from /repo.

Template directives (lines starting with //@ after optional blanks):
  //@src PATH                 following directives copy from this file of /repo (PATH@NAME: from the nested fn NAME in it)
  //@item KIND NAME           copy an item verbatim (attributes and doc comments dropped)
  //@fn [OWNER::]NAME [trait=T]   start of a function block, ended by //@end.  In the block:
     //@ret NAME              name the returned value (`-> T` becomes `-> (NAME: T)`)
     //@loops N               the number of loops the annotations were written for
     //@loop K [iter=NAME]    following lines: loop specification for the K-th loop
     //@start                 following lines: ghost code inserted at the start of the body
     //@finish                following lines: ghost code inserted at the end of the body
     //@after K / //@in K / //@tail K    ghost code after loop K / at start of / end of loop K's body
     //@sub REGEX ==> TEXT    desugaring of a construct the verifier does not accept (recorded)
     //@let NAME REGEX        NAME stands for the first group of REGEX in the function's source; ${NAME} in later
                              //@sub texts inlines it (a closure's body at its calls)
     //@at [[N]] REGEX / //@post [[N]] REGEX   ghost code right before / after a place in the body
     //@attr TEXT             attribute put in front of the function
     other lines              the function's specification (requires/ensures/decreases)
  //@end
All else is copied through.  What is dropped or rewritten is recorded in the returned report.
"""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustlex


class LostAnchor(Exception):
    pass


def strip_attrs(src, item):
    """Text of an item without attributes and comments inside it."""
    toks = item.toks
    out = []
    last = item.start
    i = 0
    text = src
    cuts = []
    while i < len(toks):
        if toks[i].text == '#' and i + 1 < len(toks) and toks[i + 1].text == '[':
            k = rustlex.match_close(toks, i + 1)
            cuts.append((toks[i].start, toks[k].end))
            i = k + 1
        else:
            i += 1
    for a, b in cuts:
        out.append(text[last:a])
        last = b
    out.append(text[last:item.end])
    return ''.join(out)


class Unit:
    def __init__(self, repo, template):
        self.repo = repo
        self.template = template
        self.files = {}
        self.subs = []       # recorded desugarings
        self.fns = []        # (name, first line, last line)
        self.items_ = []
        self.copied = []     # (name, original text)
        self.out = []

    def load(self, path):
        if path not in self.files:
            base, _, nested = path.partition('@')
            p = os.path.join(self.repo, base)
            if not os.path.exists(p):
                raise LostAnchor(f'no file {base}')
            src = open(p).read()
            try:
                if nested:
                    ms = list(re.finditer(r'\bfn\s+' + nested + r'\b', src))
                    if len(ms) != 1:
                        raise LostAnchor(f'{len(ms)} functions {nested} in {base}')
                    toks = rustlex.lex(src[ms[0].start():])
                    k = next(i for i, t in enumerate(toks) if t.text == '{')
                    src = src[ms[0].start():ms[0].start() + toks[rustlex.match_close(toks, k)].end]
                self.files[path] = (src, rustlex.items(src))
            except (ValueError, IndexError) as e:
                raise LostAnchor(f'cannot lex {path}: {e}')
        return self.files[path]

    def find(self, path, kind, name, owner=None, trait=None):
        src, its = self.load(path)
        c = [i for i in its if i.kind == kind and i.name == name and not i.is_test
             and (owner is None and i.owner is None or i.owner == owner)
             and (trait is None or i.trait == trait)]
        if not c:
            raise LostAnchor(f'{kind} {owner + "::" if owner else ""}{name} not found in {path}')
        if len(c) > 1:
            raise LostAnchor(f'{kind} {name} is ambiguous in {path}')
        return src, c[0]

    def emit(self, text):
        self.out.append(text)

    def nlines(self):
        return ''.join(self.out).count('\n')

    def do_fn(self, path, spec, block):
        m = re.match(r'(?:(\w+)::)?(\w+)(?:\s+trait=(\w+))?(?:\s+as=(\w+))?\s*$', spec)
        owner, name, trait, rename = m.groups()
        src, it = self.find(path, 'fn', name, owner, trait)
        if it.body is None:
            raise LostAnchor(f'{name} has no body')
        ret = None
        sig_spec, start, finish = [], [], []
        loopspec, after, inside, tail, iters = {}, {}, {}, {}, {}
        self.copied.append((f'{path}::fn {spec.strip()}', src[it.start:it.toks[it.body[1]].end]))
        nloops = None
        points = []
        attrs = []
        subs = []
        lets = {}
        cur = sig_spec
        for ln in block:
            s = ln.strip()
            if s.startswith('//@'):
                d = s[3:].strip()
                k, _, rest = d.partition(' ')
                if k == 'ret':
                    ret = rest.strip()
                elif k == 'loops':
                    nloops = int(rest)
                elif k == 'loop':
                    p = rest.split()
                    cur = loopspec.setdefault(int(p[0]), [])
                    for q in p[1:]:
                        if q.startswith('iter='):
                            iters[int(p[0])] = q[5:]
                elif k == 'start':
                    cur = start
                elif k == 'finish':
                    cur = finish
                elif k == 'after':
                    cur = after.setdefault(int(rest), [])
                elif k == 'in':
                    cur = inside.setdefault(int(rest), [])
                elif k == 'tail':
                    cur = tail.setdefault(int(rest), [])
                elif k in ('at', 'post'):
                    cur = []
                    points.append((k, rest, cur))
                elif k == 'attr':
                    attrs.append(rest)
                elif k == 'spec':
                    cur = sig_spec
                elif k == 'let':
                    a, _, b = rest.partition(' ')
                    m = re.search(b.strip(), src[it.start:it.toks[it.body[1]].end], re.S)
                    if not m:
                        raise LostAnchor(f'{spec}: no place {b!r}')
                    lets[a] = m.group(1)
                elif k == 'sub':
                    a, _, b = rest.partition(' ==> ')
                    for nm, tx in lets.items():
                        b = b.replace('${' + nm + '}', tx.replace('\\', '\\\\'))
                    subs.append((a, b))
                else:
                    raise SystemExit(f'bad directive {s}')
            else:
                cur.append(ln)
        lps = rustlex.loops(it, src)
        if nloops is not None and len(lps) != nloops:
            raise LostAnchor(f'{spec}: {len(lps)} loops where the annotations expect {nloops}')
        # insertions at absolute offsets
        ins = []
        for k, lines in loopspec.items():
            if k >= len(lps):
                raise LostAnchor(f'{spec}: no loop {k}')
            ins.append((lps[k][2], '\n' + '\n'.join(lines) + '\n'))
        for k, nm in iters.items():
            # `for PAT in EXPR` -> `for PAT in NM: EXPR`
            kw, hs, bo, _ = lps[k]
            if kw != 'for':
                raise LostAnchor(f'{spec}: loop {k} is not a for loop')
            toks = it.toks
            j = next(i for i, t in enumerate(toks) if t.start == hs) + 1
            while toks[j].text != 'in':
                if toks[j].text in ('(', '[', '{'):
                    j = rustlex.match_close(toks, j)
                j += 1
            ins.append((toks[j].end, f' {nm}:'))
        for k, lines in inside.items():
            ins.append((lps[k][2] + 1, '\n' + '\n'.join(lines) + '\n'))
        for k, lines in tail.items():
            ins.append((lps[k][3], '\n' + '\n'.join(lines) + '\n'))
        for k, lines in after.items():
            ins.append((lps[k][3] + 1, '\n' + '\n'.join(lines) + '\n'))
        body_open = it.toks[it.body[0]].start
        body_close = it.toks[it.body[1]].start
        if start:
            ins.append((body_open + 1, '\n' + '\n'.join(start) + '\n'))
        if finish:
            ins.append((body_close, '\n' + '\n'.join(finish) + '\n'))
        for k, pat, lines in points:
            nth = 0
            m = re.match(r'\[(\d+)\]\s*(.*)', pat)
            if m:
                nth, pat = int(m.group(1)), m.group(2)
            ms = list(re.finditer(pat, src[body_open:body_close]))
            if len(ms) <= nth:
                raise LostAnchor(f'{spec}: no place {pat!r} for a proof hint')
            mm = ms[nth]
            off = body_open + (mm.start() if k == 'at' else mm.end())
            ins.append((off, '\n' + '\n'.join(lines) + '\n'))
        # inner attributes in the body are dropped
        cuts = []
        i = it.body[0]
        toks = it.toks
        while i < it.body[1]:
            if toks[i].text == '#' and toks[i + 1].text == '[':
                k = rustlex.match_close(toks, i + 1)
                cuts.append((toks[i].start, toks[k].end))
                i = k
            i += 1
        # tokens of the signature
        sig = src[it.start:body_open].rstrip()
        if rename:
            sig = re.sub(r'\bfn\s+' + name + r'\b', 'fn ' + rename, sig, count=1)
        wh = ''
        m = re.search(r'\bwhere\b', sig)
        if m:
            wh = sig[m.start():].rstrip()
            if not wh.endswith(','):
                wh += ','
            sig = sig[:m.start()].rstrip()
        if ret is not None:
            st = [t for t in it.toks[:it.body[0]] if t.text == '->']
            d = 0
            arrow = None
            for t in it.toks[:it.body[0]]:
                if t.text in '([{':
                    d += 1
                elif t.text in ')]}':
                    d -= 1
                elif t.text == '->' and d == 0:
                    arrow = t
            if arrow is None:
                raise LostAnchor(f'{spec}: no return type')
            off = arrow.end - it.start
            off = sig.rfind('->') + 2 if rename else off
            sig = sig[:off] + f' ({ret}: ' + sig[off:].strip() + ')'
        sig = re.sub(r'^pub\b\s*(\([^)]*\))?\s*', '', sig)
        # body with insertions, applied right to left
        edits = [(a, a, t) for a, t in ins] + [(a, b, '') for a, b in cuts]
        edits.sort(key=lambda e: e[0])
        pos, parts = body_open, []
        for a, b, t in edits:
            parts.append(src[pos:a])
            parts.append(t)
            pos = b
        parts.append(src[pos:body_close + 1])
        body = ''.join(parts)
        for a, b in subs:
            where = 'body'
            new, n = re.subn(a, b, body)
            if n == 0:
                new2, n2 = re.subn(a, b, sig)
                sig = new2
                n = n2
            else:
                body = new
            self.subs.append({'fn': spec, 'pattern': a, 'replacement': b, 'times': n})
        first = self.nlines() + 1
        text = '\n'.join(attrs) + ('\n' if attrs else '') + sig + ('\n' + wh if wh else '') + '\n' + '\n'.join(sig_spec) + '\n' + body + '\n'
        self.emit(text)
        self.fns.append(((owner + '::' if owner else '') + (rename or name), first, self.nlines(), path))

    def run(self):
        lines = open(self.template).read().split('\n')
        path = None
        i = 0
        while i < len(lines):
            s = lines[i].strip()
            if s.startswith('//@src '):
                path = s[7:].strip()
            elif s.startswith('//@include '):
                inc = os.path.join(os.path.dirname(self.template), s[11:].strip())
                self.emit(open(inc).read() + '\n')
            elif s.startswith('//@item '):
                p = s[8:].split()
                src, it = self.find(path, p[0], p[1], p[2] if len(p) > 2 else None)
                t = strip_attrs(src, it)
                t = re.sub(r'^\s*pub\s*\([^)]*\)', 'pub', t)
                t = re.sub(r'(\n\s*)pub\s*\([^)]*\)', r'\1pub', t)
                self.copied.append((f'{path}::{p[0]} {p[1]}', t))
                self.items_.append(f'{p[0]} {p[1]}')
                self.emit(t + '\n')
            elif s.startswith('//@fn '):
                block = []
                spec = s[6:].strip()
                i += 1
                while lines[i].strip() != '//@end':
                    block.append(lines[i])
                    i += 1
                self.do_fn(path, spec, block)
            else:
                self.emit(lines[i] + '\n')
            i += 1
        return ''.join(self.out)


if __name__ == '__main__':
    u = Unit(sys.argv[1], sys.argv[2])
    sys.stdout.write(u.run())

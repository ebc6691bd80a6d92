"""A small Rust lexer and item locator (enough to find items by name and copy them verbatim)."""
import re

IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'[0-9][0-9a-zA-Z_]*(\.[0-9][0-9a-zA-Z_]*)?([eE][+-]?[0-9_]+)?')


class Tok:
    __slots__ = ('kind', 'text', 'start', 'end')

    def __init__(self, kind, text, start, end):
        self.kind, self.text, self.start, self.end = kind, text, start, end

    def __repr__(self):
        return f'{self.kind}:{self.text!r}'


def lex(src):
    """Return the list of tokens, with comments and whitespace dropped."""
    i, n, out = 0, len(src), []
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(b|c)?r(#*)"').match(src, i)
        if m:
            close = '"' + m.group(2)
            j = src.find(close, m.end())
            j = n if j < 0 else j + len(close)
            out.append(Tok('str', src[i:j], i, j))
            i = j
            continue
        if c == '"' or (c in 'bc' and i + 1 < n and src[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            j += 1
            out.append(Tok('str', src[i:j], i, j))
            i = j
            continue
        if c == "'":
            # char literal or lifetime
            m = re.compile(r"'(\\(x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'").match(src, i)
            if m:
                out.append(Tok('char', m.group(0), i, m.end()))
                i = m.end()
                continue
            m = IDENT.match(src, i + 1)
            j = m.end() if m else i + 1
            out.append(Tok('life', src[i:j], i, j))
            i = j
            continue
        m = IDENT.match(src, i)
        if m:
            out.append(Tok('id', m.group(0), i, m.end()))
            i = m.end()
            continue
        if c.isdigit():
            m = NUM.match(src, i)
            out.append(Tok('num', m.group(0), i, m.end()))
            i = m.end()
            continue
        for p in ('->', '=>', '::', '..=', '...', '..', '&&', '||', '==', '!=', '<=', '>='):
            if src.startswith(p, i):
                out.append(Tok('p', p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok('p', c, i, i + 1))
            i += 1
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}


def match_close(toks, i):
    """toks[i] opens a group; return the index of the closing token."""
    d = 0
    for k in range(i, len(toks)):
        t = toks[k]
        if t.kind == 'p':
            if t.text in OPEN:
                d += 1
            elif t.text in (')', ']', '}'):
                d -= 1
                if d == 0:
                    return k
    raise ValueError('unbalanced')


class Item:
    """An item: attrs excluded. start..end is the byte range without attributes."""

    def __init__(self, kind, name, owner, trait, start, end, toks, sig_end, body):
        self.kind, self.name, self.owner, self.trait = kind, name, owner, trait
        self.start, self.end, self.toks = start, end, toks
        self.sig_end, self.body = sig_end, body  # body = (tok index open, close) into toks


QUAL = {'pub', 'const', 'unsafe', 'async', 'extern', 'default'}


def last_path_ident(toks):
    """`foo::Bar<'a, T>` -> Bar ; `&'a mut Foo` -> Foo"""
    name = None
    d = 0
    for t in toks:
        if t.kind == 'p' and t.text == '<':
            d += 1
        elif t.kind == 'p' and t.text == '>':
            d -= 1
        elif d == 0 and t.kind == 'id':
            if t.text in ('where',):
                break
            if t.text in ('mut', 'dyn', 'const'):
                continue
            name = t.text
    return name


def items(src, toks=None, lo=0, hi=None, owner=None, trait=None, mod=()):
    """Yield items found at this nesting level, going into impls and (non-test) modules."""
    if toks is None:
        toks = lex(src)
    if hi is None:
        hi = len(toks)
    i = lo
    out = []
    pend_attrs = []
    while i < hi:
        t = toks[i]
        if t.kind == 'p' and t.text == '#':
            j = i + 1
            if j < hi and toks[j].text == '!':
                j += 1
            if j < hi and toks[j].text == '[':
                k = match_close(toks, j)
                pend_attrs.append(src[t.start:toks[k].end])
                i = k + 1
                continue
        if t.kind == 'id' or (t.kind == 'p' and t.text == '::'):
            s = i
            j = i
            # visibility / qualifiers
            while j < hi and toks[j].kind == 'id' and toks[j].text in QUAL:
                if toks[j].text == 'const' and not (j + 1 < hi and toks[j + 1].kind == 'id' and toks[j + 1].text in ('fn', 'unsafe', 'extern', 'async')):
                    break
                if toks[j].text == 'pub' and toks[j + 1].text == '(':
                    j = match_close(toks, j + 1)
                if toks[j].text == 'extern' and toks[j + 1].kind == 'str':
                    j += 1
                j += 1
            kw = toks[j].text if j < hi else ''
            if kw in ('fn', 'struct', 'enum', 'union', 'trait', 'mod', 'type', 'const', 'static', 'use', 'impl', 'macro_rules'):
                # find the end: `;` or a `{...}` at depth 0
                k = j + 1
                body = None
                name = toks[j + 1].text if j + 1 < hi else None
                if kw == 'macro_rules':
                    name = toks[j + 2].text
                    k = j + 3
                while k < hi:
                    tk = toks[k]
                    if tk.kind == 'p' and tk.text in ('(', '['):
                        k = match_close(toks, k) + 1
                        continue
                    if tk.kind == 'p' and tk.text == '{':
                        if kw in ('const', 'static', 'use', 'type'):
                            k = match_close(toks, k) + 1
                            continue
                        c = match_close(toks, k)
                        body = (k, c)
                        end_tok = c
                        break
                    if tk.kind == 'p' and tk.text == ';':
                        end_tok = k
                        break
                    k += 1
                else:
                    end_tok = hi - 1
                attrs = pend_attrs
                pend_attrs = []
                is_test = any(re.search(r'\bcfg\s*\(\s*test\s*\)', a) for a in attrs)
                if kw == 'impl':
                    # impl<...> [Trait for] Type [where] { ... }
                    p = j + 1
                    if toks[p].text == '<':
                        d = 0
                        while True:
                            if toks[p].text == '<':
                                d += 1
                            elif toks[p].text == '>':
                                d -= 1
                            p += 1
                            if d == 0:
                                break
                    hdr = toks[p:body[0]]
                    # split on `for` at angle depth 0
                    d, cut = 0, None
                    wh = len(hdr)
                    for q, h in enumerate(hdr):
                        if h.text == '<':
                            d += 1
                        elif h.text == '>':
                            d -= 1
                        elif d == 0 and h.text == 'for' and cut is None:
                            cut = q
                        elif d == 0 and h.text == 'where':
                            wh = q
                            break
                    tr = last_path_ident(hdr[:cut]) if cut is not None else None
                    ty = last_path_ident(hdr[(cut + 1) if cut is not None else 0:wh])
                    it = Item('impl', ty, None, tr, toks[s].start, toks[end_tok].end, toks[s:end_tok + 1], None, body)
                    it.is_test = is_test
                    it.attrs = attrs
                    it.header = src[toks[s].start:toks[body[0]].start]
                    out.append(it)
                    if not is_test:
                        out += items(src, toks, body[0] + 1, body[1], ty, tr, mod)
                elif kw == 'mod' and body:
                    if not is_test:
                        out += items(src, toks, body[0] + 1, body[1], None, None, mod + (name,))
                else:
                    it = Item(kw, name, owner, trait, toks[s].start, toks[end_tok].end, toks[s:end_tok + 1],
                              toks[body[0]].start if body else None,
                              (body[0] - s, body[1] - s) if body else None)
                    it.is_test = is_test
                    it.attrs = attrs
                    out.append(it)
                i = end_tok + 1
                continue
        pend_attrs = []
        i += 1
    return out


def loops(item, src):
    """Loops in the body of a fn item, in textual order: (kw, header_start, body_open_pos, body_close_pos).
    Closures' loops are included too."""
    toks = item.toks
    lo, hi = item.body
    res = []
    for i in range(lo + 1, hi):
        t = toks[i]
        if t.kind == 'id' and t.text in ('for', 'while', 'loop'):
            if t.text == 'for' and toks[i + 1].text == '<':
                continue
            k = i + 1
            while not (toks[k].kind == 'p' and toks[k].text == '{'):
                if toks[k].kind == 'p' and toks[k].text in ('(', '['):
                    k = match_close(toks, k)
                k += 1
            res.append((t.text, t.start, toks[k].start, toks[match_close(toks, k)].start))
    return res

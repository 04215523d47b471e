"""Minimal Rust tokenizer and item locator used by the extractor.

Tokens carry the exact source text and offsets, so extracted functions are the
source's own characters (minus comments/attributes) except where a logged
rewrite rule applied.
"""
import re

class Tok:
    __slots__ = ("t", "k", "s", "e", "ws")
    def __init__(self, t, k, s, e, ws=""):
        self.t, self.k, self.s, self.e, self.ws = t, k, s, e, ws
    def __repr__(self):
        return self.t

_PUNCT = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||",
          "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]
_ident = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"0x[0-9a-fA-F_]+[a-z0-9]*|0b[01_]+[a-z0-9]*|0o[0-7_]+[a-z0-9]*|"
                  r"[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?[A-Za-z0-9_]*")
_rawstr = re.compile(r'(?:b|c)?r(#*)"')
_life = re.compile(r"'(?:[A-Za-z_][A-Za-z0-9_]*)(?!')")
_char = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'")

class LexError(Exception):
    pass

def lex(src):
    out, i, n, last_end = [], 0, len(src), 0
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i); i = n if j < 0 else j; continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        m = _rawstr.match(src, i)
        if m:
            close = '"' + m.group(1)
            j = src.index(close, m.end()) + len(close)
            kind = "str"
        elif c == '"' or (c in "bc" and i + 1 < n and src[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1; kind = "str"
        else:
            m = _char.match(src, i)
            if m: j, kind = m.end(), "char"
            else:
                m = _life.match(src, i)
                if m: j, kind = m.end(), "life"
                else:
                    m = _ident.match(src, i)
                    if m: j, kind = m.end(), "id"
                    elif c.isdigit():
                        m = _num.match(src, i); j, kind = m.end(), "num"
                        txt = src[i:j]
                        # tuple-field chains such as a.0.1: only when preceded by '.'
                        if "." in txt and out and out[-1].t == ".":
                            j = i + txt.index(".")
                    else:
                        for p in _PUNCT:
                            if src.startswith(p, i):
                                j, kind = i + len(p), "p"; break
                        else:
                            j, kind = i + 1, "p"
        # whitespace (comments removed) before token
        gap = src[last_end:i]
        ws = "\n" if "\n" in gap else (" " if gap else "")
        out.append(Tok(src[i:j], kind, i, j, ws))
        last_end = i = j
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}

def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j].t
        if toks[j].k == "p":
            if t in OPEN: d += 1
            elif t in CLOSE:
                d -= 1
                if d == 0: return j
    raise LexError("unbalanced bracket")

def skip_generics(toks, i):
    """toks[i] is '<': index just after the matching '>'"""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j].t
        if t == "<": d += 1
        elif t == "<<": d += 2
        elif t == ">": d -= 1
        elif t == ">>": d -= 2
        elif t in OPEN: j = match_close(toks, j)
        if d <= 0: return j + 1
        j += 1
    raise LexError("unbalanced <")

def attr_end(toks, i):
    """toks[i] == '#': index just after the attribute"""
    j = i + 1
    if toks[j].t == "!": j += 1
    return match_close(toks, j) + 1

ITEM_KW = {"fn", "struct", "enum", "impl", "mod", "trait", "const", "static", "type", "use", "macro_rules", "union", "extern"}

class Item:
    """kind, name, attrs(token range list), start (after attrs), sig end, body range"""
    def __init__(self, **k): self.__dict__.update(k)

def parse_items(toks, lo, hi):
    """top-level items in toks[lo:hi]"""
    items, i = [], lo
    while i < hi:
        attrs = []
        while i < hi and toks[i].t == "#":
            e = attr_end(toks, i); attrs.append((i, e)); i = e
        if i >= hi: break
        start = i
        # visibility / qualifiers
        vis_end = i
        if toks[i].t == "pub":
            i += 1
            if toks[i].t == "(": i = match_close(toks, i) + 1
            vis_end = i
        while i < hi and toks[i].t in ("async", "unsafe", "default", "extern", "const") and not (
                toks[i].t == "const" and toks[i + 1].t not in ("fn", "unsafe", "async", "extern")):
            if toks[i].t == "extern" and toks[i+1].k == "str" : i += 1
            i += 1
        kw = toks[i].t
        it = Item(attrs=attrs, start=start, vis_end=vis_end, kw_at=i, kind=kw, name=None, body=None, end=None, impl_of=None)
        if kw == "fn":
            it.name = toks[i + 1].t
            j = i + 2
            if toks[j].t == "<": j = skip_generics(toks, j)
            it.params = (j, match_close(toks, j))
            j = it.params[1] + 1
            while toks[j].t not in ("{", ";"):
                if toks[j].t in ("(", "["): j = match_close(toks, j)
                j += 1
            it.sig_end = j
            if toks[j].t == "{":
                it.body = (j, match_close(toks, j)); it.end = it.body[1] + 1
            else: it.end = j + 1
        elif kw in ("impl", "trait", "mod"):
            j = i + 1
            it.head = i
            if kw == "impl":
                if toks[j].t == "<": j = skip_generics(toks, j)
            else:
                it.name = toks[j].t
            while toks[j].t not in ("{", ";"):
                if toks[j].t in ("(", "["): j = match_close(toks, j)
                j += 1
            it.sig_end = j
            if toks[j].t == "{":
                it.body = (j, match_close(toks, j)); it.end = it.body[1] + 1
            else: it.end = j + 1
            if kw == "impl": _impl_names(toks, it)
        elif kw in ("struct", "enum", "union"):
            it.name = toks[i + 1].t
            j = i + 2
            while toks[j].t not in ("{", ";", "("):
                if toks[j].t == "<": j = skip_generics(toks, j); continue
                j += 1
            if toks[j].t == "{":
                it.body = (j, match_close(toks, j)); it.end = it.body[1] + 1
            elif toks[j].t == "(":
                it.body = (j, match_close(toks, j)); j = it.body[1] + 1
                while toks[j].t != ";": j += 1
                it.end = j + 1
            else: it.end = j + 1
        elif kw in ("const", "static", "type", "use", "let"):
            it.name = toks[i + 1].t
            j = i
            while toks[j].t != ";":
                if toks[j].t in OPEN: j = match_close(toks, j)
                j += 1
            it.end = j + 1
        elif i + 1 < hi and toks[i + 1].t == "!":
            j = i + 2
            if toks[j].k == "id": it.name = toks[j].t; j += 1
            it.end = match_close(toks, j) + 1
            if it.end < hi and toks[it.end].t == ";": it.end += 1
            it.kind = "macro"
        else:
            # unknown: skip one token tree
            j = i
            if toks[j].t in OPEN: j = match_close(toks, j)
            it.end = j + 1; it.kind = "?"
        items.append(it); i = it.end
    return items

def _impl_names(toks, it):
    """self type last ident and trait last ident of an impl header"""
    j = it.head + 1
    if toks[j].t == "<": j = skip_generics(toks, j)
    parts, cur = [], []
    depth = 0
    while j < it.sig_end:
        t = toks[j].t
        if t == "for" : parts.append(cur); cur = []
        elif t == "where": break
        else: cur.append(j)
        j += 1
    parts.append(cur)
    def lastname(idx):
        name, d = None, 0
        for q in idx:
            t = toks[q].t
            if t == "<": d += 1
            elif t == ">": d -= 1
            elif t == ">>": d -= 2
            elif d == 0 and toks[q].k == "id" and t not in ("mut", "dyn"): name = t
        return name
    it.self_ty = lastname(parts[-1])
    it.trait = lastname(parts[0]) if len(parts) > 1 else None
    it.trait_full = " ".join(toks[q].t for q in parts[0]) if len(parts) > 1 else None

def is_test_attr(toks, it):
    for a, b in it.attrs:
        s = "".join(t.t for t in toks[a:b])
        if s == "#[cfg(test)]" or "#[test]" == s or s.startswith("#[cfg(all(test"): return True
    return False

class NotFound(Exception):
    pass

def find(toks, path, hi=None):
    """path: 'f' | 'Type::f' | 'Trait for Type::f' | 'mod m::f' ; returns (item, enclosing impl/trait or None)"""
    hi = len(toks) if hi is None else hi
    trait = None
    nested = None
    if ">" in path and " > " in path:
        path, nested = path.split(" > ")
    if " for " in path:
        trait, path = path.split(" for ")
    segs = path.split("::")
    res = []
    def walk(lo, hi, encl):
        for it in parse_items(toks, lo, hi):
            if is_test_attr(toks, it): continue
            if it.kind == "mod" and it.body: walk(it.body[0] + 1, it.body[1], None)
            if len(segs) == 1:
                if it.kind in ("fn", "struct", "enum", "const", "type", "static", "trait", "macro") and it.name == segs[0] and encl is None:
                    res.append((it, None))
            elif it.kind == "impl" and it.self_ty == segs[0] and it.body and (trait is None and it.trait is None or trait is not None and (it.trait == trait or (it.trait_full or "").replace(" ", "") == trait.replace(" ", ""))):
                for sub in parse_items(toks, it.body[0] + 1, it.body[1]):
                    if sub.name == segs[1] and sub.kind in ("fn", "const", "type") and not is_test_attr(toks, sub):
                        res.append((sub, it))
            elif it.kind == "trait" and it.name == segs[0] and it.body:
                for sub in parse_items(toks, it.body[0] + 1, it.body[1]):
                    if sub.name == segs[1] and sub.kind == "fn": res.append((sub, it))
    walk(0, hi, None)
    if not res: raise NotFound(path)
    it, encl = res[0]
    if nested:
        # nested fn inside body
        j = it.body[0] + 1
        while j < it.body[1]:
            if toks[j].t == "fn" and toks[j + 1].t == nested:
                sub = parse_items(toks, j, it.body[1])[0]
                return sub, None, len(res)
            j += 1
        raise NotFound(path + " > " + nested)
    return it, encl, len(res)

"""Unit expander: turns /verif/units/<name>.vrs into a Verus file whose
executable functions are /repo's own tokens, fetched on every run.

Directives (lines starting with `//@`):
  //@ include NAME            splice /verif/units/NAME verbatim (then expanded)
  //@ rules                   following lines: PATTERN ==> REPLACEMENT, applied
                              to every function extracted after it in this unit
  //@ macro FILE NAME         expand invocations of this macro_rules! macro by its own text
  //@ text                    following lines up to `//@ end`, rules applied
  //@ const FILE PATH         emit a const item (rules applied)
  //@ type FILE NAME          emit a struct/enum without attributes
     sub: attr LINE, rule ...
  //@ fn FILE PATH            emit a function; sub-directives:
       as NAME                rename
       ret NAME               name the return value
       vis pub|none           (default: pub)
       attr LINE              attribute lines in front
       spec                   lines: requires/ensures/decreases
       loop N                 lines: invariant/decreases for the N-th loop (1-based, source order)
       at start|end           ghost lines at start / end of the body
       loopstart N | loopend N | preloop N | postloop N   ghost lines relative to the loop
       before PATTERN | after PATTERN    ghost lines before / after the first
                              statement containing the token pattern  (`#k ` prefix: k-th match, `#all `: each)
       rule PATTERN ==> REPL  local rewrite
       rule1 PATTERN ==> REPL local rewrite applied in one pass after the others
       sig PATTERN ==> REPL   local rewrite on signature tokens only
       nobody                 emit only the signature + `{ unimplemented }` as external_body (TRUSTED)
       end
Every rewrite that fired is logged; nothing else changes (comments/attributes are dropped).
"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rtok
from rtok import lex, Tok, match_close, OPEN, CLOSE

REPO = os.environ.get("VERIF_REPO", "/repo")
UNITS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units")

class Lost(Exception):
    """anchor lost / source not in expected shape -> undecided, never an alarm"""

_cache = {}
def tokens(file):
    if file not in _cache:
        p = os.path.join(REPO, file)
        try:
            _cache[file] = lex(open(p, encoding="utf-8").read())
        except FileNotFoundError:
            raise Lost("file missing: " + file)
        except (rtok.LexError, IndexError, ValueError) as e:
            raise Lost(f"cannot lex {file}: {e}")
    return _cache[file]

# ---------- patterns ----------
def lexpat(s):
    # $name  -> one token tree ; $name.. -> balanced run (lazy) ; rest literal tokens
    parts, out = re.split(r"(\$[A-Za-z_0-9]+(?:\.\.)?)", s), []
    for p in parts:
        if p.startswith("$") and len(p) > 1:
            if p.endswith(".."): out.append(("run", p[1:-2]))
            else: out.append(("one", p[1:]))
        else:
            for t in lex(p): out.append(("lit", t.t))
    return out

def match_at(toks, i, pat, hi):
    """returns (end, binds) or None"""
    def rec(i, k, b):
        if k == len(pat): return i, b
        kind, v = pat[k]
        if kind == "lit":
            if i < hi and toks[i].t == v: return rec(i + 1, k + 1, b)
            return None
        if kind == "one":
            if i >= hi or (toks[i].k == "p" and toks[i].t in CLOSE): return None
            e = match_close(toks, i) + 1 if toks[i].k == "p" and toks[i].t in OPEN else i + 1
            if v in b and [t.t for t in b[v]] != [t.t for t in toks[i:e]]: return None
            return rec(e, k + 1, {**b, v: toks[i:e]})
        j = i
        while True:
            r = rec(j, k + 1, {**b, v: toks[i:j]})
            if r: return r
            if j >= hi or (toks[j].k == "p" and toks[j].t in CLOSE): return None
            j = match_close(toks, j) + 1 if toks[j].k == "p" and toks[j].t in OPEN else j + 1
    return rec(i, 0, {})

def subst(repl, binds, ws):
    out = []
    parts = re.split(r"(\$[A-Za-z_0-9]+(?:\.\.)?)", repl)
    for p in parts:
        if p.startswith("$") and len(p) > 1 and p[1:].rstrip(".") in binds:
            b = binds[p[1:].rstrip(".")]
            out += [Tok(t.t, t.k, t.s, t.e, t.ws) for t in b]
            continue
        for t in lex(p): out.append(Tok(t.t, t.k, -1, -1, t.ws))
    if out: out[0].ws = ws or " "
    return out

def apply_rules(toks, rules, log):
    toks = list(toks)
    for (pat, repl, raw) in rules:
        i, n = 0, 0
        out = []
        while i < len(toks):
            m = match_at(toks, i, pat, len(toks))
            if m and m[0] > i:
                out += subst(repl, m[1], toks[i].ws); n += 1
                i = m[0]
            else:
                out.append(toks[i]); i += 1
        if n: log.append(f"{n}x {raw.strip()}")
        toks = out
    return toks

def apply_rules_deep(toks, rules, log):
    # repeat until no rule fires (nested occurrences), at most 6 rounds
    for _ in range(6):
        l2 = []
        new = apply_rules(toks, rules, l2)
        if not l2: break
        log += l2
        toks = new
        if all(" ==>! " not in x for x in l2): pass
    return toks

def parse_rule(line):
    if "==>" not in line: raise ValueError("bad rule: " + line)
    a, b = line.split("==>", 1)
    return (lexpat(a.strip()), b.strip(), line)

# ---------- rendering ----------
def render(toks):
    out = []
    for t in toks:
        if t.k == "ghost":
            out.append("\n" + t.t + "\n")
        else:
            ws = t.ws
            if not ws and out and out[-1] and (out[-1][-1].isalnum() or out[-1][-1] == "_") and (t.t[:1].isalnum() or t.t[:1] == "_"): ws = " "
            out.append(ws + t.t)
    s = "".join(out)
    return s

def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t in ("[", "!"):
            i = rtok.attr_end(toks, i); continue
        out.append(toks[i]); i += 1
    return out

def loops(body):
    """indices (kw, open brace, close brace) of loops in source order"""
    res = []
    for i, t in enumerate(body):
        if t.k == "id" and t.t in ("while", "for", "loop"):
            if t.t == "for" and i + 1 < len(body) and body[i + 1].t == "<": continue
            j = i + 1
            while j < len(body) and body[j].t != "{":
                if body[j].t in ("(", "["): j = match_close(body, j)
                j += 1
            if j < len(body): res.append((i, j, match_close(body, j)))
    return res

def stmt_bounds(toks, i, lo, hi):
    """start and end of the innermost statement containing token i"""
    # find enclosing brace
    d, s = 0, i
    while s > lo:
        t = toks[s - 1]
        if t.k == "p":
            if t.t in CLOSE:
                # a closed brace group at depth 0 directly before -> could be previous statement end
                if d == 0 and t.t == "}" :
                    # previous block statement ends here unless part of expression
                    if not (toks[s].t in (".", "?", "else", ")", ",", ";") or False): break
                d += 1
            elif t.t in OPEN:
                if d == 0:
                    if t.t == "{": break
                    s -= 1; continue
                d -= 1
            elif t.t in (";",) and d == 0: break
        if t.k == "ghost" and d == 0: break
        s -= 1
    e, d = i, 0
    # forward to ';' at depth of statement or closing of enclosing brace
    # compute depth relative to statement start
    j = s; depth = 0
    while j < hi:
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN: depth += 1
            elif t.t in CLOSE:
                depth -= 1
                if depth < 0: return s, j
                if depth == 0 and t.t == "}" and j >= i:
                    nx = toks[j + 1].t if j + 1 < hi else "}"
                    if nx not in (".", "?", "else", ";", ")", ",", "as", "==", "!=", "+", "-", "&&", "||"):
                        return s, j + 1
            elif t.t == ";" and depth == 0 and j >= i: return s, j + 1
        j += 1
    return s, hi

def ghost(text):
    return Tok(text, "ghost", -1, -1, "\n")

class Fn:
    pass

def expand(name, vacuity=False):
    """returns (text, info) ; info: functions, rewrites, trusted, files"""
    info = dict(functions=[], rewrites=[], files=set(), types=[])
    lines = load(name)
    out, rules, saved = [], [], []
    i = 0
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        if not st.startswith("//@"):
            out.append(ln); i += 1; continue
        cmd = st[3:].strip()
        if cmd == "scope":  # rules up to `end scope` are dropped there
            saved.append(list(rules)); i += 1; continue
        if cmd == "end scope":
            rules = saved.pop(); i += 1; continue
        if cmd == "rules":
            i += 1
            while i < len(lines) and not lines[i].strip().startswith("//@"):
                if lines[i].strip() and not lines[i].strip().startswith("//"): rules.append(parse_rule(lines[i]))
                i += 1
            if i < len(lines) and lines[i].strip() == "//@ end": i += 1
            continue
        if cmd.startswith("macro "):
            _, file, mname = cmd.split()
            rules.append(macro_rule(file, mname, info)); i += 1
            continue
        if cmd == "text":
            seg = []
            i += 1
            while lines[i].strip() != "//@ end": seg.append(lines[i]); i += 1
            i += 1
            log = []
            toks = apply_rules_deep(lex("\n".join(seg)), rules, log)
            for l in log: info["rewrites"].append(f"text: {l}")
            out.append(render(toks))
            continue
        if cmd.startswith(("fn ", "type ", "const ")):
            kind, file, path = cmd.split(None, 2)
            subs, cur = [], None
            i += 1
            if kind == "const" or (kind == "type" and not (i < len(lines) and lines[i].strip().startswith("//@ ") and lines[i].strip()[4:].split()[0] in ("attr", "rule", "vis"))):
                out.append(emit_simple(kind, file, path, [], rules, info)); continue
            while True:
                if i >= len(lines): raise ValueError(f"unterminated {cmd} in {name}")
                s2 = lines[i].strip()
                if s2 == "//@ end": i += 1; break
                if s2.startswith("//@"):
                    cur = [s2[3:].strip(), []]; subs.append(cur)
                elif cur is not None: cur[1].append(lines[i])
                elif s2: raise ValueError("text before sub-directive: " + s2)
                i += 1
            if kind == "type": out.append(emit_simple(kind, file, path, subs, rules, info))
            else: out.append(emit_fn(file, path, subs, rules, info, vacuity))
            continue
        raise ValueError("unknown directive: " + st)
    return "\n".join(out), info

def load(name):
    res = []
    for ln in open(os.path.join(UNITS, name), encoding="utf-8").read().split("\n"):
        if ln.strip().startswith("//@ include "):
            # `//@ include FILE assumed UNIT`: the contracts only; their bodies are verified in UNIT
            w = ln.strip().split()
            sub = load(w[2])
            if len(w) > 3 and w[3] == "assumed":
                for l in sub:
                    res.append(l)
                    if l.strip().startswith("//@ fn "): res.append("//@ nobody " + w[4])
            else: res += sub
        else: res.append(ln)
    return res

def macro_rule(file, name, info):
    """the one arm of macro_rules! NAME, as a rewrite of its invocations ($crate:: dropped)"""
    toks = tokens(file)
    info["files"].add(file)
    for k in range(len(toks) - 4):
        if toks[k].t == "macro_rules" and toks[k + 1].t == "!" and toks[k + 2].t == name:
            o = k + 3; e = match_close(toks, o); a = o + 1
            pe = match_close(toks, a)
            if [t.t for t in toks[pe + 1:pe + 3]] not in (["=>", "{"], ["=", ">"]): raise Lost(f"{file}: macro {name}: unexpected arm")
            b = pe + 2 if toks[pe + 1].t == "=>" else pe + 3
            be = match_close(toks, b)
            if any(t.t not in (";",) for t in toks[be + 1:e]): raise Lost(f"{file}: macro {name} has more than one arm")
            params = []; pats = []; q = a + 1
            while q < pe:
                # `$($body:tt)+` at the end: the rest of the invocation
                if toks[q].t == "$" and toks[q + 1].t == "(" and [t.t for t in toks[q + 2:q + 8]] == ["$", toks[q + 3].t, ":", "tt", ")", "+"] and q + 8 == pe:
                    pats.append(f"${toks[q + 3].t}.."); params.append(None); q += 8; continue
                if toks[q].t == "$" and toks[q + 2].t == ":": pats.append(f"${toks[q + 1].t}..")
                elif toks[q].t == "&" and toks[q + 1].t == "mut": pats.append("&mut"); q += 2; continue
                if toks[q].t == "$" and toks[q + 2].t == ":": params.append(toks[q + 1].t); q += 4
                elif toks[q].t == ",": q += 1
                else: raise Lost(f"{file}: macro {name}: unexpected matcher")
            body = strip_attrs(toks[b + 1:be]); txt = render(body)
            txt = re.sub(r"\$\s*crate\s*::", "", txt)
            txt = re.sub(r"\$\s*(\w+)", lambda m: "$" + m.group(1), txt)
            txt = re.sub(r"\$\s*\(\s*(\$\w+)\s*\)\s*\+", r"\1", txt)
            pat = f"{name}!(" + ", ".join(pats).replace("&mut, ", "&mut ") + ")"
            info["rewrites"].append(f"macro {name}: expanded from {file}")
            return parse_rule(pat + " ==> " + txt.replace("\n", " "))
    raise Lost(f"{file}: no macro {name}")

def locate(file, path):
    toks = tokens(file)
    try:
        it, encl, n = rtok.find(toks, path)
    except rtok.NotFound:
        raise Lost(f"{file}: no item {path}")
    except (rtok.LexError, IndexError) as e:
        raise Lost(f"{file}: {e}")
    return toks, it, encl

def emit_simple(kind, file, path, subs, rules, info):
    toks, it, encl = locate(file, path)
    info["files"].add(file)
    seg = strip_attrs(toks[it.start:it.end])
    log, attrs, local = [], [], list(rules)
    for d, ls in subs:
        if d.startswith("attr "): attrs.append(d[5:])
        elif d.startswith("rule "): local.append(parse_rule(d[5:]))
    seg = apply_rules_deep(seg, local, log)
    # make everything pub
    if seg[0].t == "pub":
        seg = seg[1:] if seg[1].t != "(" else seg[match_close(seg, 1) + 1:]
    txt = render(seg)
    if kind == "type":
        txt = re.sub(r"pub\s*\(\s*(?:crate|super)\s*\)", "pub", txt)
        if seg[0].t == "struct":
            txt = pubfields(txt)
    info["types"].append(f"{file}::{path}")
    for l in log: info["rewrites"].append(f"{path}: {l}")
    return "\n".join(attrs) + "\npub " + txt.lstrip() + "\n"

def pubfields(txt):
    m = re.search(r"[\{\(]", txt)
    if not m: return txt
    head, op, body = txt[:m.start()], txt[m.start()], txt[m.start() + 1:]
    cl = "}" if op == "{" else ")"
    k = body.rindex(cl)
    inner, tail = body[:k], body[k:]
    parts, d, cur = [], 0, ""
    prev = ""
    for c in inner:
        if c in "<([{": d += 1
        elif c in ">)]}" and not (c == ">" and prev == "-"): d -= 1
        prev = c
        if c == "," and d == 0: parts.append(cur); cur = ""
        else: cur += c
    if cur.strip(): parts.append(cur)
    res = []
    for p in parts:
        q = p.strip()
        if q and not q.startswith("pub"): q = "pub " + q
        res.append(q)
    return head + op + "\n" + ",\n".join(res) + "\n" + tail

def emit_fn(file, path, subs, rules, info, vacuity):
    toks, it, encl = locate(file, path)
    if it.kind != "fn" or it.body is None: raise Lost(f"{file}: {path} is not a function with a body")
    info["files"].add(file)
    log = []
    opts = dict(as_=None, ret=None, vis="pub", attrs=[], spec=[], nobody=False, sig=[])
    local, loopspec, ghosts, once = list(rules), {}, [], []
    for d, ls in subs:
        w = d.split(None, 1); k = w[0]; arg = w[1] if len(w) > 1 else ""
        if k == "as": opts["as_"] = arg
        elif k == "ret": opts["ret"] = arg
        elif k == "vis": opts["vis"] = "" if arg == "none" else arg
        elif k == "attr": opts["attrs"].append(arg)
        elif k == "spec":
            if arg: raise ValueError("spec text goes on the following lines")
            opts["spec"] += ls
        elif k == "nobody": opts["nobody"] = arg or True
        elif k == "rule": local.append(parse_rule(arg))
        elif k == "rulefirst": local.insert(0, parse_rule(arg))
        elif k == "rule1": once.append(parse_rule(arg))
        elif k == "sig": opts["sig"].append(parse_rule(arg))
        elif k == "loop": loopspec[int(arg)] = ls
        elif k in ("at", "loopstart", "loopend", "preloop", "postloop", "before", "after"):
            if k == "at" and arg not in ("start", "end"): raise ValueError("bad position " + d)
            ghosts.append((k, arg, ls))
        else: raise ValueError("unknown sub-directive " + d)
    name = opts["as_"] or it.name
    # --- signature ---
    sig = strip_attrs(toks[it.kw_at:it.sig_end])
    sig = apply_rules(sig, opts["sig"], log)
    sig = apply_rules_deep(sig, local, log)
    if opts["as_"]:
        sig[1] = Tok(name, "id", -1, -1, " ")
    # where clause / return naming
    if opts["ret"]:
        d = 0; arrow = None
        j = 2
        if sig[j].t == "<": j = rtok.skip_generics(sig, j)
        j = match_close(sig, j) + 1
        if j < len(sig) and sig[j].t == "->":
            arrow = j
            e = j + 1
            while e < len(sig) and sig[e].t != "where":
                e += 1
            rt = sig[arrow + 1:e]
            sig = sig[:arrow + 1] + [Tok(f"({opts['ret']}:", "id", -1, -1, " ")] + rt + [Tok(")", "p", -1, -1, "")] + sig[e:]
        else: raise Lost(f"{path}: no return type")
    sigtxt = render(sig).lstrip()
    src_line = 1 + 0
    head = "".join("    " + a + "\n" for a in opts["attrs"]) + (opts["vis"] + " " if opts["vis"] else "") + sigtxt
    spec = "\n".join(opts["spec"])
    if opts["nobody"]:
        info["functions"].append(dict(name=name, path=path, file=file, trusted=True))
        why = f" /* contract verified in unit {opts['nobody']} */" if opts["nobody"] is not True else ""
        return f"#[verifier::external_body]{why}\n{head}\n{spec}\n{{ unimplemented!() }}\n"
    body = strip_attrs(toks[it.body[0]:it.body[1] + 1])
    body = apply_rules_deep(body, local, log)
    body = apply_rules(body, once, log)
    for l in log: info["rewrites"].append(f"{path}: {l}")
    # --- ghost inserts: positions computed on the rewritten body ---
    ins = []  # (index, order, ghost)
    lp = loops(body)
    need = max([0] + list(loopspec) + [int(a) for k, a, _ in ghosts if k in ("loopstart", "loopend", "preloop", "postloop")])
    if need > len(lp) or (loopspec and len(loopspec) != len(lp)):
        raise Lost(f"{path}: expected loops {sorted(loopspec)}, found {len(lp)}")
    for n, ls in loopspec.items():
        ins.append((lp[n - 1][1], 5, "\n".join(ls)))
    for k, a, ls in ghosts:
        g = "\n".join(ls)
        if k == "at":
            if a == "start": ins.append((1, 0, g))
            else:
                ins.append((len(body) - 1, 9, g))
        elif k == "loopstart": ins.append((lp[int(a) - 1][1] + 1, 0, g))
        elif k == "loopend": ins.append((lp[int(a) - 1][2], 9, g))
        elif k == "preloop":
            s, e = stmt_bounds(body, lp[int(a) - 1][0], 1, len(body) - 1); ins.append((s, 3, g))
        elif k == "postloop": ins.append((lp[int(a) - 1][2] + 1, 3, g))
        else:
            kth = 1
            m = re.match(r"#(\d+|all)\s+", a)
            if m: kth = 0 if m.group(1) == "all" else int(m.group(1)); a = a[m.end():]
            pat = lexpat(a)
            hits = []
            for q in range(1, len(body) - 1):
                mm = match_at(body, q, pat, len(body) - 1)
                if mm and mm[0] > q: hits.append(q)
            if len(hits) < max(kth, 1): raise Lost(f"{path}: anchor `{a}` not found")
            for q in (hits if kth == 0 else [hits[kth - 1]]):
                s, e = stmt_bounds(body, q, 1, len(body) - 1)
                ins.append((s if k == "before" else e, 3, g))
    if vacuity:
        ins.append((1, 0.5, "proof { assert(false); } /*VAC*/"))
    ins.sort(key=lambda x: (x[0], x[1]))
    out, p = [], 0
    for idx, _, g in ins:
        out += body[p:idx]; out.append(ghost(g)); p = idx
    out += body[p:]
    info["functions"].append(dict(name=name, path=path, file=file, trusted=False, loops=len(lp)))
    return f"{head}\n{spec}\n{render(out).lstrip()}\n"

if __name__ == "__main__":
    txt, info = expand(sys.argv[1], vacuity="--vac" in sys.argv)
    print(txt)
    print("//", info, file=sys.stderr)

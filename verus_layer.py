"""Deductive verification of functions of /repo by Verus, for all inputs and all
iterations.

A template in verus/ carries the contracts; the code is taken from /repo's
current sources on every run, by name and matching braces. What the extraction
changes, and nothing else:

* comments, attributes and visibility are dropped (all items become `pub`; field
  enums get `derive(PartialEq, Eq, Structural)`, which Verus needs for `==`);
* methods of the trait impls Read and Write become inherent methods;
* the textual substitutions a template lists (`//@subst`), each of which names a
  std or dependency item by a local stand-in with an assumed contract;
* contracts are put between signature and body, loop invariants between the loop
  header and its body (`for x in e` becomes `for x in it: e`, or, where the
  template says `desugared-for`, the `loop { match it.next() .. }` it stands
  for, where it says `indexed-for`, a loop over the indices of the slice), proof
  code where the template says so. Proof code is ghost: it is erased when Rust
  compiles it;
* iterator chains over ranges and slices that end in collect or fold become the
  loops they stand for; a closure for which the template has a contract (`lift`)
  becomes a function of its own;
* a match of a text against literals becomes the comparisons it stands for;
* a trait method that an impl does not override is the body that the trait provides;
* parameters keep the names of the contract (renamed ones are bound by `let`).

A function that is not found, a changed number or kind of loops, or code outside
the subset of Verus is no verdict (undecided), never an alarm.
"""

import json
import os
import re
import signal
import subprocess
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("UR20_REPO", "/repo")
OUT = os.environ.get("UR20_VERUS_OUT", os.path.join(ROOT, "build", "verus"))

TRUSTED = [
    "Verus 0.2026.09.13 with vstd (its specifications of Vec, slices, Option, Result and iterators) and Z3",
    "the extraction in verus_layer.py (listed in its header; mechanical, redone on every run)",
]


class Lost(Exception):
    pass


def mask(s):
    """Same length, with comments, strings and char literals blanked."""
    out, i, n = list(s), 0, len(s)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        two = s[i:i + 2]
        if two == "//":
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif two == "/*":
            depth, j = 1, i + 2
            while j < n and depth:
                if s[j:j + 2] == "/*":
                    depth, j = depth + 1, j + 2
                elif s[j:j + 2] == "*/":
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            blank(i, j + 1)
            i = j + 1
        elif s[i] == "'":
            m = re.match(r"'(\\[^']*|[^\\'])'", s[i:])
            if m:
                blank(i, i + m.end())
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def closing(m, i):
    """Index of the bracket that closes the one at m[i]."""
    pairs = {"{": "}", "(": ")", "[": "]"}
    o, c, d = m[i], pairs[m[i]], 0
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k
    raise Lost("unbalanced brackets")


def uncomment(s):
    """Drops comments (not strings)."""
    out, i = [], 0
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\[^\']*|[^\\\'])\'', s, re.S):
        out.append(s[i:m.start()])
        if m.group(0)[0] != "/":
            out.append(m.group(0))
        i = m.end()
    out.append(s[i:])
    return "".join(out)


_files = {}


def source(path):
    if path not in _files:
        s = open(os.path.join(REPO, path)).read()
        k = s.find("#[cfg(test)]\nmod ")
        if k >= 0:
            s = s[:k]
        s = uncomment(s)
        _files[path] = (s, mask(s))
    return _files[path]


def blocks(m, header):
    """Brace blocks whose header is the given text, spacing aside."""
    want = re.sub(r"\s+", "", header)
    for x in re.finditer(r"\b%s\b" % re.match(r"\w+", header).group(0), m):
        b = m.find("{", x.start())
        if b > 0 and re.sub(r"\s+", "", m[x.start():b]) == want:
            yield b, closing(m, b)


def get_item(path, kind, name):
    s, m = source(path)
    x = re.search(r"\b%s\s+%s\b" % (kind, name), m)
    if not x:
        raise Lost(f"{kind} {name} not found in {path}")
    b = re.compile(r"[{;]").search(m, x.end()).start()
    if m[b] == ";":
        return "pub " + s[x.start():b + 1]
    e = closing(m, b)
    body = re.sub(r"#\s*\[[^\]]*\]", "", s[b + 1:e])
    if kind == "struct":
        body = re.sub(r"(^|[,{])(\s*)(?:pub(?:\([^)]*\))?\s+)?([A-Za-z_]\w*\s*:)(?!:)", r"\1\2pub \3", body)
        return f"pub struct {name} {{{body}}}"
    plain = not re.search(r"[({]", body)
    copy = ", Clone, Copy" if re.search(r"derive\([^)]*\bCopy\b[^)]*\)\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?$", s[:x.start()]) else ""
    d = f"#[derive(PartialEq, Eq, Structural{copy})]\n" if plain else ""
    return f"{d}pub enum {name} {{{body}}}"


def get_fn(path, where, name):
    """-> parameters, return type, body"""
    s, m = source(path)
    scopes = list(blocks(m, where)) if where != "-" else [(-1, len(m))]
    if not scopes:
        raise Lost(f"{where} not found in {path}")
    for b, e in scopes:
        for x in re.finditer(r"\bfn\s+%s\s*(?:<[^>(]*>)?\s*\(" % name, m[b + 1:e]):
            at = b + 1 + x.start()
            # only functions of this scope, not of nested ones
            seg = m[b + 1:at]
            if seg.count("{") != seg.count("}"):
                continue
            p = b + 1 + x.end() - 1
            q = closing(m, p)
            o = m.find("{", q)
            c = closing(m, o)
            ret = s[q + 1:o].strip()
            ret = ret[2:].strip() if ret.startswith("->") else None
            gen = re.match(r"fn\s+%s\s*(<[^>(]*>)?" % name, s[at:p]).group(1) or ""
            return gen, s[p + 1:q], ret, s[o + 1:c]
    raise Lost(f"fn {name} not found in {where} of {path}")


def loops(body):
    """-> [(start of the keyword, kind, index of the iterated expression, index of '{')]"""
    m = mask(body)
    found = []
    for x in re.finditer(r"\b(for|while|loop)\b", m):
        if x.group(1) == "for" and m[x.end():].lstrip().startswith("<"):
            continue
        k, d, inpos = x.end(), 0, None
        while k < len(m):
            ch = m[k]
            if ch in "([":
                d += 1
            elif ch in ")]":
                d -= 1
            elif ch == "{" and d == 0:
                break
            elif d == 0 and inpos is None and x.group(1) == "for" and re.match(r"\bin\b", m[k:]) and m[k - 1].isspace():
                inpos = k + 2
            k += 1
        found.append((x.start(), x.group(1), inpos, k))
    return found


def back(m, k):
    """Start of the postfix expression that ends before m[k]."""
    while True:
        while k > 0 and m[k - 1].isspace():
            k -= 1
        if k > 0 and m[k - 1] in ")]":
            d, o = 0, {")": "(", "]": "["}
            c = m[k - 1]
            while True:
                k -= 1
                d += (m[k] == c) - (m[k] == o[c])
                if d == 0:
                    break
            while k > 0 and m[k - 1].isspace():
                k -= 1
        x = re.search(r"[A-Za-z_][\w:]*\s*$", m[:k])
        if x:
            k = x.start()
        y = re.search(r"\.\s*$", m[:k])
        if not y:
            # a parenthesis or a name without a dot in front of it is the start
            while k < len(m) and m[k].isspace():
                k += 1
            return k
        k = y.start()


def calls(s):
    """`start.f(a)::<T>.g(b)` -> start, [(name, turbofish, arguments)]"""
    m, out, head, k = mask(s), [], None, 0
    while k < len(s):
        x = re.compile(r"\s*\.\s*(\w+)\s*(::\s*<)?").match(m, k)
        if x and head is None:
            y = re.compile(r"\s*\.\s*\w+\s*(\(|::)").match(m, k)
            if y:
                head = s[:k]
        if head is None:
            k = closing(m, k) + 1 if m[k] in "([" else k + 1
            continue
        if not x:
            raise Lost("iterator chain: " + s[k:k + 40])
        k, fish = x.end(), ""
        if x.group(2):
            d, a = 1, k
            while d:
                d += (m[k] == "<") - (m[k] == ">")
                k += 1
            fish = s[a:k - 1]
        while m[k].isspace():
            k += 1
        e = closing(m, k)
        out.append((x.group(1), fish, s[k + 1:e].strip()))
        k = e + 1
    return head, out


def element(head, chain):
    """Source of an iterator chain -> number of elements, element n_, calls left"""
    names = [c[0] for c in chain]
    h = re.sub(r"\s*\.\s*(?=[A-Za-z_])", ".", head.strip())
    r = re.fullmatch(r"\((.*)\.\.(=?)(.*)\)", h, re.S)
    if r and not r.group(2):
        if r.group(1).strip() != "0":
            raise Lost("range from " + r.group(1))
        return r.group(3).strip(), "n_", chain
    if names[:2] == ["iter", "enumerate"]:
        return h + ".len()", f"(n_, &{h}[n_])", chain[2:]
    if names[:3] == ["iter", "zip", "enumerate"]:
        other = re.sub(r"^&\s*|\.iter\(\)$", "", chain[1][2])
        return f"min_({h}.len(), {other}.len())", f"(n_, (&{h}[n_], &{other}[n_]))", chain[3:]
    if names[:2] == ["iter", "zip"]:
        other = re.sub(r"^&\s*|\.iter\(\)$", "", chain[1][2])
        return f"min_({h}.len(), {other}.len())", f"(&{h}[n_], &{other}[n_])", chain[2:]
    if names[:2] == ["chunks_exact", "take"]:
        n = chain[0][2]
        h = h.strip("&")
        x = re.fullmatch(r"(\w+)\s*\[\s*(\d+)\s*\.\.\s*\]", h)
        v, a = (x.group(1), x.group(2)) if x else (h, "0")
        return f"min_(({v}.len() - {a}) / {n}, {chain[1][2]})", f"slice_subrange({v}, {a} + n_ * {n}, {a} + n_ * {n} + {n})", chain[2:]
    if names[:1] == ["iter"]:
        return h + ".len()", f"&{h}[n_]", chain[1:]
    raise Lost("iterator over " + h + "." + ".".join(names))


def bind(pattern, value):
    """`let pattern = value;` without reference patterns"""
    p = pattern.strip()
    if p.startswith("&"):
        return f"let {p[1:].strip()} = *{value};"
    if p.startswith("("):
        parts = [x.strip() for x in p[1:-1].split(",") if x.strip()]
        if not any("(" in x for x in parts):
            s = "let (" + ", ".join(f"r_{x[1:].strip()}" if x.startswith("&") else x for x in parts) + f") = {value};"
            return s + "".join(f" let {x[1:].strip()} = *r_{x[1:].strip()};" for x in parts if x.startswith("&"))
    return f"let {p} = {value};"


def deref(pattern, value, blk):
    """An element that is a reference, as an operand of integer arithmetic"""
    p = pattern.strip()
    if value.startswith("&") and re.fullmatch(r"\w+", p):
        blk = re.sub(r"(?<![\w.*&])%s(?=\s*(?:&(?!&)|>>|<<|\+|-|\|(?!\|)|/|%%|\^)\s*[\w(])" % p, f"(*{p})", blk)
    return blk


def closure(arg):
    x = re.match(r"\|((?:[^|])*)\|", arg)
    return (x.group(1).strip(), arg[x.end():].strip().rstrip(",")) if x else (None, arg.strip().rstrip(","))


def escapes(b):
    return bool(re.search(r"\breturn\b|\?", mask(b)))


def text_match(body):
    """A match of a text against literals, as the comparisons it stands for"""
    while True:
        m = mask(body)
        for x in re.finditer(r"\bmatch\b", m):
            o, d = x.end(), 0
            while m[o] != "{" or d:
                d += (m[o] in "([") - (m[o] in ")]")
                o += 1
            c = closing(m, o)
            if re.match(r"\s*\"", body[o + 1:c]):
                break
        else:
            return body
        scrutinee = re.sub(r"^(&\s*)?\*?\s*|\s*\.\s*as_(str|ref)\(\)\s*$", "", body[x.end():o].strip())
        text, k = f"{{ let t_ = {scrutinee}; ", o + 1
        last = False
        while body[k:c].strip():
            a = m.index("=>", k)
            pat = body[k:a].strip()
            k = a + 2
            while m[k].isspace():
                k += 1
            if m[k] == "{":
                e = closing(m, k) + 1
                value = body[k:e]
                k = e + len(re.match(r"\s*,?", m[e:c]).group(0))
            else:
                e, d = k, 0
                while e < c and (m[e] != "," or d):
                    d += (m[e] in "([{") - (m[e] in ")]}")
                    e += 1
                value, k = "{ " + body[k:e].strip() + " }", e + 1
            if last:
                raise Lost("match of a text: arm behind the last")
            if pat == "_":
                text += value
                last = True
            else:
                lits = re.findall(r'"(?:\\.|[^"\\])*"', pat)
                if not lits or re.sub(r'"(?:\\.|[^"\\])*"|\||\s', "", pat):
                    raise Lost("match of a text: " + pat)
                text += "if " + " || ".join(f"t_.same_({n})" for n in lits) + f" {value} else "
        if not last:
            raise Lost("match of a text without `_`")
        body = body[:x.start()] + text + " }" + body[c + 1:]


def desugar(name, ret, body, lifts):
    """Iterator chains over ranges and slices that end in collect or fold, as the
    loops they stand for (`n_` counts the elements, `out_` collects them). A closure
    for which the contract has a `closure` section becomes a function of its own."""
    funcs, k = [], 0
    # array patterns: `let [a, b] = e;`
    while True:
        m = mask(body)
        x = re.search(r"\blet\s*\[([\w\s,]*)\]\s*=\s*([^;]*);", m)
        if not x:
            break
        names = [n.strip() for n in x.group(1).split(",") if n.strip()]
        body = (body[:x.start()] + f"let a_ = {body[x.start(2):x.end(2)]};"
                + "".join(f" let {n} = a_[{i}];" for i, n in enumerate(names) if n != "_") + body[x.end():])
    while True:
        m = mask(body)
        hits = [x for x in re.finditer(r"\.\s*(collect|fold)\b", m)]
        if not hits:
            return funcs, body
        x = hits[-1]
        a = back(m, x.start())
        e = m.index("(", x.end() if m[x.end()] != ":" else m.index(">(", x.end()))
        e = closing(m, e) + 1
        head, chain = calls(body[a:e])
        count, elem, rest = element(head, chain)
        last, fish, arg = rest.pop()
        if last == "fold":
            i = 0
            am = mask(arg)
            d = 0
            while not (am[i] == "," and d == 0):
                d += (am[i] in "([{") - (am[i] in ")]}")
                i += 1
            pat, blk = closure(arg[i + 1:].strip())
            acc, el = pat.split(",", 1)
            blk = deref(el, elem, blk)
            if rest or escapes(blk):
                raise Lost(f"{name}: fold")
            text = (f"{{ let mut out_ = {arg[:i]}; for n_ in 0..{count} {{ {bind(el, elem)} out_ = {{ let {acc.strip()} = out_; {blk} }}; }} out_ }}")
            body = body[:a] + text + body[e:]
            continue
        before, after = body[:a].rstrip(), body[e:].strip()
        result = bool(re.match(r"Result\b", fish) or re.search(r"\blet\s+\w+\s*:\s*Result\s*<[^;=]*=$", before)
                      or (not fish and (not after or before.endswith("return") ) and (ret or "").startswith("Result") and not re.search(r"=$", before)))
        of = f": Vec<{lifts['elem %d' % k]}>" if f"elem {k}" in lifts else ""
        steps, value = f"let a_ = {elem};", "a_"
        for j, (what, _, arg) in enumerate(rest):
            if what != "map":
                raise Lost(f"{name}: {what} in an iterator chain")
            pat, blk = closure(arg)
            lift = lifts.get(f"{k}.{j}")
            if pat is None:
                value = f"{blk}({value})"
            elif lift:
                params = lift["params"]
                own = [p.split(":")[0].strip() for p in params.split(";")]
                blk = re.sub(r"\bself\b", "self_", blk)
                own = [re.sub(r"^self_$", "self", p) for p in own[:-1]] + own[-1:]
                funcs.append(("#[verifier::external_body]\n" if lift.get("taken") else "") + f"pub fn {lift['name']}({params.replace(';', ',')}) -> (r: {lift['ret']})\n" + "\n".join(lift["spec"])
                             + "\n{\n" + ("unimplemented!()" if lift.get("taken") else "\n".join(lift["start"]) + "\n" + bind(pat, own[-1]) + "\n" + blk) + "\n}\n")
                value = f"{lift['name']}({', '.join(own[:-1] + [value])})"
            else:
                if escapes(blk):
                    raise Lost(f"{name}: closure {k}.{j} may return, and has no contract")
                value = f"{{ {bind(pat, value)} {blk} }}"
            steps += f" let a_ = {value};"
            value = "a_"
        if result:
            text = (f"{{ let mut out_{of} = Vec::new(); let mut err_: Option<Error> = None; for n_ in 0..{count} {{ if err_.is_none() {{ {steps} "
                    "match a_ { Ok(x_) => { out_.push(x_); } Err(e_) => { err_ = Some(e_); } } } } match err_ { None => Ok(out_), Some(e_) => Err(e_) } }")
        else:
            text = f"{{ let mut out_{of} = Vec::new(); for n_ in 0..{count} {{ {steps} out_.push(a_); }} out_ }}"
        body = body[:a] + text + body[e:]
        k += 1


def parameters(params):
    """-> [(mut, name, type)] of a parameter list"""
    out, d, a = [], 0, 0
    m = mask(params) + ","
    for i, ch in enumerate(m):
        d += (ch in "([{<") - (ch in ")]}" or (ch == ">" and m[i - 1] != "-"))
        if ch == "," and d == 0:
            t = params[a:i].strip()
            a = i + 1
            x = re.match(r"(mut\s+)?(\w+)\s*:\s*(.*)$", t, re.S)
            if x:
                out.append((x.group(1) or "", x.group(2), x.group(3)))
            elif t:
                out.append(("", "", t))
    return out


def build_fn(path, where, name, spec, subst, assumed=False, lifted=None):
    provided = [ln.split(None, 3)[1:] for ln in spec if ln.split()[:1] == ["provided"]]
    try:
        got = get_fn(path, where, name)
    except Lost:
        if not provided or not list(blocks(source(path)[1], where)):
            raise
        # the trait's own body
        got = get_fn(provided[0][0], " ".join(provided[0][1:]), name)
    gen, params, ret, body = (subst(x) for x in got)
    rename = name
    sections = {"spec": [], "start": [], "loops": {}}
    cur, loop, lifts, lift, public, attr = sections["spec"], None, {}, None, "pub ", ""
    for line in spec:
        t = line.strip()
        f = t.split()
        if f[:1] == ["lift"]:
            # the closure of a map: chain.map :: name :: parameters (; between them) :: result
            which, lname, lparams, lret = (x.strip() for x in t[4:].split(" :: "))
            lift = lifts[which] = {"name": lname, "params": lparams, "ret": lret, "spec": [], "start": []}
            cur, loop = lift["spec"], None
        elif t == "start" and lift:
            cur = lift["start"]
        elif t == "end-lift":
            lift, cur = None, sections["spec"]
        elif f[:1] == ["elem"]:
            # the type of the elements that a chain collects
            lifts["elem " + f[1]] = t.split("::", 1)[1].strip()
        elif t == "of-trait":
            public = ""
        elif f[:1] == ["provided"]:
            pass
        elif t == "taken":
            # the contract is taken without proof
            if lift:
                lift["taken"] = True
            else:
                assumed = True
        elif t == "whole":
            # loops see what is known before them
            attr = "#[verifier::loop_isolation(false)]\n"
        elif f[:1] == ["params"]:
            # the names that the contract uses; the code may call them otherwise
            now = parameters(params)
            if [n for _, n, _ in now if n] != f[1:]:
                if len([n for _, n, _ in now if n]) != len(f) - 1:
                    raise Lost(f"{name}: parameters changed")
                it = iter(f[1:])
                own, lets = [], []
                for mu, n, ty in now:
                    o = next(it) if n else ""
                    own.append(f"{o}: {ty}" if n else ty)
                    if n and (o != n or mu):
                        lets.append(f"let {mu}{n} = {o};")
                params = ", ".join(own)
                body = " ".join(lets) + body
        elif t == "start":
            cur = sections["start"]
        elif f[:1] == ["as"]:
            rename = f[1]
        elif f[:1] == ["loop"]:
            # by position, or by a pattern in the loop's header
            key = int(f[1]) if f[1].isdigit() else f[1]
            loop = sections["loops"].setdefault(key, {"kind": f[2] if len(f) > 2 else "for"})
            cur = loop.setdefault("invariant", [])
        elif t == "after-loops":
            cur, loop = sections.setdefault("after-loops", []), None
        elif loop is not None and f[:1] and f[0] in ("before", "invariant", "ensures", "decreases", "enter", "leave", "after"):
            cur = loop.setdefault(f[0], [])
            r = t[len(f[0]):].strip()
            if r:
                cur.append(r)
        else:
            cur.append(line)
    out = f"{public}fn {rename}{gen}({params})"
    if ret:
        out += f" -> (r: {ret})"
    if assumed:
        # the contract alone: this function is undecided, its callers are not
        return rename, "#[verifier::external_body]\n" + out + "\n" + "\n".join(sections["spec"]) + "\n{ unimplemented!() }\n"
    funcs, body = desugar(name, ret, text_match(body), lifts)
    found = loops(body)
    if len(found) != len(sections["loops"]):
        raise Lost(f"{name}: {len(found)} loops in the code, {len(sections['loops'])} in the contract")
    place = {}
    for key in sections["loops"]:
        if isinstance(key, str):
            hits = [k for k, (at, _, _, o) in enumerate(found) if re.search(key[1:], body[at:o].strip())]
            if len(hits) != 1:
                raise Lost(f"{name}: {len(hits)} loops over {key[1:]}")
            place[hits[0]] = key
    for key in sections["loops"]:
        if isinstance(key, int):
            if key in place:
                raise Lost(f"{name}: loop {key} is the one over {place[key][1:]}")
            place[key] = key
    for k in sorted(place, reverse=True):
        at, kind, inpos, o = found[k]
        L = sections["loops"][place[k]]
        if k == len(found) - 1:
            L.setdefault("after", []).extend(sections.get("after-loops", []))
        if kind != L["kind"].removeprefix("desugared-").removeprefix("indexed-"):
            raise Lost(f"{name}: loop {k} is a {kind} loop")
        c = closing(mask(body), o)
        J = {x: "\n".join(L.get(x, [])) for x in ("before", "invariant", "ensures", "decreases", "enter", "leave", "after")}
        inv = ("\ninvariant\n" + J["invariant"] + "\n") if J["invariant"] else "\n"
        inv += ("ensures " + J["ensures"] + "\n") if J["ensures"] else ""
        inv += ("decreases " + J["decreases"] + "\n") if J["decreases"] else ""
        if L["kind"] == "desugared-for":
            pat = body[at + 3:inpos - 2].strip()
            J["before"] += f"\nlet mut it = {body[inpos:o].strip()};"
            J["enter"] = f"\nlet {pat} = match it.next() {{ Some(x) => x, None => break }};\n" + J["enter"]
            head = "loop"
        elif L["kind"] == "indexed-for":
            e = body[inpos:o].strip()
            if e.startswith("&") and "." not in re.sub(r"self\s*\.", "", e):
                e = e[1:].strip() + ".iter()"
            count, elem, rest = element(*calls(e))
            if rest:
                raise Lost(f"{name}: loop over {e}")
            J["enter"] = "\n" + bind(body[at + 3:inpos - 2], elem) + "\n" + J["enter"]
            head = f"for n_ in it: 0..{count}"
        elif kind == "for":
            head = body[at:inpos] + " it: " + body[inpos:o].strip()
        else:
            head = body[at:o]
        body = (body[:at] + J["before"] + "\n" + head + inv + "{" + J["enter"] + "\n" + body[o + 1:c]
                + "\n" + J["leave"] + "\n}\n" + J["after"] + "\n" + body[c + 1:])
    if lifted is not None:
        # a trait impl takes no further function: in front of it
        lifted.extend(funcs)
        funcs = []
    return rename, "".join(funcs) + attr + out + "\n" + "\n".join(sections["spec"]) + "\n{\n" + "\n".join(sections["start"]) + "\n" + body + "\n}\n"


def overrides(path, where, known):
    """Methods of an impl of a std trait that have no contract here; std's own
    documentation describes the provided ones that are not overridden."""
    s, m = source(path)
    out = []
    for b, e in blocks(m, where):
        for x in re.finditer(r"\bfn\s+(\w+)", m[b + 1:e]):
            seg = m[b + 1:b + 1 + x.start()]
            if seg.count("{") == seg.count("}") and x.group(1) not in known:
                out.append(x.group(1))
    return out


def own_impls(name):
    """Hand-written impls of traits that the contracts take for derived."""
    out = []
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".rs"):
            out += re.findall(r"\bimpl\b[^{;]*?\b(Clone|PartialEq|Eq|Drop)\s+for\s+(?:\w+::)*%s\b" % name,
                              mask(uncomment(open(os.path.join(REPO, "src", f)).read())))
    return out


def template(unit):
    """Lines of a template, with the parts it includes (once each)."""
    out, seen = [], set()

    def add(name):
        if name in seen:
            return
        seen.add(name)
        rows = open(os.path.join(ROOT, "verus", name + ".rs")).read().split("\n")
        i = 0
        while i < len(rows):
            ln = rows[i]
            if ln.startswith("//@include "):
                add(ln.split()[1])
            elif ln.startswith("//@for "):
                # the lines up to `//@endfor`, once for each name
                var, _, *names = ln.split()[1:]
                k = rows.index("//@endfor", i)
                for n in names:
                    out.extend(r.replace("$" + var, n) for r in rows[i + 1:k])
                i = k
            else:
                out.append(ln)
            i += 1
    add(unit)
    return out


def generate(unit, assumed, strangers):
    """Template and current sources -> verified text, region of each function.
    Of the functions in `assumed` (name: why) only the contract is used; those that
    cannot be extracted are added to it."""
    lines = template(unit)
    text, regions, substs, prefix, i = [], [], [], "", 0
    scopes, have, std = [], set(), {}

    def emit(s, name):
        a = len("\n".join(text).split("\n")) + 1
        text.extend(s.split("\n"))
        regions.append((a, len(text), name if " " in name else prefix + name))

    def subst(s):
        for a, b in substs:
            s = re.sub(a, b, s) if s else s
        return s

    while i < len(lines):
        ln = lines[i]
        f = ln.split()
        if f[:1] == ["//@subst"]:
            a, b = ln[len("//@subst"):].split("=>")
            substs[:] = [x for x in substs if x[0] != a.strip()] + [(a.strip(), b.strip())]
        elif f[:1] == ["//@scope"]:
            # substitutions up to `//@endscope`
            scopes.append(list(substs))
        elif f[:1] == ["//@endscope"]:
            substs[:] = scopes.pop()
        elif f[:1] == ["//@prefix"]:
            # the functions that follow are those of this module
            prefix = f[1] + "::" if f[1:] else ""
        elif f[:1] == ["//@item"]:
            emit(subst(get_item(f[1], f[2], f[3])), f"{f[2]} {f[3]}")
            have.add((f[1], f[3]))
            strangers += [f"{unit}: {f[3]} has a {t} of its own, which has no contract" for t in own_impls(f[3])]
        elif f[:1] == ["//@expect"]:
            # the text that a substitution relies on
            want = re.sub(r"\s+", "", ln.split(None, 2)[2])
            if want not in re.sub(r"\s+", "", source(f[1])[0]):
                raise Lost(f"{f[1]}: {ln.split(None, 2)[2]}")
        elif f[:1] == ["//@primitive"]:
            # an enum and what #[derive(FromPrimitive)] makes of it
            code = get_item(f[1], "enum", f[2])
            names = re.findall(r"(?:^|[{,])\s*([A-Za-z_]\w*)", code[code.index("{"):])
            s, m = source(f[1])
            x = re.search(r"\benum\s+%s\b" % f[2], m)
            if not re.search(r"derive\([^)]*\bFromPrimitive\b[^)]*\)\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?$", s[:x.start()]):
                raise Lost(f"enum {f[2]} without FromPrimitive")
            if (f[1], f[2]) not in have:
                emit(re.sub(r"Eq, Structural(, Clone, Copy)?", "Eq, Structural, Clone, Copy", code), "enum " + f[2])
                have.add((f[1], f[2]))
            emit(f"impl FromPrimitive for {f[2]} {{\nopen spec fn of(n: u16) -> Option<Self> {{ {f[2]}::golden(n) }}\n"
                 "fn from_u16(n: u16) -> (r: Option<Self>) { " + " ".join(f"if n == {f[2]}::{v} as u16 {{ Some({f[2]}::{v}) }} else" for v in names)
                 + " { None } }\n}", f[2] + "::from_u16")
        elif f[:1] == ["//@lazy"]:
            # a lazily evaluated constant: its expression where it is used
            x = re.search(r"\bstatic\s+ref\s+%s\s*:[^=;]*=([^;]*);" % f[2], source(f[1])[1])
            if not x:
                raise Lost(f"static ref {f[2]} not found in {f[1]}")
            substs.append((r"\*\s*%s\b" % f[2], "(" + source(f[1])[0][x.start(1):x.end(1)].strip().replace("\\", "") + ")"))
        elif f[:1] == ["//@const"]:
            s, m = source(f[1])
            x = re.search(r"\bconst\s+%s\b[^;]*;" % f[2], m)
            if not x:
                raise Lost(f"const {f[2]} not found in {f[1]}")
            emit("pub " + s[x.start():x.end()], f"const {f[2]}")
        elif f[:1] == ["//@type"]:
            s, m = source(f[1])
            x = re.search(r"\btype\s+%s\b[^;]*;" % f[2], m)
            if not x:
                raise Lost(f"type {f[2]} not found in {f[1]}")
            emit("pub " + s[x.start():x.end()], f"type {f[2]}")
        elif f[:1] == ["//@fn"]:
            where, name = ln[len("//@fn"):].strip().split(None, 1)[1].rsplit("::", 1)
            spec = []
            i += 1
            while lines[i].strip() != "//@end":
                spec.append(re.sub(r"^\s*//@", "", lines[i]))
                i += 1
            if re.match(r"impl (Read|Write) for ", where.strip()):
                std.setdefault((f[1], where.strip()), []).append(name.strip())
            target = where.strip().split(" for ")[-1].split()[-1]
            target = "" if target == "-" else re.sub(r"<.*", "", target) + "::"
            renamed = [ln.split()[1] for ln in spec if ln.split()[:1] == ["as"]]
            full = target + (renamed + [name.strip()])[0]
            funcs = [] if " for " in where and any(r.strip() == "of-trait" for r in spec) else None
            if prefix + full not in assumed:
                try:
                    _, code = build_fn(f[1], where.strip(), name.strip(), spec, subst, False, funcs)
                except Lost as e:
                    assumed[prefix + full] = str(e)
            if prefix + full in assumed:
                _, code = build_fn(f[1], where.strip(), name.strip(), spec, subst, True)
            if funcs:
                k = max(j for j, r in enumerate(text) if r == "// lifted")
                text[k] += "\0" + " ".join(funcs).replace("\n", " ")
                regions.append((k + 1, k + 1, prefix + full))
            emit(code, full)
        else:
            text.append(ln)
        i += 1
    for (path, where), known in std.items():
        for n in overrides(path, where, known):
            strangers.append(f"{unit}: {where} overrides {n}, which has no contract")
    return "\n".join(r.partition("\0")[2] if "\0" in r else r for r in text) + "\n", regions


def name_at(text, regions, line):
    """The function a line of the generated text belongs to, and the properties
    that the comment above a function of the template names (None: all)."""
    for a, b, n in regions:
        if a <= line <= b:
            return n, None, True
    lines = text.split("\n")
    for k in range(line, 0, -1):
        x = re.match(r"\s*(?:pub\s+)?(?:open\s+|closed\s+)?(?:proof\s+|spec\s+|broadcast\s+)*fn\s+(\w+)", lines[k - 1])
        if x:
            doc = ""
            while k > 1 and re.match(r"\s*(///|#\[)", lines[k - 2]):
                k -= 1
                doc += lines[k - 1]
            return x.group(1), re.findall(r"\bC\d\d\b", doc) or None, False
    return "?", None, False


def concerns(text, where, line, want, prop):
    """Does a failed obligation belong to the property? Clauses of an extracted
    function may carry a tag `[C11 C12]` in a comment at or above them."""
    fn, props, extracted = where
    if want is None or prop is None:
        return True
    if not extracted:
        # lemmas and clients of the template
        return props is None or prop in props
    if fn not in want:
        return False
    lines = text.split("\n")
    for k in range(line, 0, -1):
        ln = lines[k - 1]
        x = re.search(r"// \[((?:C\d\d ?)+)\]", ln)
        if x:
            return prop in x.group(1).split()
        if re.match(r"\s*(pub )?fn ", ln) or ln.strip() == "{":
            break
    return True


def run(cmd, secs):
    """One run of verus -> its report, the results in it, its messages; None: no answer"""
    p = subprocess.Popen(cmd, cwd=OUT, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=max(5, secs))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None
    o, e = o.decode(errors="replace"), e.decode(errors="replace")
    try:
        d = json.loads(o[o.index("{"):])
        return d, d["verification-results"], e
    except (ValueError, KeyError):
        return {}, {"encountered-vir-error": True}, e


def refutations(unit, text, regions, e, want, prop):
    """The messages of a run -> refuted functions, those of other properties, those given up"""
    got, other, up = {}, [], {}
    for blk in re.split(r"\n(?=error)", e):
        if not blk.startswith("error") or blk.startswith("error: aborting"):
            continue
        x = re.search(r"--> [^\n]*%s\.rs:(\d+)" % unit, blk)
        line = int(x.group(1)) if x else 0
        at = name_at(text, regions, line)
        if not at[2]:
            # a clause of the trait that an implementation breaks
            for y in re.findall(r"^\s*(\d+)\s*\|", blk, re.M):
                o = name_at(text, regions, int(y))
                if o[2]:
                    at, line = o, int(y)
                    break
        fn = f"{unit}.{at[0]}"
        if not concerns(text, at, line, want, prop):
            other.append(fn)
        elif "rlimit" in blk.split("\n")[0].lower() or "resource limit" in blk.lower():
            up[fn] = blk
        else:
            got[fn] = got.get(fn, "") + blk + "\n"
    return got, other, up


def check(units, secs, prop=None):
    """units: {template: functions that matter to the property (None: all)}"""
    t0 = time.time()
    total = dict(obligations=0, discharged=0, refuted={}, units=[])
    und = []
    _files.clear()
    os.makedirs(OUT, exist_ok=True)
    for unit in units:
        assumed, result = {}, None
        path = os.path.join(OUT, unit + ".rs")
        cmd = ["verus", "--output-json", "--time", "--multiple-errors", "8", "--rlimit", "60", "--num-threads", "4", path]
        for _ in range(5):
            strangers = []
            try:
                text, regions = generate(unit, assumed, strangers)
            except (Lost, OSError) as e:
                und.append(f"{unit}: lost anchor: {e}")
                break
            with open(path, "w") as f:
                f.write(text)
            answer = run(cmd, secs - (time.time() - t0))
            if answer is None:
                und.append(f"{unit}: no result within {secs} s")
                break
            d, r, e = answer
            if not (r.get("encountered-vir-error") or not r.get("verified") or (not r.get("success") and not r.get("errors"))):
                result = r
                break
            # the functions whose code Verus does not take are left out
            why = {}
            for blk in re.split(r"\n(?=error|warning)", e):
                x = re.search(r"--> [^\n]*%s\.rs:(\d+)" % unit, blk)
                if blk.startswith("error") and x:
                    fn, _, extracted = name_at(text, regions, int(x.group(1)))
                    if extracted and fn not in assumed and not fn.startswith(("struct ", "enum ", "const ", "type ")):
                        why.setdefault(fn, "outside the subset of Verus or changed interface: " + blk[:300])
            if not why:
                e = "\n".join(x for x in re.split(r"\n(?=error|warning)", e) if x.startswith("error"))
                und.append(f"{unit}: outside the subset of Verus or changed interface: {e[:1500]}")
                break
            assumed.update(why)
        if result is None:
            continue
        und += strangers
        for fn, why in assumed.items():
            total.setdefault("assumed", []).append(f"{unit}.{fn}: {why}")
            if units[unit] is None or fn in units[unit]:
                und.append(f"{unit}.{fn}: {why}")
        # an obligation counts as refuted if no run of the solver proves it
        others = [["--smt-option", "smt.random_seed=%d" % k] for k in (7, 23)]
        refuted, elsewhere = None, []
        while True:
            got, other, up = refutations(unit, text, regions, e, units[unit], prop) if r["errors"] else ({}, [], {})
            refuted = got if refuted is None else {k: v for k, v in refuted.items() if k in got or k in up}
            if not refuted and not up or not others:
                elsewhere = other
                break
            again = run(cmd[:-1] + others.pop() + cmd[-1:], secs - (time.time() - t0))
            if again is None or again[1].get("encountered-vir-error"):
                break
            d2, r2, e = again
            if r2["errors"] <= r["errors"]:
                d, r = d2, r2
        ok, bad = r["verified"], r["errors"]
        times = d.get("times-ms", {})
        total["units"].append(dict(unit=unit, cmd=" ".join(cmd), verified=ok, errors=bad,
                                   functions=[n for _, _, n in regions if not n.startswith(("struct ", "enum ", "const ", "type "))],
                                   solver_ms=(times.get("smt", {}) or {}).get("total"), total_ms=times.get("total")))
        total["obligations"] += ok + bad
        total["discharged"] += ok
        if elsewhere:
            total["refuted_of_other_properties"] = total.get("refuted_of_other_properties", []) + elsewhere
        for fn, why in up.items():
            und.append(f"{fn}: solver gave up: {why[:300]}")
        total["refuted"].update({k: v for k, v in refuted.items() if k not in up})
    total["wall_s"] = round(time.time() - t0, 2)
    if und:
        total["undecided"] = "; ".join(und)
    return total


if __name__ == "__main__":
    import sys
    r = check({u: None for u in sys.argv[1:]}, 300)
    for k, v in r["refuted"].items():
        print("==", k)
        print(v)
    r["refuted"] = list(r["refuted"])
    print(json.dumps(r, indent=1).replace("\\n", "\n"))

"""Mechanical extraction of real functions from /repo into Verus files.

A unit template (proofs/<unit>.rs) is Verus text plus directives (lines starting with `//@`).  The
executable text of every `//@fn` comes from /repo's current source at every run; the template only
contributes contracts, loop invariants, ghost code and the list of token rewrites, all documented
in DESIGN.md section "What the extraction changes".

Raises AttachError when the real code no longer has the shape the annotations attach to.
"""
import hashlib, json, os, re
from rustlex import lex, match_close, skip_generics, render, canon, split_top, Tok, OPEN, CLOSE, LexError


class AttachError(Exception):
    """the contract cannot be attached to the current source (never an alarm by itself)"""


class Fn:
    def __init__(self):
        self.quals, self.name, self.generics, self.params, self.ret, self.where, self.body = [], "", [], [], [], [], []
        self.impl_header = ""
        self.line = 0


class Item:
    def __init__(self, kind, name, toks, line):
        self.kind, self.name, self.toks, self.line = kind, name, toks, line
        self.fn = None
        self.impl_trait = self.impl_type = None
        self.children = []
        self.header = ""


def _skip_attrs(toks, i):
    attrs = []
    while i < len(toks) and toks[i].text == "#":
        j = i + 1
        if toks[j].text == "!":
            j += 1
        k = match_close(toks, j)
        attrs.append(canon(toks[i : k + 1]))
        i = k + 1
    return i, attrs


def parse_fn(toks, i):
    """toks[i] is 'fn' (qualifiers already skipped)"""
    f = Fn()
    f.line = toks[i].line
    f.name = toks[i + 1].text
    j = i + 2
    if toks[j].text == "<":
        k = skip_generics(toks, j)
        f.generics = toks[j:k]
        j = k
    if toks[j].text != "(":
        raise AttachError("fn %s: expected (" % f.name)
    k = match_close(toks, j)
    f.params = toks[j + 1 : k]
    j = k + 1
    if toks[j].text == "->":
        k = j + 1
        while toks[k].text not in ("{", ";", "where"):
            if toks[k].text in ("(", "["):
                k = match_close(toks, k)
            elif toks[k].text == "<":
                k = skip_generics(toks, k) - 1
            k += 1
        f.ret = toks[j + 1 : k]
        j = k
    if toks[j].text == "where":
        k = j + 1
        while toks[k].text not in ("{", ";"):
            if toks[k].text in ("(", "["):
                k = match_close(toks, k)
            k += 1
        f.where = toks[j + 1 : k]
        j = k
    if toks[j].text == ";":
        f.body = None
        return f, j + 1
    k = match_close(toks, j)
    f.body = toks[j + 1 : k]
    return f, k + 1


QUALS = ("pub", "const", "unsafe", "async", "extern", "default")


def parse_items(toks):
    items, i = [], 0
    while i < len(toks):
        i, attrs = _skip_attrs(toks, i)
        if i >= len(toks):
            break
        start = i
        quals = []
        while toks[i].text in QUALS:
            if toks[i].text == "const" and toks[i + 1].kind == "id" and toks[i + 1].text not in ("fn", "unsafe"):
                break
            quals.append(toks[i].text)
            i += 1
            if toks[i].text == "(" and quals[-1] == "pub":
                i = match_close(toks, i) + 1
            if toks[i].kind == "str":
                i += 1
        t = toks[i].text
        if t == "fn":
            f, j = parse_fn(toks, i)
            f.quals = [q for q in quals if q == "unsafe" or q == "const"]
            it = Item("fn", f.name, toks[start:j], toks[i].line)
            it.fn = f
            it.attrs = attrs
            items.append(it)
            i = j
            continue
        if t in ("mod", "impl", "trait"):
            j = i + 1
            while toks[j].text not in ("{", ";"):
                if toks[j].text in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            if toks[j].text == ";":
                i = j + 1
                continue
            k = match_close(toks, j)
            it = Item(t, toks[i + 1].text, toks[start : k + 1], toks[i].line)
            it.attrs = attrs
            it.header = canon(toks[i:j])
            if t == "impl":
                h = toks[i + 1 : j]
                p = 0
                if h and h[0].text == "<":
                    p = skip_generics(h, 0)
                h = h[p:]
                # cut the where clause
                for q, x in enumerate(h):
                    if x.text == "where":
                        h = h[:q]
                        break
                pos, q = None, 0
                while q < len(h):
                    if h[q].text == "<":
                        q = skip_generics(h, q)
                        continue
                    if h[q].text == "for":
                        pos = q
                    q += 1
                if pos is not None:
                    it.impl_trait = _last_path_ident(h[:pos])
                    it.impl_type = _last_path_ident(h[pos + 1 :])
                else:
                    it.impl_type = _last_path_ident(h)
                it.children = parse_items(toks[j + 1 : k])
            elif t == "trait":
                it.children = parse_items(toks[j + 1 : k])
            else:
                if any("test" in a for a in attrs):
                    it.children = []
                else:
                    it.children = parse_items(toks[j + 1 : k])
            items.append(it)
            i = k + 1
            continue
        if t in ("struct", "enum", "union"):
            j = i + 1
            while toks[j].text not in ("{", ";", "("):
                if toks[j].text == "<":
                    j = skip_generics(toks, j)
                    continue
                j += 1
            if toks[j].text == ";":
                k = j
            else:
                k = match_close(toks, j)
                if toks[j].text == "(":
                    while toks[k].text != ";":
                        k += 1
            it = Item(t, toks[i + 1].text, toks[start : k + 1], toks[i].line)
            it.attrs = attrs
            items.append(it)
            i = k + 1
            continue
        if t == "macro_rules":
            j = i
            while toks[j].text not in OPEN:
                j += 1
            k = match_close(toks, j)
            if k + 1 < len(toks) and toks[k + 1].text == ";":
                k += 1
            i = k + 1
            continue
        # use, const, static, type, macro call ...: up to ';' at depth 0
        j = i
        while j < len(toks) and toks[j].text != ";":
            if toks[j].kind == "p" and toks[j].text in OPEN:
                j = match_close(toks, j)
                if t not in ("use", "const", "static", "type", "extern") and (j + 1 >= len(toks) or toks[j + 1].text != ";"):
                    break
            j += 1
        name = toks[i + 1].text if i + 1 < len(toks) else ""
        it = Item(t, name, toks[start : j + 1], toks[i].line)
        it.attrs = attrs
        items.append(it)
        i = j + 1
    return items


def _last_path_ident(h):
    last, q = None, 0
    while q < len(h):
        if h[q].text == "<":
            q = skip_generics(h, q)
            continue
        if h[q].kind == "id" and h[q].text not in ("mut", "dyn"):
            last = h[q].text
        q += 1
    return last


class Repo:
    def __init__(self, root):
        self.root, self.cache = root, {}

    def items(self, rel):
        if rel not in self.cache:
            p = os.path.join(self.root, rel)
            if not os.path.exists(p):
                raise AttachError("%s is gone" % rel)
            try:
                toks = lex(open(p).read())
                for t in toks:
                    if t.kind == "id" and t.text in ("int", "nat"):
                        t.text += "_v"  # names of Verus types
                self.cache[rel] = parse_items(toks)
            except (LexError, IndexError) as e:
                raise AttachError("%s: %s" % (rel, e))
        return self.cache[rel]

    def _scopes(self, items):
        yield None, items
        for it in items:
            if it.kind == "mod":
                for s in self._scopes(it.children):
                    yield s

    def find_fn(self, rel, spec, name, header_has=None):
        found = []
        if spec.startswith("nested "):
            # a function item inside the body of another function
            ospec, _, oname = spec[7:].rpartition("::")
            body = self.find_fn(rel, ospec, oname, header_has).body
            m = re.match(r"closure_(\w+)_(\d+)$", name)
            nth = 0
            for i in range(len(body) - 1):
                if m and body[i].text == "|" and body[i - 1].text in ("(", ",", "=", "move"):
                    # the n-th closure argument with these parameter names
                    k = i + 1
                    while k < len(body) and body[k].text != "|":
                        k = match_close(body, k) + 1 if body[k].text in "([{" else k + 1
                    if "_".join(t.text for t in body[i + 1 : k] if t.kind == "id") != m.group(1):
                        continue
                    nth += 1
                    if nth - 1 != int(m.group(2)):
                        continue
                    f = Fn()
                    f.name, f.line = name, body[i].line
                    f.params = body[i + 1 : k]
                    if body[k + 1].text == "{":
                        f.body = body[k + 2 : match_close(body, k + 1)]
                    else:
                        e = k + 1
                        while e < len(body) and body[e].text not in (",", ")", ";"):
                            e = match_close(body, e) + 1 if body[e].text in "([{" else e + 1
                        f.body = body[k + 1 : e]
                    found.append(f)
                elif body[i].text == "fn" and body[i + 1].text == name:
                    found.append(parse_fn(body, i)[0])
                elif body[i].text == "let" and body[i + 1].text == name and body[i + 2].text == "=":
                    # a closure bound to a name: its parameters and its block become a function
                    j = i + 3
                    if body[j].text == "move":
                        j += 1
                    if j >= len(body) or body[j].text != "|":
                        continue
                    k = j + 1
                    while body[k].text != "|":
                        k = match_close(body, k) + 1 if body[k].text in "([{" else k + 1
                    if body[k + 1].text != "{":
                        continue
                    f = Fn()
                    f.name, f.line = name, body[i].line
                    f.params = body[j + 1 : k]
                    e = match_close(body, k + 1)
                    f.body = body[k + 2 : e]
                    found.append(f)
        for _, items in self._scopes(self.items(rel)) if not found else ():
            for it in items:
                if spec == "-":
                    if it.kind == "fn" and it.name == name and not any(re.sub(r"\s", "", a) in ("#[cfg(test)]", "cfg(test)") for a in it.attrs):
                        found.append(it.fn)
                elif it.kind == "impl" and not spec.startswith("trait "):
                    m = re.match(r"(?:(\w+) for )?(\w+)$", spec)
                    tr, ty = m.group(1), m.group(2)
                    if it.impl_type == ty and (tr == it.impl_trait) and (not header_has or header_has.replace(" ", "") in it.header.replace(" ", "")):
                        for c in it.children:
                            if c.kind == "fn" and c.name == name:
                                c.fn.impl_header = it.header
                                found.append(c.fn)
                elif it.kind == "trait" and spec == "trait " + it.name:
                    for c in it.children:
                        if c.kind == "fn" and c.name == name:
                            found.append(c.fn)
        if len(found) != 1:
            raise AttachError("%s: %s::%s found %d times" % (rel, spec, name, len(found)))
        f = found[0]
        if f.body is None:
            raise AttachError("%s::%s has no body" % (spec, name))
        return f

    def find_item(self, rel, kind, name):
        found = [it for _, items in self._scopes(self.items(rel)) for it in items if it.kind == kind and it.name == name]
        if len(found) != 1:
            raise AttachError("%s: %s %s found %d times" % (rel, kind, name, len(found)))
        return found[0]


# ---------------------------------------------------------------- rewrites


def T(s):
    """lex generated text"""
    toks = lex(s)
    for t in toks:
        if t.ws == "":
            t.ws = ""
    return toks


def _match_at(pat, toks, i):
    """match pattern tokens at position i; returns (end, bindings) or None.  $x matches one or more
    balanced tokens (shortest), $x:id one identifier, $x:opt zero or more balanced tokens"""

    def rec(pi, ti, b):
        while pi < len(pat):
            p = pat[pi]
            if p.kind == "meta":
                nm, _, k = p.text[1:].partition(":")
                if k == "id":
                    if ti < len(toks) and toks[ti].kind == "id":
                        if nm in b and canon(b[nm]) != toks[ti].text:
                            return None
                        b = dict(b)
                        b[nm] = [toks[ti]]
                        pi += 1
                        ti += 1
                        continue
                    return None
                if nm in b:
                    want = b[nm]
                    if canon(toks[ti : ti + len(want)]) == canon(want):
                        ti += len(want)
                        pi += 1
                        continue
                    return None
                j = ti
                if k == "opt":
                    b2 = dict(b)
                    b2[nm] = []
                    r = rec(pi + 1, ti, b2)
                    if r:
                        return r
                while j < len(toks):
                    t = toks[j]
                    if t.kind == "p" and t.text in CLOSE:
                        return None
                    if t.kind == "p" and t.text in OPEN:
                        j = match_close(toks, j)
                    j += 1
                    if k == "flat" and t.text in (";", ","):
                        return None
                    b2 = dict(b)
                    b2[nm] = toks[ti:j]
                    r = rec(pi + 1, j, b2)
                    if r:
                        return r
                return None
            if ti >= len(toks) or toks[ti].text != p.text:
                return None
            pi += 1
            ti += 1
        return ti, b

    return rec(0, i, {})


def _subst(rep, b, ws):
    out = []
    for t in rep:
        if t.kind == "meta":
            nm = t.text[1:].partition(":")[0]
            cp = [x.copy() for x in b[nm]]
            if cp:
                cp[0].ws = t.ws
            out += cp
        else:
            out.append(t.copy())
    if out:
        out[0].ws = ws
    return out


def _back_bracket(toks, j, op, cl):
    """toks[j] is a closing bracket: index of its opening one"""
    d = 0
    while True:
        if toks[j].text == cl:
            d += 1
        elif toks[j].text == op:
            d -= 1
            if d == 0:
                return j
        j -= 1


def _chain_start(toks, end):
    """start index of the postfix chain (a.b(c)[d].e, A::<T>::f(x)) that ends just before index end"""
    i = end
    NOTNAME = ("return", "if", "match", "in", "while", "for", "let", "else", "mut", "move")
    while i > 0:
        t = toks[i - 1]
        if t.kind == "p" and t.text in (")", "]"):
            i = _back_bracket(toks, i - 1, CLOSE[t.text], t.text)
            p = toks[i - 1] if i else None
            if p is not None and (p.kind == "id" and p.text not in NOTNAME or p.text in (")", "]")):
                continue
            if p is not None and p.text == ">":
                i = _back_bracket(toks, i - 1, "<", ">")
                if toks[i - 1].text == "::":
                    i -= 1
                continue
        elif t.kind in ("id", "num", "str"):
            i -= 1
        else:
            return i
        if i > 0 and toks[i - 1].text in (".", "?"):
            i -= 1
            continue
        if i > 0 and toks[i - 1].text == "::":
            i -= 1
            if toks[i - 1].text == ">":
                i = _back_bracket(toks, i - 1, "<", ">")
                if toks[i - 1].text == "::":
                    i -= 1
                elif toks[i - 1].kind != "id":
                    return i
            continue
        return i
    return i


def rewrite(toks, pat_s, rep_s, limit=None):
    """structural rewrite; a leading `$x:chain` in the pattern binds the receiver chain on the left"""
    pat, rep = lex(pat_s, True), lex(rep_s, True)
    chain = None
    if pat[0].kind == "meta" and pat[0].text.endswith(":chain"):
        chain = pat[0].text[1:].partition(":")[0]
        pat = pat[1:]
    n, i = 0, 0
    toks = list(toks)
    while i < len(toks):
        r = _match_at(pat, toks, i) if (limit is None or n < limit) else None
        if r:
            end, b = r
            st = i
            if chain:
                st = _chain_start(toks, i)
                b[chain] = toks[st:i]
            new = _subst(rep, b, toks[st].ws)
            toks[st:end] = new
            n += 1
            if n > 5000:
                raise SystemExit("rewrite `%s` does not terminate" % pat_s)
            if not rep:
                continue
            # continue after the first replaced token so that nested matches are also rewritten
            i = st + 1 if chain is None else st + len(new) if _canon_contains(new, pat) else st
            if chain is None:
                i = st + 1
        else:
            i += 1
    return toks, n


def _canon_contains(a, pat):
    return any(_match_at(pat, a, i) for i in range(len(a)))


def drop_macro(toks, names):
    out, i = [], 0
    while i < len(toks):
        if toks[i].kind == "id" and toks[i].text in names and i + 1 < len(toks) and toks[i + 1].text == "!":
            j = match_close(toks, i + 2)
            i = j + 1
            if i < len(toks) and toks[i].text == ";":
                i += 1
            continue
        out.append(toks[i])
        i += 1
    return out


def asserts(toks, panics=False):
    """assert!/debug_assert!(c, ..) become vf_assert(c): a proof obligation that the assertion never fires.
    With `panics`, assert! (present in every build) becomes vf_reject_unless(c): the call does not return unless c"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "id" and t.text in ("assert", "debug_assert", "assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne") and i + 1 < len(toks) and toks[i + 1].text == "!":
            j = match_close(toks, i + 2)
            args = split_top(toks[i + 3 : j])
            f = "vf_reject_unless" if panics and not t.text.startswith("debug") else "vf_assert"
            if t.text.endswith("_eq") or t.text.endswith("_ne"):
                op = "==" if t.text.endswith("_eq") else "!="
                e = T(f + "((") + asserts(args[0]) + T(") %s (" % op) + asserts(args[1]) + T("))")
            else:
                e = T(f + "(") + asserts(args[0]) + T(")")
            e[0].ws = t.ws
            out += e
            i = j + 1
            continue
        out.append(t)
        i += 1
    return out


def opt_map(toks, method="map"):
    """OPTION.map(|P| B)  ->  (match OPTION { Some(P) => Some(B), None => None })"""
    return rewrite(toks, "$x:chain.%s(|$p| $b)" % method, "(match $x { Some($p) => Some($b), None => None })")


def for_header(toks, i):
    """toks[i] == 'for': returns (pat, expr, body_open, body_close)"""
    j = i + 1
    while toks[j].text != "in":
        if toks[j].kind == "p" and toks[j].text in OPEN:
            j = match_close(toks, j)
        j += 1
    pat = toks[i + 1 : j]
    k = j + 1
    while toks[k].text != "{":
        if toks[k].kind == "p" and toks[k].text in OPEN:
            k = match_close(toks, k)
        k += 1
    return pat, toks[j + 1 : k], k, match_close(toks, k)


def _strip_paren(e):
    while len(e) >= 2 and e[0].text == "(" and match_close(e, 0) == len(e) - 1:
        e = e[1:-1]
    return e


def _bind(pat, value):
    """let PAT = value; `&p` patterns against a copied element become plain patterns"""
    return "let " + render(pat) + " = " + value + ";"


def desugar_for(toks, counter):
    """for-loops become while-loops over an index (same iterations, same order); returns new tokens"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "id" and t.text == "for" and i + 1 < len(toks) and toks[i + 1].text != "<":
            pat, expr, bo, bc = for_header(toks, i)
            k = counter[0]
            counter[0] += 1
            body = desugar_for(toks[bo + 1 : bc], counter)
            head, bind = _for_kind(pat, expr, k)
            new = T(head) + body_tokens(bind) + body + [Tok("p", "}", "\n")] + T("}")
            new[0].ws = t.ws
            out += new
            i = bc + 1
            continue
        if t.kind == "id" and t.text in ("while", "loop"):
            counter[0] += 1
        out.append(t)
        i += 1
    return out


def body_tokens(s):
    r = T(s)
    if r:
        r[0].ws = " "
    return r


def _for_kind(pat, expr, k):
    expr = _strip_paren(expr)
    c = canon(expr)
    I, V, E = "vf_i%d" % k, "vf_it%d" % k, "vf_e%d" % k

    def elem(p, e):
        p = _strip_paren(p)
        if p and p[0].text == "&":
            return "let %s = %s;" % (render(p[1:]), e)
        return "let %s = &%s;" % (render(p), e)

    def loop(setup, length, binds):
        return ("{ %s let mut %s: usize = 0; while %s < %s {" % (setup, I, I, length), binds + " %s = %s + 1;" % (I, I))

    # ranges
    parts = _split_range(expr)
    if parts:
        lo, op, hi = parts
        rev = False
        return (
            "{ let mut %s = %s; let %s = %s; while %s %s %s {" % (I, render(lo), E, render(hi), I, "<" if op == ".." else "<=", E),
            "let %s = %s; %s = %s + 1;" % (render(pat), I, I, I),
        )
    m = re.match(r"^\( (.*) \) \. rev \( \)$", c)
    if m:
        inner = _strip_paren(expr[: len(expr) - 4])
        parts = _split_range(inner)
        if parts and parts[1] == "..":
            lo, op, hi = parts
            return (
                "{ let %s = %s; let mut %s = %s; while %s > %s {" % (E, render(lo), I, render(hi), I, E),
                "%s = %s - 1; let %s = %s;" % (I, I, render(pat), I),
            )
    if c.endswith(". iter ( ) . enumerate ( )"):
        base = expr[:-8]
        ps = split_top(_strip_paren(pat))
        return loop("let %s = &%s;" % (V, render(base)), "%s.len()" % V, "let %s = %s; %s" % (render(ps[0]), I, elem(ps[1], "%s[%s]" % (V, I))))
    if c.endswith(". iter_mut ( ) . enumerate ( )"):
        base = expr[:-8]
        ps = split_top(_strip_paren(pat))
        return loop("", "%s.len()" % render(base), "let %s = %s; let %s = &mut %s[%s];" % (render(ps[0]), I, render(ps[1]), render(base), I))
    if c.endswith(". into_iter ( ) . enumerate ( )"):
        base = expr[:-8]
        ps = split_top(_strip_paren(pat))
        return loop("let %s = %s;" % (V, render(base)), "%s.len()" % V, "let %s = %s; let %s = %s[%s];" % (render(ps[0]), I, render(ps[1]), V, I))
    m = re.match(r"^(.*) \. iter \( \) \. zip \( (.*) \. iter \( \) \)$", c)
    if m:
        a, b = m.group(1), m.group(2)
        ps = split_top(_strip_paren(pat))
        A, B = V + "a", V + "b"
        return loop(
            "let %s = &%s; let %s = &%s;" % (A, a, B, b),
            "vf_min(%s.len(), %s.len())" % (A, B),
            elem(ps[0], "%s[%s]" % (A, I)) + elem(ps[1], "%s[%s]" % (B, I)),
        )
    m = re.match(r"^(.*) \. windows \( 2 \) \. zip \( (.*) \. windows \( 2 \) \)$", c)
    if m:
        ps = split_top(_strip_paren(pat))
        A, B = V + "a", V + "b"
        return loop(
            "let %s = &%s; let %s = &%s;" % (A, m.group(1), B, m.group(2)),
            "vf_min(vf_windows2_len(%s.len()), vf_windows2_len(%s.len()))" % (A, B),
            "let %s = [%s[%s], %s[%s + 1]]; let %s = [%s[%s], %s[%s + 1]];" % (render(ps[0]), A, I, A, I, render(ps[1]), B, I, B, I),
        )
    m = re.match(r"^(.*) \. windows \( 2 \)$", c)
    if m:
        return loop("let %s = &%s;" % (V, m.group(1)), "vf_windows2_len(%s.len())" % V, "let %s = [%s[%s], %s[%s + 1]];" % (render(pat), V, I, V, I))
    m = re.match(r"^(.*) \. windows \( 2 \) \. enumerate \( \)$", c)
    if m:
        ps = split_top(_strip_paren(pat))
        return loop("let %s = &%s;" % (V, m.group(1)), "vf_windows2_len(%s.len())" % V, "let %s = %s; let %s = [%s[%s], %s[%s + 1]];" % (render(ps[0]), I, render(ps[1]), V, I, V, I))
    m = re.match(r"^(.*) \. array_windows (?::: < 2 > )?\( \)$", c)
    if m:
        p = _strip_paren(pat)
        if p[0].text == "&":
            p = p[1:]
        ps = split_top(p[1:-1])
        return loop(
            "let %s = &%s;" % (V, m.group(1)),
            "vf_windows2_len(%s.len())" % V,
            "let %s = %s[%s]; let %s = %s[%s + 1];" % (render(ps[0]), V, I, render(ps[1]), V, I),
        )
    if c.endswith(". iter ( )"):
        base = expr[:-4]
        return loop("let %s = &%s;" % (V, render(base)), "%s.len()" % V, elem(pat, "%s[%s]" % (V, I)))
    if c.startswith("& mut ") or c.endswith(". iter_mut ( )"):
        base = expr[2:] if c.startswith("& mut ") else expr[:-4]
        b = render(base).strip()
        return loop("", "%s.len()" % b, "let %s = &mut %s[%s];" % (render(pat), b, I))
    if c.startswith("& "):
        return loop("let %s = %s;" % (V, render(expr)), "%s.len()" % V, elem(pat, "%s[%s]" % (V, I)))
    if c.startswith("vf_seq"):
        # a (trusted) function returning the Vec of the items the iterator yields
        return loop("let %s = %s;" % (V, render(expr)), "%s.len()" % V, "let %s = %s[%s];" % (render(pat), V, I))
    raise AttachError("for loop over an iterator the desugaring does not know: %s" % c)


def _split_range(expr):
    i = 0
    while i < len(expr):
        t = expr[i]
        if t.kind == "p" and t.text in OPEN:
            i = match_close(expr, i)
        elif t.text in ("..", "..="):
            if i == 0 or i == len(expr) - 1:
                return None
            return expr[:i], t.text, expr[i + 1 :]
        i += 1
    return None


def find_loops(toks):
    """[(kw index, body open, body close)] in source order"""
    res, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "id" and t.text in ("while", "loop") or (t.kind == "id" and t.text == "for" and toks[i + 1].text != "<"):
            j = i + 1
            while toks[j].text != "{":
                if toks[j].kind == "p" and toks[j].text in OPEN:
                    j = match_close(toks, j)
                j += 1
            res.append((i, j, match_close(toks, j)))
        i += 1
    return res


KEYWORDS = set(
    "let mut ref if else match while for loop in return break continue Some None Ok Err true false self Self move as fn box unsafe".split()
)


def locals_of(fn):
    """local names in binding order: parameters, let / for / closure / match-arm / if-let patterns"""
    names = []

    def pat_ids(p):
        for q, x in enumerate(p):
            nxt = p[q + 1].text if q + 1 < len(p) else ""
            prv = p[q - 1].text if q else ""
            if x.kind == "id" and x.text not in KEYWORDS and not x.text[0].isupper() and nxt not in ("::", "(", "{", "!") and prv not in ("::", "."):
                # struct pattern field `a: b` binds b
                if nxt == ":" and q + 2 < len(p) and p[q + 2].text != ":":
                    continue
                names.append(x.text)

    for par in split_top(fn.params):
        for q, x in enumerate(par):
            if x.text == ":":
                pat_ids(par[:q])
                break
    b = fn.body
    i = 0
    while i < len(b):
        t = b[i]
        if t.kind == "id" and t.text == "let":
            j = i + 1
            while b[j].text not in ("=", ";", ":"):
                if b[j].kind == "p" and b[j].text in OPEN:
                    j = match_close(b, j)
                j += 1
            pat_ids(b[i + 1 : j])
        elif t.kind == "id" and t.text == "for" and b[i + 1].text != "<":
            pat, _, _, _ = for_header(b, i)
            pat_ids(pat)
        elif t.text == "=>":
            # match arm pattern: walk back to the arm start
            j, d = i - 1, 0
            while j >= 0:
                x = b[j]
                if x.kind == "p" and x.text in CLOSE:
                    d += 1
                elif x.kind == "p" and x.text in OPEN:
                    if d == 0:
                        break
                    d -= 1
                elif x.text == "," and d == 0:
                    break
                if x.text == "}" and d == 1 and j != i - 1:
                    # previous arm's block
                    break
                j -= 1
            pat_ids(b[j + 1 : i])
        i += 1
    # closures
    for i, t in enumerate(b):
        if t.text == "|" and i and (b[i - 1].text in ("(", ",", "=", "move", "return", "{", ";")):
            j = i + 1
            while b[j].text != "|":
                j += 1
            for par in split_top(b[i + 1 : j]):
                q = next((q for q, x in enumerate(par) if x.text == ":"), len(par))
                pat_ids(par[:q])
    return names


def callees_of(body):
    s = set()
    for i, t in enumerate(body):
        if t.kind == "id" and i + 1 < len(body) and body[i + 1].text in ("(",) and t.text not in KEYWORDS and not t.text[0].isupper():
            s.add(t.text)
        if t.kind == "id" and i + 1 < len(body) and body[i + 1].text == "!" and body[i + 2].text in OPEN:
            s.add(t.text + "!")
    return sorted(s)


def shape_of(fn):
    return {"locals": locals_of(fn), "loops": [fn.body[k].text for k, _, _ in find_loops(fn.body)], "callees": callees_of(fn.body)}


def token_hash(fn):
    return hashlib.sha256(canon(fn.params + fn.ret + fn.body).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- templates


class FnBlock:
    def __init__(self, file, spec, name, opts):
        self.file, self.spec, self.name, self.opts = file, spec, name, opts
        self.ret, self.spec_text, self.loops, self.ats, self.rws, self.attrs, self.sig = "r", "", {}, [], [], "", None
        self.key = "%s %s::%s" % (file, spec, name) + ("#" + opts["tag"] if "tag" in opts else "")


def rename_ids(text, mp):
    if not mp:
        return text
    return re.sub(r"(?<![\w.])([A-Za-z_]\w*)\b", lambda m: mp.get(m.group(1), m.group(1)), text)


class Unit:
    def __init__(self, path, repo, baseline, probe=None):
        self.path, self.repo, self.baseline, self.probe = path, repo, baseline, probe
        self.shapes, self.changed, self.fns, self.out, self.linemap = {}, [], [], [], []
        self.structure_changed = []
        self.rewrite_log = []
        self.nprobes = 0
        self.probe_names = []
        self.contracts_by = None
        self.relies_on = []

    def build(self):
        self.out = self._process(open(self.path).read(), os.path.dirname(self.path))
        return self.out

    def _process(self, text, base):
        res, lines, i = [], text.split("\n"), 0
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if s.startswith("//@include_contracts "):
                # the functions' contracts only: their bodies are discharged in the unit named second
                _, f, by = s.split()
                old, self.contracts_by = self.contracts_by, by
                res.append(self._process(open(os.path.join(base, f)).read(), base))
                self.contracts_by = old
                i += 1
            elif s.startswith("//@include "):
                res.append(self._process(open(os.path.join(base, s.split()[1])).read(), base))
                i += 1
            elif s.startswith("//@item "):
                _, rel, kind, name = s.split()[:4]
                res.append(self._item(rel, kind, name, s.split()[4:]))
                i += 1
            elif s.startswith("//@fn "):
                j = i + 1
                while lines[j].strip() != "//@endfn":
                    j += 1
                res.append(self._fn(s[6:], lines[i + 1 : j]))
                i = j + 1
            else:
                res.append(ln)
                i += 1
        return "\n".join(res)

    def _item(self, rel, kind, name, opts):
        it = self.repo.find_item(rel, kind, name)
        toks = [t.copy() for t in it.toks]
        out, i = [], 0
        while i < len(toks):
            if toks[i].text == "pub" and toks[i].kind == "id":
                if toks[i + 1].text == "(" and toks[i + 2].text in ("crate", "super", "self"):
                    i = match_close(toks, i + 1) + 1
                else:
                    i += 1
                continue
            if toks[i].text == "#" and toks[i + 1].text == "[":
                i = match_close(toks, i + 1) + 1
                continue
            out.append(toks[i])
            i += 1
        for o in opts:
            a, _, b = o.partition("=>")
            out, _ = rewrite(out, a.replace("~", " "), b.replace("~", " "))
        key = "%s %s %s" % (rel, kind, name)
        self.shapes[key] = {"hash": hashlib.sha256(canon(out).encode()).hexdigest()[:16]}
        bl = self.baseline.get(key)
        if bl and bl["hash"] != self.shapes[key]["hash"]:
            self.changed.append(key)
        return render(out)

    def _fn(self, header, body_lines):
        opts = {}
        while True:
            m = re.match(r"^(.*)\s+(\w+)=(\S+)$", header)
            if not m:
                break
            header = m.group(1)
            opts[m.group(2)] = m.group(3).replace("~", " ")
        rel, _, rest = header.strip().partition(" ")
        spec, _, name = rest.rpartition("::")
        blk = FnBlock(rel, spec.strip(), name.strip(), opts)
        cur, buf = None, []

        def flush():
            txt = "\n".join(buf)
            if cur is None:
                return
            kind = cur[0]
            if kind == "spec":
                blk.spec_text = txt
            elif kind == "loop":
                blk.loops[int(cur[1])] = txt
            elif kind == "at":
                blk.ats.append((cur[1:], txt))
            elif kind == "attr":
                blk.attrs = txt

        for ln in body_lines:
            s = ln.strip()
            if s.startswith("//@"):
                flush()
                buf = []
                w = s[3:].split(None, 1)
                k = w[0]
                arg = w[1] if len(w) > 1 else ""
                if k in ("spec", "attr"):
                    cur = (k,)
                elif k == "loop":
                    cur = (k, arg)
                elif k == "at":
                    cur = ("at",) + tuple(arg.split())
                elif k == "ret":
                    blk.ret = arg
                    cur = None
                elif k == "sig":
                    blk.sig = arg
                    cur = None
                elif k == "rw":
                    blk.rws.append(arg)
                    cur = None
                else:
                    raise SystemExit("template %s: unknown directive %s" % (self.path, s))
            else:
                buf.append(ln)
        flush()
        return self._emit(blk)

    def _emit(self, blk):
        fn = self.repo.find_fn(blk.file, blk.spec, blk.name, blk.opts.get("header"))
        if self.contracts_by:
            return self._emit_contract(blk, fn)
        shape = shape_of(fn)
        shape["hash"] = token_hash(fn)
        self.shapes[blk.key] = shape
        bl = self.baseline.get(blk.key)
        mp = {}
        if bl:
            if bl["hash"] != shape["hash"]:
                self.changed.append(blk.key)
            if len(bl["locals"]) == len(shape["locals"]):
                # locals that got a new name: the annotations follow
                mp = {a: b for a, b in zip(bl["locals"], shape["locals"]) if a != b}
                # a name must map consistently
                seen = {}
                for a, b in zip(bl["locals"], shape["locals"]):
                    if seen.setdefault(a, b) != b:
                        mp = {}
                        self.structure_changed.append(blk.key)
                        break
            else:
                # extra locals are fine as long as the old ones are still there in order
                it = iter(shape["locals"])
                if not all(any(x == y for y in it) for x in bl["locals"]):
                    self.structure_changed.append(blk.key)
            if bl["loops"] != shape["loops"] or not set(shape["callees"]) <= set(bl["callees"]) | BENIGN_CALLS:
                self.structure_changed.append(blk.key)
        ren = lambda s: rename_ids(s, mp)
        params, ret, body, where, generics = [[t.copy() for t in x] for x in (fn.params, fn.ret, fn.body, fn.where, fn.generics)]
        body = asserts(body, "panics" in blk.opts)
        for m in ("min", "max"):
            body, _ = rewrite(body, "std::cmp::%s(" % m, "%s(" % m)
            body, _ = rewrite(body, "cmp::%s(" % m, "%s(" % m)
        counter = [0]
        for rw in blk.rws:
            body, params, ret = self._apply_rw(blk, rw, body, params, ret, counter, ren)
        sig = None
        if blk.sig:
            sig = blk.sig
        gen = render(generics)
        if "generics" in blk.opts:
            gen = blk.opts["generics"]
        if sig is None:
            sig = "fn %s%s(%s)" % (blk.opts.get("as", fn.name), gen, render(params))
            if "unsafe" in fn.quals:
                sig = "unsafe " + sig
            if ret:
                sig += " -> (%s: %s)" % (blk.ret, render(ret).strip())
            if where and "nowhere" not in blk.opts:
                sig += "\n    where " + render(where)
        # loop annotations and ghost insertions
        loops = find_loops(body)
        ins = {}  # token index -> text inserted before that token

        def add(ix, txt):
            ins.setdefault(ix, []).append(txt)

        for k, txt in blk.loops.items():
            if k >= len(loops):
                raise AttachError("%s: loop %d is gone" % (blk.key, k))
            add(loops[k][1], "\n" + ren(txt) + "\n")
        for where_, txt in blk.ats:
            txt = "\n" + ren(txt) + "\n"
            if where_[0] == "start":
                add(0, txt)
            elif where_[0] == "finish":  # after the last statement (functions without a result expression)
                add(len(body), txt)
            elif where_[0] == "end":
                add(self._tail_start(body), txt)
            elif where_[0] in ("loop_start", "loop_end", "before_loop", "after_loop", "loop_tail", "loop_begin", "past_loop", "loop_outer"):
                k = int(where_[1])
                if k >= len(loops):
                    raise AttachError("%s: loop %d is gone" % (blk.key, k))
                kw, bo, bc = loops[k]
                if where_[0] == "loop_start":
                    # after the desugared element binding, if there is one
                    add(self._after_desugar(body, bo, k), txt)
                elif where_[0] == "loop_begin":
                    add(bo + 1, txt)
                elif where_[0] in ("loop_end",):
                    add(bc, txt)
                elif where_[0] == "loop_tail":
                    add(bo + 1 + self._tail_start(body[bo + 1 : bc]), txt)
                elif where_[0] == "before_loop":
                    add(self._stmt_start(body, kw), txt)
                elif where_[0] == "loop_outer":  # before the block a desugared for-loop is wrapped in
                    j = next((j for j in range(kw, max(-1, kw - 400), -1) if body[j].text == "vf_i%d" % k and body[j - 1].text == "mut"), None)
                    depth = 0
                    while j is not None and j > 0:
                        j -= 1
                        if body[j].text in ")]}":
                            depth += 1
                        elif body[j].text in "([{":
                            if depth == 0:
                                break
                            depth -= 1
                    add(kw if j is None else j, txt)
                elif where_[0] == "past_loop":  # also past the block a desugared for-loop is wrapped in
                    wrapped = any(t.text == "vf_i%d" % k for t in body[max(0, kw - 40) : kw]) and bc + 1 < len(body) and body[bc + 1].text == "}"
                    add(bc + 2 if wrapped else bc + 1, txt)
                else:
                    add(bc + 1, txt)
            elif where_[0] == "before":  # before the k-th occurrence of a token sequence
                m = re.match(r"(?:(\d+) )?(.*)", " ".join(where_[1:]))
                k = int(m.group(1) or 0)
                pat = lex(ren(m.group(2)), True)
                hits = [i for i in range(len(body)) if _match_at(pat, body, i)]
                if len(hits) <= k:
                    raise AttachError("%s: anchor %s is gone" % (blk.key, m.group(2)))
                add(self._stmt_start(body, hits[k]), txt)
            elif where_[0] == "after":
                m = re.match(r"(?:(\d+) )?(.*)", " ".join(where_[1:]))
                k = int(m.group(1) or 0)
                pat = lex(ren(m.group(2)), True)
                hits = [i for i in range(len(body)) if _match_at(pat, body, i)]
                if len(hits) <= k:
                    raise AttachError("%s: anchor %s is gone" % (blk.key, m.group(2)))
                add(self._stmt_end(body, hits[k]), txt)
            else:
                raise SystemExit("bad //@at %s" % (where_,))
        if self.probe == "start" and "noprobe" not in blk.opts:
            add(0, "\n proof { assert(false); } // PROBE %s\n" % blk.key)
            self.nprobes += 1
            self.probe_names.append(blk.key)
        if self.probe == "loops" and "noprobe" not in blk.opts:
            for k, (kw, bo, bc) in enumerate(loops):
                add(bo + 1, "\n proof { assert(false); } // PROBE %s loop %d\n" % (blk.key, k))
                self.nprobes += 1
                self.probe_names.append("%s loop %d" % (blk.key, k))
        s = ""
        for i, t in enumerate(body):
            for x in ins.get(i, []):
                s += x
            s += t.ws + t.text
        for x in ins.get(len(body), []):
            s += x
        self.fns.append(blk.key)
        return "// BEGIN %s (source line %d)\n%s\n%s\n%s\n{%s\n}\n// END %s" % (blk.key, fn.line, blk.attrs, sig, ren(blk.spec_text), s, blk.key)

    def _emit_contract(self, blk, fn):
        """signature and contract of a function whose body is verified in another unit"""
        params, ret, where, generics = [[t.copy() for t in x] for x in (fn.params, fn.ret, fn.where, fn.generics)]
        for rw in blk.rws:
            if rw.split(None, 1)[0] in ("param", "ret"):
                _, params, ret = self._apply_rw(blk, rw, [], params, ret, [0], lambda x: x)
        sig = blk.sig
        if sig is None:
            gen = blk.opts.get("generics", render(generics))
            sig = "fn %s%s(%s)" % (blk.opts.get("as", fn.name), gen, render(params))
            if "unsafe" in fn.quals:
                sig = "unsafe " + sig
            if ret:
                sig += " -> (%s: %s)" % (blk.ret, render(ret).strip())
            if where and "nowhere" not in blk.opts:
                sig += "\n    where " + render(where)
        if self.contracts_by not in self.relies_on:
            self.relies_on.append(self.contracts_by)
        return "// CONTRACT %s (verified in unit %s)\n#[verifier::external_body] /*contract-of %s*/\n%s\n%s\n%s\n{ unimplemented!() }\n" % (blk.key, self.contracts_by, self.contracts_by, blk.attrs, sig, blk.spec_text)

    def _tail_start(self, body):
        """index of the first token of the tail expression (len(body) if there is none)"""
        i, last = 0, 0
        while i < len(body):
            t = body[i]
            if t.kind == "p" and t.text in OPEN:
                c = match_close(body, i)
                stmt_first = body[last].text if last < len(body) else ""
                if t.text == "{" and stmt_first in ("while", "for", "loop", "if", "match", "unsafe", "{"):
                    # a block-like expression statement ends here unless something continues it
                    nx = body[c + 1].text if c + 1 < len(body) else None
                    if nx is None:
                        return last if stmt_first in ("if", "match", "unsafe", "{") else len(body)
                    if nx not in ("else", ".", "?", "{") and self._is_block_end(body, last, c):
                        last = c + 1
                i = c + 1
                continue
            if t.text == ";":
                last = i + 1
            i += 1
        return last

    def _is_block_end(self, body, first, close):
        return True

    def _stmt_start(self, body, ix):
        """walk left to the start of the statement containing ix"""
        i, d = ix, 0
        while i > 0:
            t = body[i - 1]
            if t.kind == "p" and t.text in CLOSE:
                if d == 0 and t.text == "}":
                    return i
                d += 1
            elif t.kind == "p" and t.text in OPEN:
                if d == 0:
                    if t.text == "{":
                        return i
                    i -= 1
                    continue
                d -= 1
            elif t.text == ";" and d == 0:
                return i
            elif t.text == "=>" and d == 0:
                return i
            i -= 1
        return 0

    def _stmt_end(self, body, ix):
        i = ix
        while i < len(body):
            t = body[i]
            if t.kind == "p" and t.text in OPEN:
                i = match_close(body, i) + 1
                continue
            if t.text == ";":
                return i + 1
            if t.kind == "p" and t.text == "}":
                return i
            if t.kind == "p" and t.text in CLOSE:
                pass
            i += 1
        return len(body)

    def _after_desugar(self, body, bo, k):
        I = "vf_i%d" % k
        # find the `vf_ik = vf_ik +/- 1 ;` statement directly after the opening brace
        i = bo + 1
        lim = min(len(body), bo + 60)
        end = bo + 1
        while i < lim:
            if body[i].text == I and body[i + 1].text == "=" and body[i + 2].text == I:
                j = i
                while body[j].text != ";":
                    j += 1
                end = j + 1
                # a reversed range binds after the decrement
                if body[i + 3].text == "-":
                    while body[end].text != ";":
                        end += 1
                    end += 1
                break
            i += 1
        return end

    def _apply_rw(self, blk, rw, body, params, ret, counter, ren):
        m = re.match(r"^(\w+)(?:\s+(.*))?$", rw, re.S)
        kind, arg = m.group(1), m.group(2) or ""
        self.rewrite_log.append("%s: %s" % (blk.key, rw))
        if kind == "optmap":
            body, n = opt_map(body)
        elif kind == "for":
            body = desugar_for(body, counter)
        elif kind == "whilelet":
            # while let P = E { B }  ->  loop { if let P = E { B } else { break; } }
            i, n = 0, 0
            while i < len(body):
                if body[i].text == "while" and body[i + 1].text == "let":
                    j = i + 2
                    while body[j].text != "{":
                        j = match_close(body, j) + 1 if body[j].kind == "p" and body[j].text in OPEN else j + 1
                    # a struct pattern before `=` also opens a brace
                    if "=" not in [t.text for t in body[i:j]]:
                        j = match_close(body, j) + 1
                        while body[j].text != "{":
                            j = match_close(body, j) + 1 if body[j].kind == "p" and body[j].text in OPEN else j + 1
                    e = match_close(body, j)
                    body = body[:i] + T(" loop { if") + body[i + 1 : e + 1] + T(" else { break; } }") + body[e + 1 :]
                    n += 1
                i += 1
            if n == 0:
                raise AttachError("%s: while let is gone" % blk.key)
        elif kind == "loopval":
            # let X = loop { .. break E; .. };  ->  let mut vf_bv = None; loop { .. { vf_bv = Some(E); break; } .. } let X = vf_bv.unwrap();
            out, i, n = [], 0, 0
            while i < len(body):
                if body[i].text == "let" and i + 3 < len(body):
                    j = i + 1
                    while body[j].text not in ("=", ";", "{", "("):
                        j += 1
                    if body[j].text == "=" and body[j + 1].text == "loop" and body[j + 2].text == "{":
                        e = match_close(body, j + 2)
                        inner, _ = rewrite(body[j + 3 : e], "break $e;", "{ vf_bv%d = Some($e); break; }" % n)
                        out += T("let mut vf_bv%d: Option<%s> = None; loop {" % (n, arg or "_")) + inner + T("}") + [body[i]] + body[i + 1 : j] + T(" = vf_bv%d.unwrap();" % n)
                        n += 1
                        i = e + 2
                        continue
                out.append(body[i])
                i += 1
            body = out
            if n == 0:
                raise AttachError("%s: loop value is gone" % blk.key)
        elif kind == "drop_debug_assert":
            # asserts() already ran: work on the original text instead
            body = body
            raise SystemExit("use dropcall")
        elif kind == "dropcall":
            # delete a statement that is a single macro/func call, e.g. reporting
            body, n = rewrite(body, arg, "")
        elif kind in ("sub", "sub?", "subopt"):
            a, _, b = arg.partition(" ===> " if " ===> " in arg else " => ")
            body, n = rewrite(body, ren(a), ren(b))
            if n == 0 and kind == "sub":
                raise AttachError("%s: rewrite `%s` does not apply any more" % (blk.key, a))
        elif kind == "param":
            a, _, b = arg.partition(" ===> " if " ===> " in arg else " => ")
            params, n = rewrite(params, ren(a), ren(b))
            if n == 0:
                raise AttachError("%s: parameter rewrite `%s` does not apply any more" % (blk.key, a))
        elif kind == "ret":
            a, _, b = arg.partition(" ===> " if " ===> " in arg else " => ")
            ret, n = rewrite(ret, a, b)
            if n == 0:
                raise AttachError("%s: return type rewrite `%s` does not apply any more" % (blk.key, a))
        else:
            raise SystemExit("unknown rewrite %s" % rw)
        return body, params, ret


BENIGN_CALLS = {"drop", "min", "max"}

"""A small Rust lexer: enough to cut items out of real source files by token structure.

Every token remembers the whitespace that preceded it (comments are dropped and replaced by their
whitespace), so re-emitting a token list gives back the original text minus comments.
"""
import re

PUNCT3 = ["<<=", ">>=", "...", "..="]
PUNCT2 = ["::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]
OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")": "(", "]": "[", "}": "{"}


class LexError(Exception):
    pass


class Tok:
    __slots__ = ("kind", "text", "ws", "line")

    def __init__(self, kind, text, ws=" ", line=0):
        self.kind, self.text, self.ws, self.line = kind, text, ws, line

    def __repr__(self):
        return "%s" % self.text

    def copy(self):
        return Tok(self.kind, self.text, self.ws, self.line)


_id = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"0x[0-9a-fA-F_]+[a-z0-9]*|0b[01_]+[a-z0-9]*|0o[0-7_]+[a-z0-9]*|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?[a-z0-9_]*")
_rawstr = re.compile(r'b?r(#*)"')
_life = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*(?!')")
_char = re.compile(r"b?'(?:\\.[^']*|[^'\\])'")


def lex(src, metavars=False):
    i, n = 0, len(src)
    out = []
    ws = ""
    line = 1
    while i < n:
        c = src[i]
        if c in " \t\r\n":
            ws += c
            if c == "\n":
                line += 1
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    if src[j] == "\n":
                        line += 1
                    j += 1
            i = j
            ws += " "
            continue

        def add(kind, text):
            nonlocal i, ws, line
            out.append(Tok(kind, text, ws, line))
            line += text.count("\n")
            ws = ""
            i += len(text)

        if metavars and c == "$":
            m = re.compile(r"\$[A-Za-z_]+(?::[a-z]+)?").match(src, i)
            if m:
                add("meta", m.group())
                continue
        m = _rawstr.match(src, i)
        if m:
            end = src.index('"' + m.group(1), m.end())
            add("str", src[i : end + 1 + len(m.group(1))])
            continue
        if c == '"' or src.startswith('b"', i):
            j = i + (2 if c == "b" else 1)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            add("str", src[i : j + 1])
            continue
        if c == "'" or src.startswith("b'", i):
            m = _char.match(src, i)
            if m and not (_life.match(src, i) and not m.group().endswith("'")):
                add("char", m.group())
                continue
            m = _life.match(src, i)
            if m:
                add("life", m.group())
                continue
            raise LexError("bad quote at line %d" % line)
        m = _id.match(src, i)
        if m:
            add("id", m.group())
            continue
        if c.isdigit():
            m = _num.match(src, i)
            t = m.group()
            # `0..n`: the float rule needs a digit after the dot, so ranges are safe
            add("num", t)
            continue
        for p in PUNCT3 + PUNCT2:
            if src.startswith(p, i):
                add("p", p)
                break
        else:
            add("p", c)
    return out


def match_close(toks, i):
    """index of the token closing the bracket opened at i"""
    stack = []
    for j in range(i, len(toks)):
        t = toks[j].text
        if toks[j].kind == "p":
            if t in OPEN:
                stack.append(t)
            elif t in CLOSE:
                if not stack or stack[-1] != CLOSE[t]:
                    raise LexError("unbalanced at line %d" % toks[j].line)
                stack.pop()
                if not stack:
                    return j
    raise LexError("unclosed bracket from line %d" % toks[i].line)


def skip_generics(toks, i):
    """toks[i] is '<': return the index just after the matching '>'"""
    depth = 0
    j = i
    while j < len(toks):
        t = toks[j].text
        if t == "<":
            depth += 1
        elif t == ">":
            depth -= 1
        elif t == ">>":
            depth -= 2
        elif t == "<<":
            depth += 2
        elif t in OPEN and toks[j].kind == "p":
            j = match_close(toks, j)
        if depth <= 0:
            return j + 1
        j += 1
    raise LexError("unclosed generics")


def render(toks):
    s = ""
    for t in toks:
        s += t.ws + t.text
    return s


def canon(toks):
    return " ".join(t.text for t in toks)


def split_top(toks, sep=","):
    """split on sep at bracket depth 0 (angle brackets of turbofish/generics are not tracked)"""
    parts, cur, i = [], [], 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "p" and t.text in OPEN:
            j = match_close(toks, i)
            cur += toks[i : j + 1]
            i = j + 1
            continue
        if t.kind == "p" and t.text == sep:
            parts.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        parts.append(cur)
    return parts

"""Literals of the Rust sources under a directory: what a fuzzing dictionary is made of.

They only steer generation (a case may use them as a string, a character, a number or a
length); no verdict depends on them.
"""
import os, re
from collections import Counter

TOK = re.compile(r'''
    //[^\n]* | /\*.*?\*/
  | (?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<chr>b?'(?:\\u\{[0-9a-fA-F]+\}|\\.[0-9a-fA-F]{0,2}|[^'\\\n])')
  | (?P<num>(?<![\w.])(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.(?![.a-zA-Z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?)(?:_?[iuf](?:8|16|32|64|128|size))?)
  | (?P<word>[A-Za-z_]\w*)
''', re.X | re.S)
# A narrow type has its limit as a literal.
EDGES = {"u8": 255, "i8": 127, "u16": 65535, "i16": 32767, "u32": 2 ** 32 - 1, "i32": 2 ** 31 - 1, "f32": 2 ** 24}


def unescape(s):
    def one(m):
        e = m.group(1)
        if e.startswith("u{"):
            try:
                return chr(int(e[2:-1], 16))
            except ValueError:
                return ""
        if e[0] == "x" and len(e) == 3:
            return chr(int(e[1:], 16))
        if e[0] == "\n":
            return ""
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(e[0], e[0])
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|\n\s*|.)", one, s, flags=re.S)


def of_text(text):
    out = Counter()
    i = text.find("mod tests {")
    if i >= 0:
        text = text[:i]
    for m in TOK.finditer(text):
        try:
            if m.group("raw"):
                s = m.group("raw")
                out["s", s[s.index('"') + 1:len(s) - 1 - len(m.group("h"))]] += 1
            elif m.group("str"):
                s = m.group("str")
                out["s", unescape(s[s.index('"') + 1:-1])] += 1
            elif m.group("chr"):
                s = m.group("chr")
                out["s", unescape(s[s.index("'") + 1:-1])] += 1
            elif m.group("num"):
                s = re.sub(r"_?(?:[iu](?:8|16|32|64|128|size)|f32|f64)$", "", m.group("num")).replace("_", "")
                if s[:2] in ("0x", "0b", "0o"):
                    out["i", int(s, 0)] += 1
                elif re.fullmatch(r"[0-9]+", s):
                    out["i", int(s)] += 1
                else:
                    out["f", float(s)] += 1
            elif m.group("word") in EDGES:
                out["i", EDGES[m.group("word")]] += 1
        except ValueError:
            pass
    return out


def of_tree(root):
    out = Counter()
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".rs"):
                with open(os.path.join(d, f), encoding="utf-8", errors="replace") as h:
                    out += of_text(h.read())
    return {x: n for x, n in out.items() if not (x[0] == "s" and (x[1] == "" or len(x[1]) > 60)) and not (x[0] == "i" and x[1] >= 2 ** 63)}


def line(x):
    return x[0] + ":" + (x[1].encode("utf-8", "replace").hex() if x[0] == "s" else repr(x[1]))


def fresh(root, baseline):
    """Literals that occur more often than in the baseline file, as lines."""
    base = {}
    with open(baseline) as f:
        for l in f:
            n, _, x = l.strip().partition(" ")
            base[x] = int(n)
    return sorted(line(x) for x, n in of_tree(root).items() if n > base.get(line(x), 0))


if __name__ == "__main__":
    import sys
    for l, n in sorted((line(x), n) for x, n in of_tree(sys.argv[1]).items()):
        print(n, l)

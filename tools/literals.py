#!/usr/bin/env python3
"""The literals of /repo's sources, per file.  `literals.py write` records them in tools/literals.json; the checks hand the literals that
are not recorded there to the bounded search as a hint (a dictionary, as fuzzers use).  They never decide anything."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = re.compile(r"""//[^\n]*|/\*.*?\*/|b?r(\#*)"(.*?)"\1|b?"((?:\\.|[^"\\])*)"|b?'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^'\\\n])'|\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?\b""", re.S)
def unq(t):
    def f(m):
        g = m.group(1)
        if g[0] == "x": return chr(int(g[1:], 16))
        if g[0] == "u": return chr(int(g[2:-1].replace("_", ""), 16))
        if g[0] == "\n": return ""
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(g, g)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|\n\s*|.)", f, t, flags=re.S)
def of(text):
    text = re.split(r"(?m)^#\[cfg\(test\)\]", text)[0]
    s, n = set(), set()
    for m in TOK.finditer(text):
        if m.group(2) is not None: s.add(m.group(2))
        elif m.group(3) is not None: s.add(unq(m.group(3)))
        elif m.group(4) is not None: s.add(unq(m.group(4)))
        elif m.group(5) is not None: n.add(int(m.group(5).replace("_", ""), 0) if m.group(5).startswith("0x") else int(m.group(5).replace("_", "")))
    return {"s": sorted(s), "n": sorted(n)}
def scan(repo):
    r = {}
    for d, _, fs in os.walk(repo + "/src"):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                r[os.path.relpath(p, repo)] = of(open(p, errors="replace").read())
    return r
def new(repo):
    try: old = json.load(open(V + "/tools/literals.json"))
    except (OSError, ValueError): return []
    out = []
    for f, l in sorted(scan(repo).items()):
        o = old.get(f, {"s": [], "n": []})
        for t in l["s"]:
            if t not in o["s"] and t:
                b = t.encode("utf-8", "replace")
                x = "s " + "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\x%02x" % c for c in b)
                # what a format string leaves once its holes are gone is a hint, too
                out.append(x)
                for piece in re.split(r"\{[^}]*\}", t):
                    if piece and piece != t: out.append("s " + "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\x%02x" % c for c in piece.encode()))
        for k in l["n"]:
            if k not in o["n"] and 0 <= k < 2 ** 63: out.append("n %d" % k)
    return sorted(set(out))
if __name__ == "__main__":
    repo = os.environ.get("VERIF_REPO", "/repo")
    if sys.argv[1:] == ["write"]:
        json.dump(scan(repo), open(V + "/tools/literals.json", "w"), indent=0, ensure_ascii=True); print("ok")
    else:
        print("\n".join(new(repo)))

"""Literals of the code under test, as hints for the input generators (like a fuzzer's dictionary).

Nothing is judged by them: they only make inputs with these words, characters and sizes more likely.
Literals which occur more often than in the committed list harness/lits.json (taken from the pinned
tree), in total and in their file, get more weight. Usage: lits.py REPO OUT | lits.py REPO --baseline"""
import json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:\\.|[^"\\])*)"|b?'(\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])'|(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w.])''', re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}

def unesc(s):
    def f(m):
        e = m.group(1)
        if e[0] == "u": return chr(int(e[2:-1].replace("_", ""), 16))
        if e[0] == "x": return chr(int(e[1:], 16))
        if e[0] == "\n": return ""
        return ESC.get(e, e)
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\n\s*|.)", f, s, flags=re.S)

def literals(repo):
    S, I = {}, {}
    for base in ("crates/ludtwig/src", "crates/ludtwig-parser/src"):
        for d, dirs, files in os.walk(os.path.join(repo, base)):
            for fn in files:
                if not fn.endswith(".rs"): continue
                rel = os.path.relpath(os.path.join(d, fn), repo)
                def add(m, k):
                    for w in (rel, ""):
                        m.setdefault(w, {}).setdefault(k, 0)
                        m[w][k] += 1
                t = open(os.path.join(d, fn), encoding="utf-8", errors="replace").read()
                t = re.split(r"#\[cfg\(test\)\]\s*(?:pub )?mod \w+ \{", t)[0]
                for m in TOK.finditer(t):
                    raw, st, ch, n = m.group(2), m.group(3), m.group(4), m.group(5)
                    if n is not None:
                        try: v = int(n.replace("_", ""), 0)
                        except ValueError:
                            try: v = int(n.replace("_", ""))
                            except ValueError: continue
                        if v <= 100000: add(I, str(v))
                    elif m.group(0).startswith("/"): continue
                    else:
                        s = raw if raw is not None else unesc(st if st is not None else ch)
                        for part in set(re.split(r"\{[^{}]*\}", s) + [s]):
                            if 0 < len(part) <= 40: add(S, part)
    return S, I

def main():
    repo, out = sys.argv[1:3]
    S, I = literals(repo)
    bl = os.path.join(V, "harness", "lits.json")
    if out == "--baseline":
        json.dump({"s": S, "i": I}, open(bl, "w"), indent=0, sort_keys=True)
        return
    b = json.load(open(bl)) if os.path.exists(bl) else {"s": {}, "i": {}}
    def novel(now, old, k):
        more = lambda f: now[f].get(k, 0) > old.get(f, {}).get(k, 0)
        return more("") and any(f and more(f) for f in now)
    h = lambda s: s.encode("utf-8", "surrogatepass").hex()
    with open(out, "w") as f:
        for s in sorted(S.get("", {})): f.write(("S " if novel(S, b["s"], s) else "s ") + h(s) + "\n")
        for i in sorted(I.get("", {}), key=int): f.write(("I " if novel(I, b["i"], i) else "i ") + i + "\n")

if __name__ == "__main__": main()

#!/usr/bin/env python3
"""Development-time tool: pack the Move snippets of /repo's test data into corpus/*.txt.
Records are separated by a line '=== <name>'; inside a record '//- /path' starts another file."""
import os, re, sys, hashlib
R = "/repo/crates"
out, seen = [], set()
def clean(t):
    t = t.replace("\r\n", "\n").replace("/*caret*/", "")
    lines = []
    for l in t.split("\n"):
        if re.match(r"^\s*//\s*(\^|X\b|X$)", l):
            continue
        lines.append(l.rstrip() if not l.strip() else l)
    return "\n".join(lines).strip("\n") + "\n"
def add(name, t):
    t = clean(t)
    if "\n=== " in t or len(t) < 12:
        return
    h = hashlib.sha1(re.sub(r"\s+", " ", t).encode()).hexdigest()
    if h in seen:
        return
    seen.add(h)
    out.append((name, t))
for root, dirs, files in sorted(os.walk(R)):
    dirs.sort()
    for f in sorted(files):
        p = os.path.join(root, f)
        if f.endswith(".move"):
            add(os.path.relpath(p, R), open(p).read())
for root, dirs, files in sorted(os.walk(os.path.join(R, "ide-tests/src"))):
    dirs.sort()
    for f in sorted(files):
        if not f.endswith(".rs"):
            continue
        t = open(os.path.join(root, f)).read()
        for i, m in enumerate(re.finditer(r'r#"(.*?)"#', t, re.S)):
            s = m.group(1)
            if not re.search(r"\b(module|script|spec)\b[^;]*\{", s):
                continue
            if "[package]" in s and "//-" not in s:
                continue
            if re.match(r"\s*(\[|\"|SOURCE_FILE|Ok\()", s):
                continue
            add("ide-tests/%s#%d" % (f[:-3], i), s)
os.makedirs("/verif/corpus", exist_ok=True)
multi = [(n, t) for n, t in out if "//- /" in t]
single = [(n, t) for n, t in out if "//- /" not in t]
for fn, recs in (("single.txt", single), ("multi.txt", multi)):
    with open("/verif/corpus/" + fn, "w") as f:
        for n, t in recs:
            f.write("=== %s\n%s" % (n, t))
    print(fn, len(recs), sum(len(t) for _, t in recs))

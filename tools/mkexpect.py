#!/usr/bin/env python3
"""Pack the worked examples of /repo/crates/ide-tests (source, question, expected answer) into
corpus/expect.jsonl. Run by hand; the checks read only the packed file."""
import sys, os, json, glob, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rsargs import calls, parse_str
ROOT = "/repo/crates/ide-tests"

def trim_indent(t):
    if t.startswith("\n"):
        t = t[1:]
    lines = t.splitlines(keepends=True)
    ind = min([len(l) - len(l.lstrip(" ")) for l in lines if l.strip()] or [0])
    return "".join(l.lstrip(" ") if len(l) <= ind else l[ind:] for l in lines)

KINDS = {"check_resolve": "resolve", "check_expr_type": "exprtype", "check_call_expr_type": "callexprtype",
         "check_diagnostics": "diag", "check_diagnostics_and_fix": "diagfix", "check_diagnostics_apply_import_fix": "importfix",
         "check_diagnostics_no_import_fix": "nofix", "check_completions": "completions", "do_single_completion": "single",
         "check_no_completions": "nocompletions", "check_out_of_scope_completions": "outcompletions",
         "do_out_of_scope_completion": "outsingle", "check_inlay_hints": "inlay", "check_hover": "hover",
         "check_find_usages": "usages", "check_rename": "rename", "check_organize_imports": "organize",
         "check_symbols": "symbols", "check_goto_spec": "gotospec", "check_signature_info": "signature",
         "check_highlighting_for_text": "highlight", "check_code_lens": "codelens"}
out = []
for p in sorted(glob.glob(ROOT + "/src/**/*.rs", recursive=True)):
    s = open(p).read()
    for n, t, a in calls(s, r"check_\w+|do_\w+"):
        if n not in KINDS or t in KINDS:
            continue
        vals = []
        for k, v in a:
            if k == "x" and v == "source":
                m = list(re.finditer(r"let source =(\s|//.*\n)*", s[:s.index("fn %s(" % t) + 4000]))
                m = [x for x in m if x.start() > s.index("fn %s(" % t)]
                k, v = "s", parse_str(s, m[0].end())[0]
            elif k == "x":
                m = re.match(r'Query::new\("(\w+)", Some\((\d+)\)', v)
                if not m:
                    vals = None
                    break
                k, v = "s", m.group(1) + ":" + m.group(2)
            vals.append(trim_indent(v) if k == "e" else v)
        if vals is None:
            continue
        # commented-out tests
        i = s.index("fn %s(" % t)
        if s[s.rfind("\n", 0, i):i].strip().startswith("//"):
            continue
        out.append({"kind": KINDS[n], "name": os.path.basename(p)[:-3] + "::" + t, "args": vals})
with open("/verif/corpus/expect.jsonl", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
import collections
print(collections.Counter(o["kind"] for o in out), len(out))

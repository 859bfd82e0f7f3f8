#!/usr/bin/env python3
"""Lay out a cargo workspace over /repo's current tree: one member per crate of /repo, with a
manifest derived from the crate's own (dev-dependencies dropped) and `src` a link to /repo's.
Third-party crates that the sandbox does not have come from /verif/shims."""
import os, re, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO_DIR", "/repo")
GIT_SHIMS = ["stdx", "paths", "vfs", "vfs-notify"]
CRATES_SHIMS = ["rowan", "text-size", "drop_bomb", "line-index", "itertools", "enumset", "salsa",
                "salsa-macros", "fst", "expect-test", "datatest-stable", "pretty_assertions",
                "num_threads", "lsp-server", "gen-lsp-types", "codespan-reporting", "tracing-tree", "shellexpand",
                "duration-string", "pathsearch", "which"]

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)

def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)

def strip_section(text, name):
    """Remove the [name] table of a manifest."""
    return re.sub(r"(?ms)^\[%s\]\n.*?(?=^\[|\Z)" % re.escape(name), "", text)

def main(ws, crates, harnesses, dev=False):
    root = open(os.path.join(REPO, "Cargo.toml")).read()
    deps = re.search(r"(?ms)^\[workspace\.dependencies\]\n(.*?)(?=^\[|\Z)", root).group(1)
    pkg = re.search(r"(?ms)^\[workspace\.package\]\n(.*?)(?=^\[|\Z)", root).group(1)
    for n in GIT_SHIMS:
        deps = re.sub(r'(?m)^%s = \{ git = "[^"]*", rev = "[^"]*"' % re.escape(n),
                      '%s = { path = "%s/shims/%s"' % (n, VERIF, n), deps)
    members = ["crates/" + c for c in crates] + ["h/" + h for h in harnesses]
    text = "[workspace]\nmembers = [%s]\nresolver = \"3\"\n\n" % ", ".join('"%s"' % m for m in members)
    text += "[workspace.package]\n" + pkg + "\n[workspace.dependencies]\n" + deps + "\n"
    text += "[patch.crates-io]\n"
    for n in CRATES_SHIMS:
        if os.path.exists(os.path.join(VERIF, "shims", n, "Cargo.toml")):
            text += '%s = { path = "%s/shims/%s" }\n' % (n, VERIF, n)
    prof = os.path.join(VERIF, "tools", "profile.toml")
    if os.path.exists(prof):
        text += "\n" + open(prof).read()
    write(os.path.join(ws, "Cargo.toml"), text)
    for c in crates:
        src = os.path.join(REPO, "crates", c)
        m = open(os.path.join(src, "Cargo.toml")).read()
        if not dev:
            m = strip_section(m, "dev-dependencies")
            m = strip_section(m, "[test]")
        m = strip_section(m, "target.'cfg(windows)'.dependencies")
        write(os.path.join(ws, "crates", c, "Cargo.toml"), m)
        for d in os.listdir(src):
            if d in ("src", "tests", "resources", "build.rs", "languages") and (d in ("src", "build.rs", "resources") or dev):
                link(os.path.join(src, d), os.path.join(ws, "crates", c, d))
    for h in harnesses:
        os.makedirs(os.path.join(ws, "h"), exist_ok=True)
        link(os.path.join(VERIF, "harness", h), os.path.join(ws, "h", h))

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("ws")
    ap.add_argument("--crates", default="")
    ap.add_argument("--harness", default="")
    ap.add_argument("--dev", action="store_true")
    a = ap.parse_args()
    main(a.ws, [c for c in a.crates.split(",") if c], [c for c in a.harness.split(",") if c], a.dev)

"""Copies /repo's library into <crate>/gen/bitboost as package `bitboost_inst`, prepared for the
controlled scheduler. level 2: std::sync, std::thread and thread_local! are replaced by the
scheduler's, and accesses to shared structures become scheduling points; level 1: only the former;
level 0: an unchanged copy (its jobs are still scheduled by the replaced rayon-core)."""
import os, re, shutil, sys

REPO = "/repo"


def strip(src):
    """Same text with comments, strings and char literals blanked (same length)."""
    out = list(src)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'', src, re.S):
        for i in range(m.start(), m.end()):
            if out[i] != "\n":
                out[i] = " "
    return "".join(out)


def points(src):
    """A scheduling point at the start of every accessor of the shared stores."""
    code = strip(src)
    cut = code.find("#[cfg(test)]")
    res, last = [], 0
    for m in re.finditer(r"(const\s+)?(?:unsafe\s+)?fn\s+(get_(?:hist|two_hist|bitslice|nbins|bitvec_mut)\w*|alloc_hists|hists_subtract|sum_hist)\b", code):
        if m.group(1) or (0 <= cut < m.start()):
            continue
        i, depth = m.end(), 0
        while i < len(code):
            c = code[i]
            if c in "([":
                depth += 1
            elif c in ")]":
                depth -= 1
            elif depth == 0 and c == ";":
                i = -1
                break
            elif depth == 0 and c == "{":
                break
            i += 1
        if i < 0 or i >= len(code):
            continue
        res.append(src[last:i + 1])
        res.append(" mc_sync::point();")
        last = i + 1
    res.append(src[last:])
    return "".join(res)


def ungroup(src):
    """`use std::{sync::X, fmt};` -> `use std::{fmt}; use std::sync::X;` (same line)."""
    code = strip(src)
    res, last = [], 0
    for m in re.finditer(r"\buse\s+(?:::)?std\s*::\s*\{", code):
        i, depth, start, items = m.end(), 1, m.end(), []
        while i < len(code) and depth:
            c = code[i]
            if c == "{":
                depth += 1
            elif c == "}":
                depth -= 1
            if (c == "," and depth == 1) or depth == 0:
                items.append(code[start:i].strip())
                start = i + 1
            i += 1
        moved = [x for x in items if re.match(r"(sync|thread)\b", x)]
        if not moved:
            continue
        rest = [x for x in items if x and x not in moved]
        head = src[:m.start()].rstrip()
        vis = re.search(r"\bpub(?:\([^)]*\))?$", head)
        res.append(src[last:m.start()])
        res.append("use std::{%s}" % ", ".join(rest))
        for x in moved:
            res.append("; %suse std::%s" % (vis.group(0) + " " if vis else "", x))
        last = i
    res.append(src[last:])
    return "".join(res)


def transform(name, src, level):
    src = re.sub(r"#\[(?:unsafe\()?no_mangle\)?\]", "", src)     # the uninstrumented library is linked as well
    if level >= 1:
        src = ungroup(src)
        src = re.sub(r"\b(?:std|core)::sync\b", "mc_sync::sync", src)
        src = re.sub(r"\bstd::thread\b", "mc_sync::thread", src)
        src = re.sub(r"(?<![:\w])(?:std::)?thread_local!", "mc_sync::thread_local!", src)
    if level >= 2 and os.path.basename(name) in ("slice_store.rs", "dataset.rs"):
        src = points(src)
    return src


def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def generate(dst, level):
    """Writes the copy; unchanged files keep their time stamps."""
    keep = set()
    for base, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, REPO)
            if rel.startswith("src/bin/"):
                continue
            t = os.path.join(dst, rel)
            keep.add(t)
            with open(p, encoding="utf8") as f:
                s = f.read()
            put(t, transform(p, s, level) if n.endswith(".rs") else s)
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        toml = f.read()
    secs = re.split(r"(?m)^(?=\[)", toml)
    out = []
    for s in secs:
        h = s.split("\n", 1)[0].strip()
        if h.startswith("[["):
            continue
        if h == "[package]":
            s = re.sub(r'(?m)^name\s*=.*$', 'name = "bitboost_inst"', s)
        elif h == "[lib]":
            s = '[lib]\nname = "bitboost_inst"\ncrate-type = ["rlib"]\n\n'
        elif h == "[dependencies]":
            s = s.rstrip() + '\nmc_sync = { path = "../../mc_sync" }\n\n'
        elif h.startswith("[profile") or h.startswith("[dev-dependencies"):
            continue
        out.append(s)
    t = os.path.join(dst, "Cargo.toml")
    put(t, "".join(out))
    for base, _, names in os.walk(os.path.join(dst, "src")):
        for n in names:
            p = os.path.join(base, n)
            if p not in keep:
                os.remove(p)


if __name__ == "__main__":
    generate(sys.argv[1], int(sys.argv[2]))

#!/usr/bin/env python3
"""Create seeded/<id> from a spec on stdin: blocks '@@key' followed by text. Keys: id, property, needs, breaks, old, new (repeatable pairs), demo (C++ statements in main; return nonzero on failure), pre (C++ before main)."""
import sys, os, re, json, subprocess, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = []
for chunk in re.split(r"^=====\n", sys.stdin.read(), flags=re.M):
    if not chunk.strip(): continue
    d = []; cur = None
    for line in chunk.split("\n"):
        m = re.match(r"^@@(\w+)(?: (.*))?$", line)
        if m: cur = [m.group(1), [m.group(2)] if m.group(2) else []]; d.append(cur)
        elif cur: cur[1].append(line)
    specs.append([(k, "\n".join(v).strip("\n")) for k, v in d])
for sp in specs:
    g = dict(sp); ident = g["id"]
    src = open("/repo/strtk.hpp").read(); new = src
    pairs = [(k, v) for k, v in sp if k in ("old", "new")]
    for (k1, o), (k2, n) in zip(pairs[::2], pairs[1::2]):
        assert k1 == "old" and k2 == "new"
        nth = 0
        m = re.match(r"#(\d+)\n", o)
        if m: nth = int(m.group(1)); o = o[m.end():]
        c = new.count(o)
        assert c >= 1 and (c == 1 or nth), (ident, "matches", c, o)
        pos = -1
        for _ in range(max(nth, 1)): pos = new.index(o, pos + 1)
        new = new[:pos] + n + new[pos + len(o):]
    out = os.path.join(H, "seeded", ident); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    t = tempfile.mkdtemp()
    for n, c in (("a", src), ("b", new)): os.makedirs(os.path.join(t, n)); open(os.path.join(t, n, "strtk.hpp"), "w").write(c)
    diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/strtk.hpp", "b/strtk.hpp"], cwd=t, stdout=subprocess.PIPE).stdout.decode()
    shutil.rmtree(t)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.cpp"), "w").write('#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <vector>\n#include <deque>\n#include <list>\n#include <iostream>\n#include "strtk.hpp"\n#define REQ(c) do { if (!(c)) { std::printf("FAIL: %s\\n", #c); return 1; } } while(0)\n' + g.get("pre", "") + "\nint main()\n{\n" + g["demo"] + "\n   std::puts(\"ok\");\n   return 0;\n}\n")
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd /repo; exit 0 when the property holds on this input\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d) || exit 2\ntrap \'rm -rf "$T"\' EXIT\ng++ -std=c++14 -w -O1 -g %s -Dstrtk_no_tr1_or_boost -I. "$D/demo.cpp" -o "$T/demo" || exit 2\ntimeout 60 "$T/demo"\n' % g.get("cflags", ""))
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    print("created", ident)

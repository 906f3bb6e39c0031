#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md + oracles and bounds (harness headers) + defects (known_findings.txt) + planted bugs (seeded/)"""
import os, re, json, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = {
"C01": "reference splitter written as a left-to-right scan over the text; tokens compared by position and length, so identity of the ranges and not only their text is decided",
"C02": "the full split of C01 truncated to n tokens; offsets applied by index arithmetic; the text before and after the first delimiter",
"C03": "fields taken from a reference splitter, each converted by a reference integer reader or compared as text; on failure only the return value and memory safety are asserted",
"C04": "list of the convertible fields of the reference splitter, in order, and its size as the returned count",
"C05": "reference accepting [+-]?digits with value within the type's range, computed in wider or checked arithmetic (decided as linear integer arithmetic where digits accumulate)",
"C06": "parse(print(v))==v and the printed text has the canonical shape, v fully symbolic",
"C07": "regular language of accepted texts; value: |result - mantissa*10^k| within a relative bound over exact rationals, each IEEE operation contributing at most its rounding error",
"C08": "sum of digit*10^i",
"C09": "nibble arithmetic per character; decode(encode(x))==x; refusal of odd lengths and other characters",
"C10": "6-bit group arithmetic; decode(encode(x))==x; memory safety for arbitrary text",
"C11": "reference hexadecimal/base64 value; validity flag; neighbouring fields untouched",
"C12": "value equality after read(write(v)), amount written = amount read, refusal exactly if the capacity is too small",
"C13": "every access stays inside its object; a read reports success exactly if the bytes suffice",
"C14": "byte reversal by shifts, involution",
"C15": "textbook recursive wildcard matcher over symbolic text and pattern",
"C16": "per-character comparison of ASCII-lowered characters; leftmost occurrence by exhaustive positions",
"C17": "left-to-right non-overlapping replacement by index arithmetic",
"C18": "filtered copy of the text",
"C19": "reference grid: split into rows and tokens; every accessor compared with it",
"C20": "the operation performed on the reference grid; untouched rows compared too",
"C21": "reference parser over pairs; every registered variable compared, unregistered keys counted",
"C22": "association list of insertions, last one wins; prefix test by comparison",
"C23": "membership after insertion, copying, assignment, union, compression, file round trip; bitwise tables for combinations",
"C24": "selection sets enumerated by bit masks; lexicographic order compared neighbour by neighbour; binomials by Pascal's recurrence",
"C25": "string concatenation",
"C26": "bit-by-bit loops over symbolic words",
"C27": "per-character definitions (tables, rotations compared exhaustively)",
"C28": "the variable last bound; copies must not alias the original's buffer",
"C29": "element-wise comparison before/after; destructor counters for owned objects",
"C30": "definition of each adaptor on the token's text",
"C31": "index arithmetic on the text",
"C32": "maximal runs by a scan",
"C33": "lines by a scan for newlines; the rest of the stream is compared",
"C34": "the bytes written; sizes; every cut point",
"C35": "direct definition of each predicate",
"C36": "columns by the reference splitter",
"C37": "definition on plain std::string",
"C38": "the list of items; microsecond arithmetic on arbitrary clock readings",
"C39": "number of live operator-new blocks before and after; double or mismatched release and use after release are violations by themselves",
"C40": "identity numbers of the elements delivered (each at most once, all from the input), lengths, bounds; two runs with one seed are compared element by element; bytes around the buffer are compared",
"C41": "the matches of the stand-in expression found by a scan of the text, as positions",
"C42": "that of C07, applied to the code the options select",
}
out = [open(os.path.join(H, "tools", "design_head.md")).read().rstrip(), ""]
props = {}
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); props[p["id"]] = p
for i in sorted(props):
    out.append("**%s %s.** Oracle: %s." % (i, props[i]["title"], O[i]))
    h = open(os.path.join(H, "harness", i + ".cpp")).read()
    out.append("Bounds: " + "; ".join(m.strip() for m in re.findall(r"^//@ bound (.*)$", h, re.M)) + ".")
    a = [m.strip() for m in re.findall(r"^//@ assume (.*)$", h, re.M)]
    if a: out.append("Assumed: " + "; ".join(a) + ".")
    jobs = re.findall(r"^//@ job (\S+)", h, re.M)
    out += ["Jobs: " + ", ".join(jobs) + ".", ""]
out += [open(os.path.join(H, "tools", "design_defects.md")).read().rstrip(), ""]
by = {}
for l in open(os.path.join(H, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: by.setdefault(m.group(1), []).append("%s (`%s`)" % (m.group(3), m.group(2)))
for i in sorted(by): out += ["* %s: %s." % (i, "; ".join(by[i]))]
out += ["", open(os.path.join(H, "tools", "design_seeded.md")).read().rstrip(), "", "| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = {}
cp = os.path.join(H, "tools", "caught.txt")
if os.path.exists(cp):
    for l in open(cp):
        a, b = l.split(None, 1); caught[a] = b.strip()
sd = os.path.join(H, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], caught.get(s, "?")))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")

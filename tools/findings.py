#!/usr/bin/env python3
"""Rewrite the fixed: lines of KNOWN_FINDINGS.txt from the commits in /repo and the property each belongs to."""
import subprocess, sys
M = dict(l.split() for l in """5e4cbae C38
f251f8d C38
fff6cbe C38
d7108ff C38
23a6362 C40
cb5f32d C40
11342bf C32
2dd9d6a C38
3158514 C38
3daf9fc C32
844781e C38
5663f68 C38
578c302 C35
defed3c C26
9f3689d C07
8e46e7c C05
694b8b3 C02
d93aa27 C21
dafd9f1 C15
6e30bfd C25
fdbec4f C34
b7cec7e C35
aec86c3 C35
3ecd879 C32
570f38c C32
94e2870 C19
1b02ac9 C27
c8fca2a C24
ca33a75 C21
7338be9 C26
42098b0 C24
8bacf07 C25
7bf8a5a C28
5c06dfc C27
a223fb2 C27
28bd086 C27
c8d41bc C33
fd1a9d7 C21
58b7b28 C20
74bd7c0 C20
0f540ea C20
f73a01c C16
a30a7ee C15
d037ef8 C15
2f978c7 C15
6dceff5 C08
190059f C05
d29daf9 C19
38176ef C10
821b906 C08
14fea47 C03
ea79b31 C03
ae9e27f C10
4bd15c8 C02
23a1328 C02
78b42b7 C02
23691df C10
bab5642 C08
38bb148 C01
07c16f8 C08
19b40b7 C06
debbcfe C07
5b68bc1 C07
ee496d4 C22
70d7f46 C23
198b9a2 C12
6e32b34 C11""".splitlines())
out = ["# Genuine defects the checks found. A 'finding:' line is known, and reported as KNOWN-FINDING; a 'fixed:' line suppresses nothing.\n"]
try:
    out += [l for l in open("KNOWN_FINDINGS.txt") if l.startswith("finding:")]
except FileNotFoundError:
    pass
for rec in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h%x00%s%x00%b%x01", "363ba41..HEAD"], text=True).split("\x01"):
    if not rec.strip():
        continue
    h, s, b = rec.strip().split("\x00")
    b = " ".join(b.split()) or "(" + s[5:] + ")"
    out.append("fixed: property=%s %s %s: %s\n" % (M[h], h, s[5:].split(":")[0] if ":" in s[5:] else "frames", b))
open("KNOWN_FINDINGS.txt", "w").write("".join(out))

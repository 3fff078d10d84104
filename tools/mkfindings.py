#!/usr/bin/env python3
"""Writes /verif/known_findings.txt from the fix: commits of /repo and the property each one belongs to."""
import subprocess, os
M = {}
for p, hs in {
 "P01":"1265fcd 410d776 021d6ee", "P02":"b6c88c3 dd372eb", "P03":"41bebfc", "P04":"235294e 06952fb",
 "P05":"5fbdcfc bf8f693 f6915ef e1d8924 4d4aa7e dc1aa23 caf24ba", "P06":"9dfa51a be9ccd9 ea2c0f5 790f965 c959855 0bc4bc2 e352c74 c43e97a a4d5c3d b935fe3 cf8e254 48ee189 e0e1ab6 39b9689 691a66f",
 "P07":"8eb08e7 eb48478 c00f8a9 ee79386", "P08":"f4c6d90 bcff0f5 077f07b c15e2fc 0501203",
 "P09":"a98eab8 ada75a0 cb8c90b e1aa19d 4308595 10d3246", "P10":"cfc19e4", "P12":"61efa10 1089836",
 "P13":"99d3e8d 5e1f0d3 994e301 f44bf12", "P14":"bfbe269 5a58cd5 c817e47 79e51b2 838a58f", "P15":"a96b2f6 9efb0fb",
 "P16":"5591ba8 2ff1af6 ea15ea0 b23d4c1 b574cdc 5fed0d1", "P17":"9ec29c2", "P18":"e988949 956f88a", "P19":"d5602bd 811d789 a714232",
 "P20":"928a26e 78048aa 442665c 89a744f", "P21":"4db519d 9da6631 13b23cc 5e98073", "P22":"2343dab 77a15ee 382bb79 8e8fbb2 9f34317", "P23":"b7f42b4 a47f1ee",
 "P24":"ad08f0a 453794f 2e95c60 c22b500", "P25":"5703f82 1dcbc0e 876c532", "P26":"387bf0a f583190", "P27":"aed06ad 99dba93 efb7878 4d1742d 26a682b", "P28":"4d41382 52cc287", "P29":"2f6b3b9"}.items():
    for h in hs.split(): M[h] = p
EXTRA = {}
x = os.path.join(os.path.dirname(os.path.abspath(__file__)), "findings_extra.txt")
if os.path.exists(x):
    for l in open(x):
        if l.strip() and not l.startswith("#"): h, p = l.split()[:2]; M[h] = p
log = subprocess.run(["git","-C","/repo","log","--reverse","--abbrev=7","--format=%h %s"],capture_output=True,text=True).stdout
out = ["# Genuine defects of Minxrod/sbc found by the checks. All listed ones are repaired in /repo; a fixed entry suppresses nothing."]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    if h not in M:
        if h not in open(x).read() if os.path.exists(x) else True: print("no property for", l)
        continue
    out.append(f"fixed: property={M[h]} {h} {s[4:].strip()}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known_findings.txt"),"w").write("\n".join(out)+"\n")
print(len(out)-1)

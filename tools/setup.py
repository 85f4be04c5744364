#!/usr/bin/env python3
"""Check the tool chain and warm Go's build cache (the checks build by themselves)."""
import os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
seen = set()
for pid, ck in sorted(check.CHECKS.items()):
    flags = list(ck.get("flags", [])) + (["-race"] if ck.get("race") else [])
    k = (ck["cmd"], tuple(flags))
    if k in seen:
        continue
    seen.add(k)
    w = tempfile.mkdtemp(prefix="vp-setup-")
    try:
        _, _, s = check.build(w, ck["cmd"], flags, ck.get("gen"), ck.get("fx"))
        print("%s %s built in %.1f s" % (ck["cmd"], " ".join(flags), s))
    finally:
        shutil.rmtree(w, ignore_errors=True)

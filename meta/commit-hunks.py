#!/usr/bin/env python3
"""commit-hunks.py FILE 'i,j' MSG: commit chosen hunks of FILE's unstaged diff"""
import os, re, subprocess, sys
REPO = os.environ.get("VF_REPO", "/repo")
f, idx, msg = sys.argv[1:]
d = subprocess.check_output(["git", "-C", REPO, "diff", "-U1", f]).decode("latin-1")
i = d.index("\n@@") + 1
h = [x for x in re.split(r"(?m)^(?=@@)", d[i:]) if x]
use = [h[int(k)] for k in idx.split(",")]
subprocess.run(["git", "-C", REPO, "apply", "--cached", "--recount", "--unidiff-zero", "-"], input=(d[:i] + "".join(use)).encode("latin-1"), check=True)
subprocess.check_call(["git", "-C", REPO, "commit", "-qm", msg])
print(subprocess.check_output(["git", "-C", REPO, "log", "--oneline", "-1", "--stat"]).decode())

#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import subprocess, sys, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "DESIGN.md")
s = open(D).read()
mark = "|---|---|---|---|\n"
k = s.rindex(mark) + len(mark)
t = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "design_seeds.py")], capture_output=True, text=True).stdout
open(D, "w").write(s[:k] + t)

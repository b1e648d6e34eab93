#!/usr/bin/env python3
"""setup_cmd: checks that the compiler is present and that the reference implementations agree with hashlib."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    exe = os.path.join(d, "vr")
    subprocess.check_call(["g++-13", "-O2", "-std=c++20", "-w", os.path.join(V, "ref/validate_refs.cc"), "-o", exe])
    out = os.path.join(d, "vr.txt")
    subprocess.check_call([exe], stdout=open(out, "w"))
    subprocess.check_call([sys.executable, os.path.join(V, "ref/validate_refs.py"), out])

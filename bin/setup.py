#!/usr/bin/env python3
"""Checks that the engine builds and that its expression simplifier is right (every check rebuilds it in its own scratch folder)."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w = tempfile.mkdtemp(prefix='vp_setup_')
r = subprocess.run(['bash', V + '/engine/build.sh', w + '/symex']).returncode
if r == 0:  # the expression simplifier against plain evaluation
    r = subprocess.run(['clang++-18', '-std=c++17', '-O2', '-w', V + '/engine/selftest.cpp', '-o', w + '/selftest', '-lz3']).returncode
    r = r or subprocess.run([w + '/selftest', '1500']).returncode
shutil.rmtree(w, ignore_errors=True)
sys.exit(r)

#!/usr/bin/env python3-vt
"""offline sanity check of the toolchain the checks need; builds nothing persistent except __pycache__"""
import os, sys, subprocess, ctypes
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/engine')
import z3, ir, sym, vf
os.makedirs(H + '/build', exist_ok=True); os.makedirs(H + '/evidence', exist_ok=True)
subprocess.run([vf.CLANG[0], '--version'], check=True, stdout=subprocess.DEVNULL)
subprocess.run(['g++', '--version'], check=True, stdout=subprocess.DEVNULL)
subprocess.run(['cvc5', '--version'], check=True, stdout=subprocess.DEVNULL)
print('ok z3', z3.get_version_string())

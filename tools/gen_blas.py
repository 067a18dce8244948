#!/usr/bin/env python3
"""Write the trampolines of the BLAS seam from the list of library routines (sim/harness/src/blas_syms.txt)."""
import os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "harness", "src")
syms = open(os.path.join(d, "blas_syms.txt")).read().split()
o = ['.text', '.macro rsim_stub id, name', '.globl \\name', '.type \\name,@function', '\\name: mov r11d, \\id', 'jmp rsim_blas_common', '.endm']
o += [f'rsim_stub {i}, {s}' for i, s in enumerate(syms)]
open(os.path.join(d, "blas_stubs.s"), "w").write("\n".join(o) + "\n")

#!/usr/bin/env python3-vt
"""setup: check that the tools are there and that the verifier proves and refutes two toy contracts"""
import os, sys, tempfile, shutil, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT + '/engine')
SRC = r'''
#include "vq.h"
extern "C" void good() { long n = vq_i64("n"); vq_assume(n >= 0 && n < 1000); long s = 0; for (long i = 0; i < n; ++i) s += 2; vq_cover("c"); vq_ensure(s % 2 == 0, "even"); }
extern "C" void bad() { long n = vq_i64("n"); vq_assume(n >= 0 && n < 1000); vq_cover("c"); vq_ensure(n * 3 != 333, "never"); }
'''
def main():
    d = tempfile.mkdtemp(prefix='vq-self-')
    try:
        open(d + '/t.cpp', 'w').write(SRC)
        subprocess.run(['clang++-18', '-std=gnu++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-I' + ROOT + '/contracts', '-S', '-emit-llvm', d + '/t.cpp', '-o', d + '/t.ll'], check=True)
        from core import Engine
        from ir import Module
        E = Engine([Module(d + '/t.ll')], {}); E.run_harness('good')
        assert not E.refuted and E.covered, 'toy contract not proved'
        E = Engine([Module(d + '/t.ll')], {}); E.run_harness('bad')
        assert E.refuted and E.refuted[0]['trace'][0][2] == 111, 'toy contract not refuted'
        print('selftest ok')
    finally: shutil.rmtree(d, ignore_errors=True)
main()

"""Checks that the tools the framework needs are there; nothing has to be built."""
import shutil, sys
import z3
for t in ('clang++', 'llvm-link', 'opt', 'g++', 'z3', 'cvc5', 'lean'):
    print(t, shutil.which(t) or shutil.which(t + '-18'))

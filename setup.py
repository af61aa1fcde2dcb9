"""Environment sanity check (nothing to build: every check regenerates from /repo)."""
import sys, shutil, os
import z3
assert z3.get_version() >= (4, 8)
for t in ('g++', 'clang++', 'cvc5'):
    if not shutil.which(t): print('missing', t); sys.exit(1)
for t in ('opt', 'llvm-cxxfilt'):
    if not os.path.exists('/usr/lib/llvm-18/bin/' + t): print('missing', t); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
print('ok')

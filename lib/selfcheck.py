"""Toolchain check: everything the checks need is installed."""
import shutil, sys
import z3, mpmath
miss = [t for t in ('clang', 'gcc', 'cbmc', 'goto-cc', 'valgrind') if not shutil.which(t)]
print('z3', z3.get_version_string(), 'mpmath', mpmath.__version__, 'missing:', miss)
sys.exit(1 if miss else 0)

"""setup: checks that the tools the checks need are present"""
import shutil
import sys
import z3  # noqa
bad = [t for t in ('clang++-18', 'opt-18', 'c++filt') if not shutil.which(t)]
if bad:
    print('missing:', bad)
    sys.exit(1)
print('ok')

#!/usr/bin/env python3
"""Nothing is built ahead: each check builds what it needs from /repo's tree.
This only makes sure that the interpreters and compilers are there."""
import shutil
import sys

missing = [t for t in ('java', 'clang++', 'git') if not shutil.which(t)]
if missing:
    print('missing tools: %s' % missing)
    sys.exit(1)
print('ready')

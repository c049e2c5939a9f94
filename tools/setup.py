#!/usr/bin/env python3
# Nothing to build ahead: every check compiles its harness from /repo's tree.  Verify the tools exist.
import shutil, sys
miss = [t for t in ('g++', 'python3') if not shutil.which(t)]
print('missing: %s' % miss if miss else 'tools present'); sys.exit(1 if miss else 0)

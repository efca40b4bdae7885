#!/usr/bin/env python3
"""Nothing to prepare: every check builds its harness itself. Only makes sure
that the tools are there."""
import shutil
import sys

missing = [t for t in ('g++', 'clang++', 'valgrind') if not shutil.which(t)]
if missing:
    sys.exit('missing: ' + ' '.join(missing))

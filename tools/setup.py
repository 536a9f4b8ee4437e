#!/usr/bin/env python3
"""Verifies that the toolchain is there; the checks build what they need from /repo themselves."""
import shutil, sys
for t in ('clang++', 'make'):
    if not shutil.which(t):
        sys.exit(t + ' is missing')
print('ok')

#!/usr/bin/env python3
"""Checks that the installed tools answer; everything else is built by each check."""
import subprocess, sys
K = '/root/.kani/kani-0.68.0/bin/'
for c in (['cargo', 'kani', '--version'], [K + 'cbmc', '--version'], [K + 'goto-cc', '--version'],
          [K + 'goto-instrument', '--version'], ['rustc', '+stable', '--version']):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(' '.join(c), '->', r.stdout.decode().splitlines()[:1])
    if r.returncode:
        sys.exit(1)

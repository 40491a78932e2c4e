#!/usr/bin/env python3
"""Builds every binary of the framework once, which also warms the build cache."""
import shutil
import sys
import tempfile

import check

d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    b = check.Builder(d)
    for n in ("vt", "race", "e2e", "daemon", "racedaemon"):
        b.get(n)
        print("built", n)
except check.NoAnswer as e:
    print(e)
    sys.exit(1)
finally:
    shutil.rmtree(d, ignore_errors=True)

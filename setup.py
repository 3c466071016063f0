#!/usr/bin/env python3
# Builds every variant once, so that a sandbox that keeps /verif/build has them ready; each check builds what it needs by itself.
import sys; import run
from checks import CHECKS
try: run.build(sorted({l['variant'] for c in CHECKS.values() for l in c['legs']}))
except run.BuildError as e: print(e); sys.exit(1)

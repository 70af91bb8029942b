#!/usr/bin/env python3
"""Run the check of one property: check.py <property id>."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

import checks  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        sys.exit(checks.prebuild())
    sys.exit(checks.run(sys.argv[1]))

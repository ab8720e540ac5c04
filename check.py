#!/usr/bin/env python3
"""static check of one property against the current source in /repo:  check.py --property P01"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())

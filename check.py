#!/usr/bin/env python3
"""Decides one property:  check.py ID [--thorough] [--budget S] [--only SLICE] | check.py --replay FILE

exit 0: held on everything explored; exit 1 and a VIOLATION line otherwise; exit 2: the machinery failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:]))

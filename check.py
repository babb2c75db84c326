#!/usr/bin/env python3
"""Decides one property of librrb. Usage: check.py C01   (VERIF_SEED, VERIF_TIER from the environment)

1. builds the harness against /repo at several node widths
2. has TLC check the design models the property rests on
3. has the harness run the real code: random histories and histories generated from the models
4. has TLC judge what was recorded, by the specification of the public API and of the tree
5. writes evidence/<id>.json; prints VIOLATION and exits 1 if the property is broken
"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver

sys.exit(driver.main(sys.argv[1:]))

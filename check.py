#!/usr/bin/env python3
"""Runs one check: python3 check.py PROPERTY [--tier quick|thorough]
         or      python3 check.py replay FILE

Every check builds /repo's current working tree (in a scratch copy, with /repo's own Makefile) and the
monitors of /verif/src from scratch, runs them, writes evidence/PROPERTY.json and ends with
  0  the property held on everything that was executed
  1  it did not; one line "VIOLATION property=ID replay=PATH" per class of violation
  2  the check itself could not do its work
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import core, props

if __name__ == "__main__":
    sys.exit(core.main(sys.argv, props.CHECKS))

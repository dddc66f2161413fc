#!/opt/venv/bin/python
"""check.py PROP [--tier quick|thorough] [--replay FILE]   (see vlib/driver.py)"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import driver  # noqa: E402

if __name__ == "__main__":
  sys.exit(driver.main(sys.argv[1:]))

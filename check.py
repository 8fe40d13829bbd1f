#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current source.  See DESIGN.md."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from nsa import main
sys.exit(main.main(sys.argv[1:]))

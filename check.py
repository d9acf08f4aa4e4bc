#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import check
sys.exit(check.main(sys.argv[1:]))

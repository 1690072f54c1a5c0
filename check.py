#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   |   check.py replay <file>   |   check.py setup"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
import registry  # noqa: E402

if __name__ == '__main__':
    sys.exit(registry.main(sys.argv[1:]))

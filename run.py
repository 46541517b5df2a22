"""python run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main())

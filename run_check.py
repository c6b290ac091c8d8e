#!/opt/venv/bin/python
"""python run_check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import boot  # noqa: E402

if __name__ == "__main__":
    boot.ensure_env()
    from vlib.runner import main

    main()

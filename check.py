#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only GLOB] [-v]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def run():
    import argparse

    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier")
    p.add_argument("--only")
    p.add_argument("-v", action="store_true")
    a = p.parse_args()
    from symx import runner

    sys.stdout.reconfigure(line_buffering=True)
    rc = runner.main(a.property, tier=a.tier, only=a.only, verbose=a.v)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    run()

"""Entry point: python mc/run.py <property id>"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("mc.checks." + pid.lower())
    sys.exit(mod.main())


if __name__ == "__main__":
    main()

import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if __name__ == "__main__":
    # the module under its import name, so that worker globals are shared
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))

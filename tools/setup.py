"""setup_cmd: checks that the tools the framework needs are there and that /repo builds in each variant."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk
import numpy, z3  # noqa


def main():
    for v, bi in (("plain", 0), ("asan", 0), ("plain", 1)):
        b = gk.build(v, bison=bool(bi))
        print(v, b)


gk.main(main)

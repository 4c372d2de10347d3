#!/usr/bin/env python3
"""check.py <property id>: decides one property; tier and seed from the environment."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib  # noqa: E402
AREAS = {"pool": "C01 C02 C03 C04", "mpi": "C05 C26 C30", "params": "C14 C15 C16", "ga": "C08 C09 C10 C11 C12 C13 C35", "cache": "C06", "fwt": "C07", "rnd": "C20 C21", "multistart": "C17 C39", "local": "C18 C19 C28 C32 C33 C34 C37 C38", "settings": "C22", "dsp": "C23 C24 C25 C27 C31 C36"}


def main():
    prop = sys.argv[1]
    for area, ids in AREAS.items():
        if prop in ids.split():
            mod = importlib.import_module(area)
            vlib.main(prop, getattr(mod, prop))
    print("unknown property", prop)
    sys.exit(2)


main()

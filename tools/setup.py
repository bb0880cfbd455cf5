#!/usr/bin/env python3
"""setup_cmd: pre-builds the reference binaries, which depend on committed files of /verif only."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import vbuild
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for p in ex.map(lambda t: vbuild.build(*t), [("ref", "fast"), ("ref", "loose"), ("cut", "fast"), ("cut", "asan"), ("cut", "msan")]):
        print(p)

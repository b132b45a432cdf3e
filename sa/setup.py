#!/usr/bin/env python3
"""setup: verify the tools are there and byte-compile the analyser (nothing is built from /repo here)"""
import compileall
import os
import shutil
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import fw  # noqa: E402
assert shutil.which(fw.CLANG), "clang++ 18 not found"
assert os.path.exists(fw.REPO + "/include/dsga.hxx")
compileall.compile_dir(here, quiet=1)
print("ok", fw.CLANG)

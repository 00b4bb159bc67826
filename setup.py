#!/usr/bin/env python3
"""Checks that the installed toolchain can build and run sanitized programs."""
import os, shutil, subprocess, sys, tempfile
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    src = os.path.join(tmp, "t.cpp")
    with open(src, "w") as f:
        f.write("#include <vector>\n#include <thread>\nint main(){std::vector<int> v(3);std::thread t([&]{v[1]=2;});t.join();return v[1]-2;}\n")
    for cxx in ("g++", "clang++"):
        for fl in (["-fsanitize=address,undefined"], ["-fsanitize=thread"], ["-O2"]):
            exe = os.path.join(tmp, "t")
            subprocess.run([cxx, "-std=c++17", *fl, src, "-o", exe, "-pthread"], check=True)
            subprocess.run([exe], check=True)
    os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print("toolchain ok")

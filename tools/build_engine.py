#!/usr/bin/env python3
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    src = os.path.join(V, "engine", "symx.cpp")
    out = os.path.join(V, "build", "symx")
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    cfg = "/usr/lib/llvm-18/bin/llvm-config"
    cx = subprocess.check_output([cfg, "--cxxflags"], text=True).split()
    cx = [c for c in cx if c != "-fno-exceptions"]
    ld = subprocess.check_output([cfg, "--ldflags", "--libs", "core", "irreader", "support"], text=True).split()
    tmp = out + ".%d.tmp" % os.getpid()
    subprocess.check_call(["clang++", "-O2", "-g0", "-w"] + cx + ["-fexceptions", "-std=c++17", src, "-o", tmp, "-lz3"] + ld)
    os.rename(tmp, out)


if __name__ == "__main__":
    main()

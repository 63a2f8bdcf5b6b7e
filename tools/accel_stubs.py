"""Builds the checking stand-ins for the vendor libraries as the static libraries the crate links to."""
import os
import subprocess

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "accel.c")


def make(tdir, asan):
    d = os.path.join(tdir, "stubs")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, "accel.o")
    flags = ["-fsanitize=address"] if asan else []
    subprocess.run(["clang", "-O1", "-fPIC", "-w", "-ffp-contract=off"] + flags + ["-c", SRC, "-o", obj], check=True)
    for lib in ("libAccelerate.a", "libcblas.a"):
        p = os.path.join(d, lib)
        if os.path.exists(p):
            os.unlink(p)
        # one archive carries the code, the other is empty: the linker sees every routine once
        subprocess.run(["ar", "rc", p] + ([obj] if lib == "libcblas.a" else []), check=True)

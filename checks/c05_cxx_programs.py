"""C05: what a function or template computes in the C++ witness generator is what the language defines."""
from checks.c04_wasm_programs import run


def main():
    run("C05", "cxx")

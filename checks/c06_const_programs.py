"""C06: what a function computes at compile time is what the language defines."""
from checks.c04_wasm_programs import run


def main():
    run("C06", "const")

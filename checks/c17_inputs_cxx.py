"""C17: as C16 for the C++ generator."""
import importlib
c16 = importlib.import_module("checks.c16_inputs")


def main():
    c16.run("C17", "cxx")

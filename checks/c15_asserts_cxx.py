"""C15: as C14 for the C++ generator."""
import importlib
c14 = importlib.import_module("checks.c14_asserts")


def main():
    c14.run("C15", "cxx")

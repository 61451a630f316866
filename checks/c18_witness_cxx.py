"""C18: as C09 for the C++ generator."""
import importlib
c09 = importlib.import_module("checks.c09_witness")


def main():
    c09.run("C18", "cxx")

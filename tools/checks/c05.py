"""C05: machine code for mips behaves like the program (assembly executed by harness/asmsim)"""
from vlib.machine import check


def main():
    check("C05", "mips", 200, 12, 3700000, without=("bigframe",))

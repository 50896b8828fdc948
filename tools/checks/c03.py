"""C03: machine code for riscv behaves like the program (assembly executed by harness/asmsim)"""
from vlib.machine import check


def main():
    check("C03", "riscv", 200, 12, 1700000, without=("bigframe",))

"""C04: machine code for arm behaves like the program (assembly executed by harness/asmsim)"""
from vlib.machine import check


def main():
    check("C04", "arm", 200, 12, 2900000)

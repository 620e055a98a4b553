from h import *
for sh in (0, 1, 31):
    m = prog([addi(1, 0, -1), I(5, 2, 1, sh), lui(3, 0x10), sw(2, 3, 0), SPIN])
    r = Run(m, 400)
    check(r.writes == [(0x10000, 15, 0xffffffff >> sh)], f"srli {sh}: {r.writes}")

from h import *
for rd in (1, 2):
    for sh in (0, 1, 5):
        m = prog([addi(1, 0, 77), I(1, rd, 1, sh), lui(3, 0x10), sw(rd, 3, 0), SPIN])
        r = Run(m, 300)
        check(r.writes == [(0x10000, 15, 77 << sh)], f"slli x{rd}, x1, {sh}: {r.writes}")

from h import *
m = prog([lui(1, 0x10), addi(2, 0, 7), sw(2, 1, 0), store(0, 2, 1, 4), store(1, 2, 1, 8), lw(3, 1, 0), sw(3, 1, 12), SPIN])
for d in (1, 2, 5):
    r = Run(m, 250, delay=lambda n, a, w: d)
    check(len(r.writes) == 4, f"stores seen: {r.writes}")
    for a, b in zip(r.trace, r.trace[1:]):
        check(not (a[2] and a[7] and b[2]), f"STB still high in the cycle after the acknowledge (cycle {b[0]})")

from h import *
H = 0x200
m = prog([csrr(1, MCAUSE), lui(2, 0x10), sw(1, 2, 0), addi(1, 0, H), csrw(MTVEC, 1), ECALL]); m.update(prog([SPIN], H))
for at in (90, 100, 111, 120):
    r = Run(m, 260, rst=lambda s, t: at <= t < at + 2)
    w = [a.dat for a in r.acc if a.we]
    check(w == [0, 0], f"mcause read at each start, reset at {at}: {w}")

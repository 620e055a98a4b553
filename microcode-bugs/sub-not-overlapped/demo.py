from h import *
for name, w in (("add", add(3, 1, 2)), ("sub", sub(3, 1, 2)), ("xor", R(0, 4, 3, 1, 2)), ("addi", addi(3, 1, 1))):
    r = Run(prog([addi(1, 0, 9), addi(2, 0, 4)] + [w] * 4 + [SPIN]), 120)
    ts = [a.t for a in r.acc]
    gaps = {b - a for a, b in zip(ts[2:6], ts[3:7])}
    check(gaps == {4}, f"{name}: {gaps} cycles per instruction")

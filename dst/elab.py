"""Elaborate one build configuration of the CPU under test into CXXRTL C++.

Runs under the interpreter that has Amaranth (/opt/venv/bin/python), with
PYTHONPATH=<repo>/src:/verif/stubs.  Usage: elab.py VARIANT OUT.cc

  core    sentinel.top.Top behind EnableInserter (clock-enable port)
  formal  sentinel.formal.FormalTop (RVFI build)
  gen     the design `python -m sentinel.gen -o FILE` writes
  genf    the same with -f (RVFI connections)
For these two, altN.cc beside OUT.cc are different designs written for other calls of the generator, if any.
"""
import argparse
import importlib
import io
import os
import re
import runpy
import sys


def convert(variant, out):
    from amaranth.hdl import EnableInserter, Module
    from amaranth.lib.wiring import Component, In, connect, flipped
    from amaranth.back import cxxrtl

    if variant in ("gen", "genf"):
        # The installed Yosys has no Verilog front end: run the generator with
        # Amaranth's Verilog writer replaced by its CXXRTL writer, so that exactly
        # the design the generator hands over (object, options) is simulated.
        from amaranth.back import verilog
        seen = []

        def capture(m, *args, **kwargs):
            kwargs.pop("strip_internal_attrs", None)
            seen.append(cxxrtl.convert(m, *args, **dict(kwargs, name="dut", emit_src=False)))
            return seen[-1]
        real, verilog.convert = verilog.convert, capture
        opts = ["-f"] if variant == "genf" else []
        try:
            srcs = [generated(seen, "main", ["-o", out, "-n", "dut"] + opts, out),
                    generated(seen, "main", ["-n", "cpu"] + opts if opts else [], None),
                    generated(seen, "generate", ["-o", "-"] + opts, None),
                    generated(seen, "generate", ["-o", out, "-n", "dut"] + opts, out)]
        finally:
            verilog.convert = real
        # the other ways to ask for the same design; a design is simulated once, however often it was handed over
        alts = [x for i, x in enumerate(srcs) if x not in srcs[:i]]
        for i, x in enumerate(alts[1:], 1):
            check_ports(variant, x)
            with open(f"{os.path.dirname(os.path.abspath(out))}/alt{i}.cc", "w") as f:
                f.write(x)
        src = alts[0]
    else:
        if variant == "formal":
            from sentinel.formal import FormalTop as Inner
        else:
            from sentinel.top import Top as Inner

        class Dut(Component):
            def __init__(self):
                self.inner = Inner()
                super().__init__({"en": In(1, init=1), **dict(self.inner.signature.members)})

            def elaborate(self, platform):
                m = Module()
                m.submodules.inner = EnableInserter(self.en)(self.inner) if variant == "core" else self.inner
                for name in self.inner.signature.members:
                    mem = self.inner.signature.members[name]
                    if mem.is_port:
                        if mem.flow == In:
                            m.d.comb += getattr(self.inner, name).eq(getattr(self, name))
                        else:
                            m.d.comb += getattr(self, name).eq(getattr(self.inner, name))
                    else:
                        connect(m, flipped(getattr(self, name)), getattr(self.inner, name))
                return m
        src = cxxrtl.convert(Dut(), name="dut", emit_src=False)
    check_ports(variant, src)
    with open(out, "w") as f:
        f.write(src)


def generated(seen, entry, args, out):
    """What the generator writes when called this way; `seen`: everything converted so far."""
    saved, sys.argv = sys.argv, ["gen"] + args
    call = f"{entry}, {' '.join(args) or 'no arguments'}"
    tmp = os.open("stdout.txt", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    sys.stdout.flush()
    fd1 = os.dup(1)
    os.dup2(tmp, 1)
    try:
        if entry == "main":
            runpy.run_module("sentinel.gen", run_name="__main__")    # python -m sentinel.gen
        else:
            importlib.import_module("sentinel.gen").generate()
    except (Exception, SystemExit) as e:
        if not isinstance(e, SystemExit) or e.code not in (None, 0):
            print(f"the generator failed ({call}): {type(e).__name__}: {e}", file=sys.stderr)
            sys.exit(4)
    finally:
        sys.argv = saved
        if not sys.stdout.closed:
            sys.stdout.flush()
        os.dup2(fd1, 1)
        os.close(fd1)
        os.close(tmp)
    if sys.stdout.closed:
        sys.stdout = open(1, "w", closefd=False)
    with open(out or "stdout.txt") as f:
        text = f.read()
    hits = [x for x in seen if x in text]
    if not hits:
        print(f"the generator did not write a converted design to its output ({call})", file=sys.stderr)
        sys.exit(4)
    return hits[-1]


def check_ports(variant, src):
    want = ["clk", "rst", "irq"] + [f"bus____{x}" for x in
                                    ("cyc", "stb", "we", "adr", "sel", "dat__w", "dat__r", "ack")]
    if variant in ("formal", "genf"):
        want += ["rvfi____" + x for x in ("valid", "order", "insn", "trap", "intr", "rd__addr", "rd__wdata",
                                          "pc__rdata", "pc__wdata", "mem__addr", "csr____mepc____rdata")]
    missing = [w for w in want if not re.search(rf"\bp_{w};", src)]
    if missing:
        print(f"the {variant} design has no port {', '.join(missing).replace('____', '__')}", file=sys.stderr)
        sys.exit(4)


if __name__ == "__main__":
    p = argparse.ArgumentParser()
    p.add_argument("variant")
    p.add_argument("out")
    a = p.parse_args()
    convert(a.variant, a.out)

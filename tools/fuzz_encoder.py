#!/usr/bin/env python3
"""development aid: random expressions through the encoder and through floats; prints what check.py says"""
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)


def ex(d):
    if d == 0:
        return r.choice(["a", "b", "c", "x", "y", "z", "cx.q(%d, %d)" % (r.randint(1, 5), r.randint(1, 5)), str(r.randint(-3, 3))])
    k = r.choice(["+", "-", "*", "/", "abs", "sqrt", "max", "min", "sq", "neg", "trig", "norm"])
    if k in "+-*":
        return "(%s %s %s)" % (ex(d - 1), k, ex(d - 1))
    if k == "/":
        return "D(cx, %s, %s)" % (ex(d - 1), r.choice(["(%s)" % ex(d - 1), "(%s)" % ex(d - 1), "a", "(b * %s + 1)" % r.choice("ab"), "(x * x + 1)", "cx.abs(%s)" % ex(d - 1)]))
    if k == "abs":
        return "cx.abs(%s)" % ex(d - 1)
    if k == "sqrt":
        return "cx.sqrt((%s) ** 2 + %s)" % (ex(d - 1), r.choice(["1", "a", "(%s) ** 2" % ex(d - 1)]))
    if k == "max":
        return "cx.max_abs([%s, %s])" % (ex(d - 1), ex(d - 1))
    if k == "min":
        return "(%s) ** 2" % ex(d - 1)
    if k == "sq":
        return "cx.sqrt(cx.abs(%s) + 1)" % ex(d - 1)
    if k == "neg":
        return "(-%s)" % ex(d - 1)
    if k == "trig":
        return "cx.%s(%s)" % (r.choice(["cos", "sin"]), r.choice(["x", "t", "t + x", "2 * t", "t / 2", "t - cx.pi / 3"]))
    return "cx.sqrt(%s)" % " + ".join("(%s) ** 2" % ex(d - 1) for _ in range(2))


def main():
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
    p = os.path.join(HERE, "harness", "ZZ.py")
    with open(p, "w") as f:
        f.write("from hlib import harness\n\nMETA = dict(functions=[], bounds='', outside='')\n\n\ndef D(cx, p, q):\n    cx.assume_nonzero(q)\n    return p / q\n\n\nEX = [\n")
        for _ in range(n):
            f.write("    lambda cx, a, b, c, x, y, z, t: %s,\n" % ex(r.choice([2, 2, 3, 3, 4])))
        f.write("]\n\n\n@harness(cases=list(range(%d)), seconds=20)\ndef e(cx):\n" % n)
        f.write("    a, b, c = [cx.real(k, pos=True) for k in 'abc']\n    x, y, z = [cx.real(k) for k in 'xyz']\n    t = cx.angle('t')\n")
        f.write("    v = EX[cx.case](cx, a, b, c, x, y, z, t)\n    cx.eq('v', v, v)\n")
    try:
        subprocess.run(["python3", os.path.join(HERE, "check.py"), "ZZ"])
    finally:
        os.remove(p)
        if os.path.exists(os.path.join(HERE, "evidence", "ZZ.json")):
            os.remove(os.path.join(HERE, "evidence", "ZZ.json"))


main()

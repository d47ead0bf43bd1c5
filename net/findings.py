"""The recorded, unrepaired findings: does the specific input still fail?"""
from . import real

M = "Module-m DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n"


def K1():
    b = real.build_texts([M % """P ::= SEQUENCE { a Q (WITH COMPONENTS { x (1) }), b Q (WITH COMPONENTS { x (3) }) }
Q ::= SEQUENCE { x INTEGER(0..255) }"""])
    return len(real.read_init(real.outputs("c", b)["m.c"].decode())) != 1


def K2():
    b = real.build_texts([M % """T ::= SEQUENCE { h SEQUENCE (SIZE (3)) OF S }
S ::= SEQUENCE { s INTEGER(0..255) }"""])
    return len(real.read_cosmos(real.outputs("cosmos", b, msgs=["T"], mod="m")["o.txt"].decode())[0]["items"]) == 1


def K3():
    real.build_texts([M % "E ::= ENUMERATED { a (0), b (0) }"])
    return True


def K4():
    b = real.build_texts([M % """Pid ::= SEQUENCE { v INTEGER(0..7), a INTEGER(0..7) }
Hdr ::= SEQUENCE { p Pid }
In ::= SEQUENCE { h Hdr (WITH COMPONENTS { p (WITH COMPONENTS { v (1) }) }) }
Msg ::= SEQUENCE { i In (WITH COMPONENTS { h (WITH COMPONENTS { p (WITH COMPONENTS { a (5) }) }) }) }"""])
    items = real.read_cosmos(real.outputs("cosmos", b, msgs=["Msg"], mod="m")["o.txt"].decode())[0]["items"]
    return [i["value"] for i in items] != ["1", "5"]


def reproduces(k):
    r, v = real.attempt(globals()[k])
    return r == "ok" and bool(v)

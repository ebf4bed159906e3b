"""Registry: property id -> how it is decided."""
import importlib
from report import Report

TABLE = {}


def reg(mod, **kw):
    for pid, (fn, meta) in kw.items():
        TABLE[pid] = (mod, fn, meta)


def M(level="other", floor=1, assumptions=()):
    return {"level": level, "floor": floor, "assumptions": list(assumptions)}


reg("props_validator",
    V01=("v01", M(floor=15)), V02=("v02", M(floor=15)), V03=("v03", M(floor=25)), V04=("v04", M(floor=10)),
    V05=("v05", M(floor=40)), V06=("v06", M(floor=10)), V07=("v07", M(floor=15)))

reg("props_state",
    V08=("v08", M(floor=15)), V09=("v09", M(floor=20)), V10=("v10", M(floor=8)), V11=("v11", M(floor=15)), V12=("v12", M(floor=4)))

reg("props_model",
    M01=("m01", M(floor=500)), M02=("m02", M(floor=40)), M03=("m03", M(floor=50)), M04=("m04", M(floor=40)))

reg("props_lower",
    M05=("m05", M(floor=150)), M06=("m06", M(floor=40)), M07=("m07", M(floor=80)))

reg("props_datatype",
    M08=("m08", M(floor=80)), M09=("m09", M(floor=200)))

reg("props_syntax",
    S02=("s02", M(floor=500)))

reg("props_compact",
    S01=("s01", M(floor=20)), S03=("s03", M(floor=70)), S04=("s04", M(floor=70)))

reg("props_tool",
    C01=("c01", M(floor=8)))

reg("props_effects",
    C02=("c02", M(floor=100)), C03=("c03", M(floor=100)))


reg("props_panic",
    C04=("c04", M(floor=60)))

reg("props_errors",
    C06=("c06", M(floor=500)))
reg("props_diag",
    C05=("c05", M(floor=300)))


def run(pid, prog, tier):
    mod, fn, meta = TABLE[pid]
    rep = Report(pid)
    getattr(importlib.import_module(mod), fn)(prog, rep, tier)
    return rep, meta

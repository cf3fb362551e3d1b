"""Per-property settings of check.py (and of gen_manifest.py)."""
from notes import N

CHECKS = {}
NOT_APPLICABLE = {}


def add(pid, **kw):
    kw.setdefault("bin", pid.lower())
    n = N[pid]
    kw["technique"] = n["technique"]
    kw["note"] = "Enumerated: " + n["enum"] + " Oracle: " + n["oracle"] + (" Limits: " + n["limits"] if n["limits"] else "")
    kw["bounds"] = n["bounds"]
    kw["assumptions"] = [n["limits"]] if n["limits"] else []
    CHECKS[pid] = kw



add("P09")
add("P12")
add("P20")
add("P10")
add("P11")
add("P04")
add("P05")
add("P06")
add("P07")
add("P08")
add("P01")
add("P02")
add("P03")
add("P17")
add("P22")
add("P21")
add("P25")
add("P13")
add("P15", cli=True)
add("P14")
add("P19")
add("P23", cli=True)
add("P24", cdylib=True)
add("P16", crate="mc_rand")
add("P18", parts=[dict(crate="mc_sched", bin="p18", instrument=True, optional=True), dict(bin="p18", workers=2, hang=45)])
add("P26", cdylib=True)
add("P27", parts=[dict(bin="p27", monitor="asan", quick=60, thorough=120), dict(bin="p27", monitor="miri", hang=240, quick=300, thorough=600)])

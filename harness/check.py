"""check.py <property> [quick|thorough]: decides a property on /repo's working tree."""
import os
import sys
import traceback

if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import vlib  # noqa: E402
import carbon  # noqa: E402
import distro  # noqa: E402
import jobs  # noqa: E402
import life  # noqa: E402
import output  # noqa: E402
import par  # noqa: E402
import reader  # noqa: E402
import refuse  # noqa: E402
import rel  # noqa: E402
import system  # noqa: E402
import thermal  # noqa: E402

CHECKS = {p: system.plain(p) for p in ("C04", "C05", "C06", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C22", "C23")}


def both(first, *second):
    def go(chk, scratch):
        first(chk, scratch)
        if callable(second[0]):
            second[0](chk, scratch)
        else:
            carbon.check(chk, scratch, *second)
    return go


CHECKS["C09"] = both(CHECKS["C09"], ["box"], r"carbon|exception", 36, 300)
CHECKS["C10"] = both(CHECKS["C10"], ["joos"], r"carbon\.|exception", 36, 300)
CHECKS["C11"] = both(CHECKS["C11"], ["joos", "box"], r"backcalc|carbonout|exception", 36, 300)
for _p, _m in (("C12", "twolayer"), ("C13", "udm"), ("C14", "udm"), ("C14", "twolayer")):
    CHECKS[_p] = both(CHECKS[_p], lambda chk, scratch, m=_m: thermal.check(chk, scratch, m, r"thermal|exception", 40, 400))
CHECKS["C11"] = both(CHECKS["C11"], life.run("C11", r"same|exception", flip=True))
CHECKS["C01"] = life.run("C01", r"")
CHECKS["C02"] = life.run("C02", r"", share=True)
CHECKS["C03"] = rel.c03
CHECKS.update({"C17": jobs.c17, "C18": distro.c18, "C20": output.c20, "C19": reader.c19, "C16": par.c16, "C07": rel.c07, "C08": rel.c08, "C21": rel.c21, "C24": refuse.c24})


def main():
    prop = sys.argv[1]
    chk = vlib.Check(prop)
    try:
        with vlib.Scratch() as scratch:
            CHECKS[prop](chk, scratch)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check itself failed")
        return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())

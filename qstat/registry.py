import os, traceback
import report
import checks_build as B
import checks_effects as E
import checks_gates as G
import checks_state as S
import checks_backend as K
import checks_qasm as Q
import checks_select as L
import checks_views as V
import checks_output as O
import checks_gpu as U
import checks_script as J
import checks_batch as N
import checks_repro as R
import checks_order as D
import checks_calls as Y

CHECKS = {
    "C01": (E.c01, "ownership"),
    "C02": (E.c02, "purity"),
    "C03": (E.c03, "isolation"),
    "C04": (R.c04, "dependence"),
    "C05": (D.c05, "order"),
    "C06": (D.c06, "shape"),
    "C07": (Y.c07, "seal"),
    "C08": (Y.c08, "refusal"),
    "C09": (Y.c09, "registers"),
    "C10": (Y.c10, "states"),
    "C11": (B.c11, "shorthand"),
    "C12": (L.c12, "selection"),
    "C13": (K.c13, "siblings"),
    "C14": (U.c14, "imports"),
    "C15": (K.c15, "guards"),
    "C16": (G.c16, "controls"),
    "C17": (G.c17, "shift"),
    "C18": (G.c18, "roots"),
    "C19": (O.c19, "reported values"),
    "C20": (O.c20, "reported states"),
    "C21": (Q.c21, "dispatch"),
    "C22": (Q.c22, "operands"),
    "C23": (Q.c23, "declarations"),
    "C24": (V.c24, "census"),
    "C25": (V.c25, "drawing"),
    "C26": (J.c26, "effects of the script"),
    "C27": (N.c27, "batch runs"),
}


def run(prop, tier, seed):
    fn, rule = CHECKS[prop]
    ck = report.Check(prop, tier, seed, rule)
    try:
        fn(ck)
    except Exception as e:
        if type(e).__name__ == "Anchor":
            raise
        ck.ob("analysis", None, fn.__name__, f"stopped: {type(e).__name__}: {e}")
        if os.environ.get("QSTAT_DEBUG"):
            traceback.print_exc()
    return ck.finish(fn.__doc__ or rule)

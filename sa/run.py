"""Entry point:  python3-vt /verif/sa/run.py <property id>"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


# edge sizes at which a check is repeated (the symbolic sizes of the main run are at least two)
QUICK = {"C03": "p=1", "C04": "p=1", "C05": "n=1", "C06": "p=1", "C07": "p=1 n=1", "C08": "n=1", "C09": "p=1 n=1", "C10": "p=1 n=1",
         "C11": "p=1 n=1", "C12": "p=1 n=1", "C13": "p=1 n=1", "D01": "p=1 n=1", "D02": "p=1 n=1", "E01": "p=1 n=1", "E05": "p=1",
         "G01": "n=1", "G02": "n=1", "G03": "n=1", "G04": "n=1", "G05": "a=1 a=1,b=1", "G06": "n=1 a=1", "M01": "p=1 n=1",
         "M02": "p=1 n=1", "O01": "p=1 n=1", "S01": "n=1", "S02": "n=1", "S03": "p=1", "U01": "p=1 n=1", "U02": "p=1 n=1",
         "U03": "p=1 n=1", "U04": "p=1 n=1", "X01": "p=1 n=1"}
THOROUGH = {"C01": "p=1", "C02": "p=1 n=1", "C08": "a=1", "C14": "p=1 n=1", "E02": "p=1 n=1 a=1", "E03": "p=1",
            "E04": "p=1 n=1 a=1 a=1,b=1", "E05": "n=1", "E06": "p=1 n=1", "G04": "a=1", "S03": "n=1"}


def start_edges(pid):
    """the same check at the edge sizes, in processes of their own; read by Report.finish"""
    import subprocess
    import tempfile
    if os.environ.get("SA_SIZES"):
        return
    es = QUICK.get(pid, "").split()
    if os.environ.get("VERIF_TIER") == "thorough":
        es += THOROUGH.get(pid, "").split()
    import chk
    for e in es:
        d = tempfile.mkdtemp(prefix="sa_edge.")
        pr = subprocess.Popen([sys.executable, os.path.abspath(__file__), pid], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                              env={**os.environ, "SA_SIZES": e, "SA_EVIDENCE": d})
        chk.EDGES.append((e, d, pr))


def main(pid):
    import threading
    res = []
    start_edges(pid)

    def go():
        for name in ("c_estim", "c_struct", "c_state", "c_over", "c_prob", "c_geom", "c_util", "c_alias", "c_model"):
            try:
                m = importlib.import_module("checks_" + name)
            except ModuleNotFoundError as e:
                if e.name != "checks_" + name:
                    raise
                continue
            f = m.CHECKS.get(pid)
            if f is not None:
                res.append(f().finish())
                return
        print("no check for %s" % pid)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res[0] if res else 3


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)

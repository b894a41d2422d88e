"""Decides one property: check.py <ID> [quick|thorough]."""
import importlib
import os
import sys
import traceback

if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

from common import MachineryError, Malformed, Report, Scratch  # noqa: E402

MODULES = {}
for _module, _props in {"checks_diagram": "C06 C07 C08 C09 C10 C11 C12 C13 C14",
                        "checks_statics": "C01 C02 C03 C04 C05 C16 C23",
                        "checks_opt": "C15 C17 C18 C19 C20 C21 C22 C27",
                        "checks_plot": "C24",
                        "checks_front": "C25 C26 C28"}.items():
    for _prop in _props.split():
        MODULES[_prop] = _module


def main():
    prop = sys.argv[1]
    report = Report(prop)
    scratch = Scratch()
    try:
        module = importlib.import_module(MODULES[prop])
        getattr(module, prop)(report, scratch)
    except MachineryError as e:
        print("MACHINERY property=%s %s" % (prop, e))
        return 2
    except Malformed as e:
        report.violation("malformed", {"campaign": e.what, "tlc": e.text})
    except Exception as e:
        # everything else comes from the code under test: on the unchanged tree nothing is raised here
        report.violation("crash", {"error": "%s: %s" % (type(e).__name__, e), "traceback": traceback.format_exc()[-3000:]})
    finally:
        scratch.close()
    return report.finish()


if __name__ == "__main__":
    sys.exit(main())

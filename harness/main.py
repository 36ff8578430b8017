"""bin/check <ID> : run the check of one property.  VERIF_TIER, VERIF_SEED from the environment."""
import importlib
import os
import sys
import traceback

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    vlib.setup_path()
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(prop.lower())
        # the package has to be importable at all: failing that is a violation
        import warnings
        warnings.simplefilter("ignore")
        try:
            import CADMium  # noqa: F401
        except Exception as e:
            ctx.violation("import", "CADMium cannot be imported: %r" % (e,), {"id": "import"})
            return ctx.finish()
        try:
            mod.check(ctx)
        except Exception as e:
            if not any("/CADMium/" in f.filename for f in traceback.extract_tb(e.__traceback__)):
                raise
            ctx.violation("check", "exception in code under test: %r" % (e,), {"id": "exception"})
        return ctx.finish()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print("ERROR property=%s (machinery)" % prop)
        return 2
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

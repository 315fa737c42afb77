"""Entry point: run one check.  python main.py <property-id> <tier>"""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import logging  # noqa: E402
logging.getLogger("pyx").setLevel(logging.CRITICAL)
import vp  # noqa: E402


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    ctx = vp.Context(prop, tier)
    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(ctx)
        return ctx.finish()
    except vp.MachineryError as e:
        print("MACHINERY-ERROR: %s" % e, file=sys.stderr)
        # violations found before stand
        return ctx.finish() if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        return ctx.finish() if ctx.violations else 2
    finally:
        ctx.close()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

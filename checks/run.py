"""checks/run.py <property> <quick|thorough>: run one property's monitor."""
import sys, os, errno, importlib, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(os.path.dirname(here), "lib")]
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import build
    try:
        return importlib.import_module(prop.lower()).main(tier)
    except build.BuildError as e:
        print("BUILD-ERROR: %s" % e); return 2
if __name__ == "__main__":
    try: rc = main()
    except (KeyError, IndexError, ValueError, OSError) as e:
        # an output of the program that cannot be read as what it should be (a stored quantity absent, a truncated file, a wrong shape): that is an observation, unless the sandbox itself is at fault
        traceback.print_exc(); import fw; rc = 4
        if fw.Report.last is not None and not (isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN)):
            fw.Report.last.violation("output/unreadable", "%s: %s" % (type(e).__name__, e)); rc = fw.Report.last.finish(0)
    except Exception:
        traceback.print_exc(); rc = 4
    sys.stdout.flush()
    sys.exit(rc)

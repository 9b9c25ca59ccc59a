#!/usr/bin/env python3
"""run.py <property> quick|thorough: exit 0 held, 1 violated, 2 the machinery failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import Check, CheckError

AREAS = dict(C24="strings", C25="disk", C23="arith", C21="data", C09="heap", C10="heap", C11="heap", C15="pure", C16="pure", C17="text", C01="files", C02="files", C03="files", C19="files", C04="errors", C05="errors", C06="text", C07="razor", C08="razor", C12="run", C20="run", C14="find", C13="scope", C22="options", C18="concurrent")


def setup():
    import subprocess
    common.cli()
    common.harness()
    d = common.mkdir("sany")
    import glob, shutil
    for f in glob.glob(common.SPEC + "/*.tla"):
        shutil.copy(f, d)
    for f in sorted(glob.glob(d + "/*.tla")):
        r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", common.CLASSPATH, "tla2sany.SANY", os.path.basename(f)],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-2000:])
            return 2
    print("setup: ok")
    return 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        if prop == "setup":
            return setup()
        mod = importlib.import_module("checks." + AREAS[prop])
        check = Check(prop, tier)
        getattr(mod, prop)(check)
        return check.finish()
    except CheckError as e:
        print("CHECK ERROR property=%s: %s" % (prop, e), file=sys.stderr)
    except Exception:
        traceback.print_exc()
    return 2


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)

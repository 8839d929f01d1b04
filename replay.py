#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample on the real package (no symbolic machinery); exit 1 if it still violates.
replay.py --finding ID: run the demonstration of a known finding; exit 1 if it still fails."""
import os
import sys
VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(VENV) and not os.environ.get("VERIF_NOEXEC"):
    os.environ["VERIF_NOEXEC"] = "1"
    os.execv(VENV, [VENV, "-W", "ignore"] + sys.argv)
sys.dont_write_bytecode = True
import json
import warnings
warnings.simplefilter("ignore")
import boot
boot.setup()
from symnp import harness as hmod, runner, findings
import harnesses

def main():
    harnesses.load_all()
    if sys.argv[1] == "--finding":
        fails = findings.demonstrate(sys.argv[2])
        print("still fails" if fails else "no longer fails")
        return 1 if fails else 0
    path = sys.argv[1]
    with open(path) as f:
        v = json.load(f)
    h = hmod.REGISTRY[v["harness"]]
    values = dict((k, hmod.decode_value(x)) for k, x in v["values"].items())
    st, info, E = runner.run_real(h, v["params"], values)
    print("property", v["property"], "harness", v["harness"], v["params"])
    for k, x in sorted(values.items()):
        print("  input", k, "=", x)
    print("result:", st, info)
    return 1 if st == "violated" else 0 if st == "ok" else 2

if __name__ == "__main__":
    sys.exit(main())

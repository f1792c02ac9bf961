#!/bin/bash
# dev helper: t.sh <variant|-> <module,..> <harness>...   run harnesses without a property entry
cd /verif; V=$1; [ "$V" = - ] && V=""; M=$2; shift 2
python3 - "$V" "$M" "$@" <<'P'
import sys, props
v, m, hs = sys.argv[1], sys.argv[2].split(","), sys.argv[3:]
props.PROPS["DEV"] = {"level": "other", "builds": {v: m}, "harnesses": [{"name": h, "variant": v, "reach": []} for h in hs]}
import check
sys.argv = ["check.py", "DEV"]
check.main()
P

"""Nothing to build: check that the tools the checks use are there."""
import os
import sys
need = ["/opt/venv/bin/python", "/opt/veriftools/tla/tla2tools.jar"]
bad = [p for p in need if not os.path.exists(p)]
print("setup", "missing: %s" % bad if bad else "ok")
sys.exit(1 if bad else 0)

#!/usr/bin/python3
"""Nothing to build: the checks interpret /repo's sources directly.  Verify the tools."""
import os, sys
for p in ("/usr/bin/java", "/usr/share/java/jython.jar", "/repo/lib/daeso", "/opt/jy/lib/networkx"):
    if not os.path.exists(p):
        sys.exit("missing: " + p)
print("ok")

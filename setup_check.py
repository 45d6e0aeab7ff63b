#!/usr/bin/env python3
"""Fresh-sandbox setup: checks that the tools are there. The checks build what they need themselves."""
import shutil, sys
missing = [t for t in ("g++", "ar", "addr2line") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")

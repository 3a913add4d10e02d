"""Setup: nothing to install; verifies that the tools the checks use are there."""
import shutil, sys, os
missing = [t for t in ("tlc", "java", "g++", "cmake", "gcc") if not shutil.which(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
if missing: print("missing tools:", missing); sys.exit(1)
print("ok")

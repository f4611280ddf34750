import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from vf import build
build.build_lib()
for p in sorted(glob.glob(os.path.join(build.VERIF, "drivers", "*.cpp"))):
    build.build_driver(os.path.splitext(os.path.basename(p))[0])
print("setup done")

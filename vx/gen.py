import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vx.unit import Unit
import os
u = Unit(sys.argv[1], os.environ.get("VX_REPO", "/repo"))
open(sys.argv[2], "w").write(u.build(len(sys.argv) > 3))

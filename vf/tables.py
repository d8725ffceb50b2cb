"""The registry of specs/TestTable.tla, for generating command lines."""
import os
import re
from . import build

NAMES = {}
STATS = {}
PS = {}
TS = {}
for m in re.finditer(r'T\((\d+), "(\w+)", (\d+), (\d+), (\d+)\)', open(os.path.join(build.HERE, "specs", "TestTable.tla")).read()):
    n = int(m.group(1))
    NAMES[n] = m.group(2)
    STATS[n], PS[n], TS[n] = int(m.group(3)), int(m.group(4)), int(m.group(5))

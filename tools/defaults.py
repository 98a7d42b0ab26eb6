"""Snapshot of the default arguments users rely on -> dst/defaults.py (run once on a trusted tree, reviewed, committed)."""
import enum
import inspect
import pprint
import sys

import numpy as np

sys.path.insert(0, '/repo')
import CommDspy as cdsp  # noqa: E402
from CommDspy.misc.least_squares import least_squares  # noqa: E402

out = {}
order = {}


def plain(v):
    if isinstance(v, enum.Enum):
        return ('enum', v.name)
    if isinstance(v, np.ndarray):
        return ('array', v.tolist())
    return v


fns = [least_squares]
for mod in (cdsp, cdsp.tx, cdsp.rx, cdsp.channel, cdsp.misc):
    fns += [f for _, f in sorted(vars(mod).items()) if inspect.isfunction(f) and f.__module__.startswith('CommDspy')]
for f in fns:
    d = {p.name: plain(p.default) for p in inspect.signature(f).parameters.values() if p.default is not p.empty}
    if d:
        out[f.__name__] = d
        order[f.__name__] = tuple(inspect.signature(f).parameters)
PATH = '/verif/dst/defaults.py'
with open(PATH) as f:
    code = f.read().split('# ---- code\n')[1]
with open(PATH, 'w') as o:
    o.write('"""Default arguments users rely on (tables generated by tools/defaults.py, reviewed).  A caller may leave them out."""\n')
    o.write('import enum\n\nimport numpy as np\n\n')
    o.write('DEFAULTS = ' + pprint.pformat(out, width=150) + '\n')
    o.write('POSITION = ' + pprint.pformat(order, width=150) + '\n\n\n# ---- code\n' + code)

import json
import os

import core
import p_all
import p_bohe
import p_codec
import p_cpp
import p_fork
import p_page
import p_stream
import p_tool
import p_trace
import p_unit

REGISTRY = {}
for m in (p_codec, p_unit, p_tool, p_cpp, p_stream, p_fork, p_bohe, p_all, p_page,
          p_trace):
    REGISTRY.update(m.REGISTRY)


def replay(path):
    """Runs the check that wrote the file again, with the seed and tier it had: all
    workloads are made from them alone, so the failing case comes up again."""
    with open(path) as f:
        rec = json.load(f)
    os.environ['VERIF_SEED'] = str(rec['seed'])
    run = core.Run(rec['property'], rec['tier'], rec['seed'])
    print('was: %s' % rec['what'][:600])
    REGISTRY[rec['property']](run)
    return run.finish()

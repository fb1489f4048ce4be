import sys
import os
import json


def main():
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    from symx import loader
    loader.install('conc')
    from symx import ctx
    for line in sys.stdin:
        spec, params, values = json.loads(line)
        try:
            r = ctx.conc_run(spec, params, values)
        except BaseException as e:
            r = dict(na=False, failed=[], proved=[], exc='Harness:' + type(e).__name__, msg=str(e)[:300])
        out.write(json.dumps(r) + '\n')
        out.flush()


main()

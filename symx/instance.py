"""run one harness instance: python -m symx.instance SPEC PARAMS_JSON OUT"""
import sys
import json


def main():
    spec, params, outf = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3]
    from symx import loader
    loader.install('sym')
    from symx import ctx
    r = ctx.Run(spec, params).go()
    with open(outf, 'w') as f:
        json.dump(r, f, default=str)


main()

"""Concrete executions of the real code for one property: usage run.py PROPERTY TIER SEED OUT.json"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from replay import common  # noqa: E402


def main():
    prop, tier, seed, out = sys.argv[1:5]
    common.setup()
    rep = common.Report(prop, tier, int(seed))
    error = None
    try:
        mod = importlib.import_module('replay.' + prop.lower())
    except ImportError as e:
        if ('replay.' + prop.lower()) not in str(e):
            raise
        error = 'no replay for ' + prop
    else:
        for name in sorted(n for n in dir(mod) if n.startswith('check_')):
            rep.section = name
            common.reset()
            try:
                getattr(mod, name)(rep)
            except common.Stop:
                pass
            except Exception:
                # the harness calls only public operations that must not raise: report what raised
                rep.crash(traceback.format_exc())
    with open(out, 'w') as f:
        json.dump(rep.result(error), f, default=repr)
    os._exit(0)


if __name__ == '__main__':
    main()

import importlib
import os
import sys
import traceback


def main():
    pid = sys.argv[1]
    from mc import core
    d = os.path.dirname(os.path.abspath(__file__))
    mods = [f[:-3] for f in os.listdir(d) if f.lower().startswith(pid.lower() + '_') and f.endswith('.py')]
    if len(mods) != 1:
        print('no unique module for', pid, mods)
        sys.exit(2)
    ck = core.Check(pid)
    try:
        mod = importlib.import_module('checks.' + mods[0])
        mod.build(ck)
    except Exception as e:
        if core.in_repo_traceback(e):
            ck.violate('the code under test cannot be loaded or driven: %s: %s' % (type(e).__name__, e),
                       {'traceback': traceback.format_exc()}, 'load:%s' % type(e).__name__)
        else:
            # the drivers only use the public interface: if they break on what the code returned, so would a user
            ck.violate('what the code under test returned could not be interpreted: %s: %s' % (type(e).__name__, e),
                       {'traceback': traceback.format_exc()}, 'shape:%s' % type(e).__name__)
    ck.finish()


main()

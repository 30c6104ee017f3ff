import importlib
import sys
import traceback

import common

if __name__ == '__main__':
    prop = sys.argv[1]
    ctx = common.Ctx(prop)
    try:
        importlib.import_module(prop.lower()).run(ctx)
    except common.MachineryError as e:
        print('MACHINERY ERROR %s: %s' % (prop, e))
        sys.exit(3)
    except Exception as e:
        # what the code under test returned could not even be read: on the unchanged tree this never happens
        traceback.print_exc(file=sys.stdout)
        ctx.bad.append(({'ev': 'harness', 'err': repr(e)[:300],
                         'at': traceback.format_exc()[-1500:]}, ['ResultsUnreadable']))
    sys.exit(ctx.finish())

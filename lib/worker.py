"""Jython entry point of one shard."""
import json
import os
import sys
import traceback

# The optional C extension is never built here; without this entry every codec
# the helpers create searches the whole path for it again.
sys.modules['cpyamf'] = None

import mc


def main():
    cfg = json.loads(os.environ['VERIF_CFG'])
    ctx = mc.Ctx(cfg)
    ctx.start_watchdog()
    try:
        try:
            mod = __import__(cfg['module'].encode('ascii'))
            mod.run(ctx)
        except mc.Stop:
            pass
    except:
        ctx.error = 'case %r: %s' % (ctx.current, traceback.format_exc()[-3000:])
    ctx.dump()
    sys.stdout.flush()
    os._exit(0)


main()

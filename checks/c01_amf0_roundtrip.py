"""C01: AMF0 round trips of every bounded object graph."""
import pyamf

import pyval
import rt_common as rt


def run(ctx):
    rt.register()
    t = ctx.thorough
    plans = [
        # name, nodes, kinds, leaves, slots
        ('all kinds, 2 nodes', 2, 'LDMTSZGONQ', 'dxAb', 2),
        ('3 nodes', 3, 'LDT', 'dA', 2),
        ('3 nodes, ecma', 3, 'MQ', 'xb', 2),
        ('4 nodes, 1 slot', 4, 'LDMTN', 'dxA', 1),
        ('4 nodes list', 4, 'L', 'dA', 2),
    ]
    if t:
        plans += [
            ('2 nodes, 3 slots', 2, 'LDMTSZGO', 'dxAb', 3),
            ('3 nodes, 5 kinds', 3, 'LDMTS', 'dxA', 2),
            ('4 nodes', 4, 'LD', 'd', 2),
            ('6 nodes chain', 6, 'LDMTO', 'xA', 1),
        ]
    fixed = {'S': 2, 'Z': 2}
    for name, n, kinds, leaves, slots in plans:
        cnt = 0
        for g in pyval.graphs(n, kinds, leaves, slots, 1, fixed):
            cnt += 1
            cid = 'graph %s' % pyval.gid(g)
            if not ctx.mine(cid):
                continue
            rt.check_graph(ctx, 0, g, [1], two=len(g) <= 2)
            if cnt % 4001 == 5:
                ctx.sample(cid)
        ctx.bound('graphs: ' + name,
                  '%d nodes, kinds %s, leaves %s, <=%d slots: %d graphs' % (
                      n, kinds, leaves, slots, cnt))
    rt.check_scalars(ctx, 0)
    rt.check_texts(ctx, 0, 4 if t else 3)
    rt.check_alike(ctx, 0)
    rt.check_sizes(ctx, 0)
    rt.check_unmutated(ctx, 0)
    ctx.assume('object identity of dates, XML and strings is not part of the '
               'property; integral floats decode as ints (AMF0 has one '
               'number type)')

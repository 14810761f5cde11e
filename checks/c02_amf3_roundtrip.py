"""C02: AMF3 round trips of every bounded object graph."""
import pyamf

import pyval
import rt_common as rt


def run(ctx):
    rt.register()
    t = ctx.thorough
    plans = [
        ('all kinds, 2 nodes', 2, 'LDMTSZGONAQ', 'dxb', 2),
        ('3 nodes', 3, 'LDT', 'db', 2),
        ('3 nodes, ecma', 3, 'MQ', 'x', 2),
        ('3 nodes, sealed', 3, 'LSZ', 'x', 2),
        ('4 nodes, 1 slot', 4, 'LDMTN', 'dxb', 1),
        ('4 nodes list', 4, 'L', 'db', 2),
    ]
    if t:
        plans += [
            ('2 nodes, 3 slots', 2, 'LDMTSZGOA', 'dxb', 3),
            ('3 nodes, 5 kinds', 3, 'LDMTS', 'dxb', 2),
            ('4 nodes', 4, 'LD', 'd', 2),
            ('6 nodes chain', 6, 'LDMTO', 'xb', 1),
        ]
    fixed = {'S': 2, 'Z': 2}
    for name, n, kinds, leaves, slots in plans:
        cnt = 0
        for g in pyval.graphs(n, kinds, leaves, slots, 1, fixed):
            cnt += 1
            cid = 'graph %s' % pyval.gid(g)
            if not ctx.mine(cid):
                continue
            rt.check_graph(ctx, 3, g, [1], two=len(g) <= 2)
            if cnt % 4001 == 5:
                ctx.sample(cid)
        ctx.bound('graphs: ' + name,
                  '%d nodes, kinds %s, leaves %s, <=%d slots: %d graphs' % (
                      n, kinds, leaves, slots, cnt))
    rt.check_scalars(ctx, 3)
    rt.check_texts(ctx, 3, 4 if t else 3)
    rt.check_alike(ctx, 3)
    rt.check_sizes(ctx, 3)
    rt.check_unmutated(ctx, 3)
    ctx.assume('object identity of dates, XML and strings is not part of the '
               'property; an ECMA array without extra keys is the list of '
               'its elements (AMF3 has one array type); sparse and negative '
               'integer keys arrive as decimal strings')

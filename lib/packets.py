"""Independent reader of remoting packets."""
import amfspec
from amfspec import Node

STATUS = {0: u'/onResult', 1: u'/onStatus', 2: u'/onDebugEvents'}


def parse(data, strict):
    """(version, [(name, required, canonical value)], [message])."""
    c = amfspec.Cursor(data)
    version = c.u16()
    if version > 9:
        raise amfspec.SpecError('version')
    headers = []
    fields = []

    def length(start):
        n, at = start
        if strict and n != c.pos - at:
            raise amfspec.SpecError('length %d of %d' % (n, c.pos - at))
        if not strict and n not in (0, 0xffffffff, c.pos - at):
            raise amfspec.SpecError('length')

    for i in range(c.u16()):
        name = amfspec.utf8(c.read(c.u16()))
        required = c.u8() != 0
        fields.append(c.pos)
        n = c.u32()
        at = c.pos
        v = amfspec.Amf0Reader(c).value()
        length((n, at))
        headers.append((name, required, amfspec.canon(v)))
    bodies = []
    for i in range(c.u16()):
        target = amfspec.utf8(c.read(c.u16()))
        response = amfspec.utf8(c.read(c.u16()))
        fields.append(c.pos)
        n = c.u32()
        at = c.pos
        r = amfspec.Amf0Reader(c)
        status = None
        for code, s in STATUS.items():
            if target.endswith(s):
                status = code
                target = target[:-len(s)]
                break
        if status is None:
            # the arguments are no object of their own
            m = c.u8()
            if m == 0x11 and version == 3:
                a = r.amf3.value()
            elif m == 0x0a:
                a = Node('array')
                for j in range(c.u32()):
                    a.items.append(r.value())
            else:
                raise amfspec.SpecError('arguments')
            body = amfspec.canon(a)
            bodies.append(('request', target, response, body))
        else:
            body = amfspec.canon(r.value())
            bodies.append(('response', target, status, body))
        length((n, at))
    if strict and c.left():
        raise amfspec.SpecError('trailing data')
    return version, headers, bodies, fields

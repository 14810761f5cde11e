"""Snapshot and restore of the module level state of the pyamf package.

Every history starts from the state right after import, so histories are
independent of each other and of the shard that runs them.
"""
import sys
import types


class GlobalState(object):
    def __init__(self, prefix='pyamf', bind=True):
        if bind:
            # bind the XML library first: searching for it is slow
            from pyamf import xml
            xml.is_xml(None)
            xml.fromstring('<a/>')

        self.saved = []
        seen = set()
        for name, mod in sorted(sys.modules.items()):
            if not isinstance(mod, types.ModuleType):
                continue
            if name != prefix and not name.startswith(prefix + '.'):
                continue
            for k, v in sorted(vars(mod).items()):
                if k.startswith('__') or k == '_':
                    continue
                if isinstance(v, (dict, list, set)):
                    if id(v) in seen:
                        continue
                    seen.add(id(v))
                    self.saved.append((mod, k, v, list(v) if isinstance(
                        v, list) else dict(v) if isinstance(v, dict)
                        else set(v)))
                elif v is None or isinstance(v, (int, long, float, str,
                                                 unicode)):
                    self.saved.append((mod, k, v, None))

    def restore(self):
        for mod, k, v, content in self.saved:
            if content is None:
                setattr(mod, k, v)
                continue
            if getattr(mod, k, None) is not v:
                setattr(mod, k, v)
            if isinstance(v, list):
                v[:] = content
            else:
                v.clear()
                v.update(content)


def class_state(prefix='pyamf'):
    """Mutable class attributes of the package."""
    out = []
    seen = set()
    for name, mod in sorted(sys.modules.items()):
        if not isinstance(mod, types.ModuleType) or (
                name != prefix and not name.startswith(prefix + '.')):
            continue
        for k, c in sorted(vars(mod).items()):
            if not isinstance(c, type) or id(c) in seen or \
                    not str(c.__module__).startswith(prefix):
                continue
            seen.add(id(c))
            for a, v in sorted(vars(c).items()):
                if a.startswith('__'):
                    continue
                if type(v) in (dict, list, set):
                    out.append((c, a, v, type(v)(v)))
                elif v is None or type(v) in (int, bool):
                    out.append((c, a, v, None))
    return out


def restore_classes(saved):
    for c, a, v, content in saved:
        if vars(c).get(a, c) is not v:
            setattr(c, a, v)
        if content is None:
            continue
        if isinstance(v, list):
            v[:] = content
        else:
            v.clear()
            v.update(content)

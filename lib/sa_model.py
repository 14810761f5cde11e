"""
A model of the parts of SQLAlchemy (and of Elixir) which the adapters of PyAMF
use, as documented for SQLAlchemy 0.5 to 0.7: instrumented classes, the state
of an instance, loading on demand, collections with backrefs, mappers.

There is no SQL: rows are kept in dicts, by class and primary key.
"""
import sys
import types

NO_VALUE = ('no value',)


def _mod(name):
    m = types.ModuleType(name)
    m.__file__ = '<sa_model>'
    return m


sqlalchemy = _mod('sqlalchemy')
orm = _mod('sqlalchemy.orm')
orm_util = _mod('sqlalchemy.orm.util')
attributes = _mod('sqlalchemy.orm.attributes')
collections = _mod('sqlalchemy.orm.collections')
exc = _mod('sqlalchemy.orm.exc')
elixir = _mod('elixir')
entity = _mod('elixir.entity')

sqlalchemy.__version__ = '0.7.10'


# --------------------------------------------------------------- exceptions
class SQLAlchemyError(Exception):
    pass


class UnmappedError(SQLAlchemyError):
    pass


class UnmappedClassError(UnmappedError):
    pass


class DetachedInstanceError(SQLAlchemyError):
    pass


for c in (UnmappedError, UnmappedClassError, DetachedInstanceError):
    setattr(exc, c.__name__, c)


# -------------------------------------------------------------- collections
class InstrumentedList(list):
    """tells the attribute it belongs to of every change"""
    _sa_adapter = None

    def append(self, item):
        _fire_append(self, item)
        list.append(self, item)

    def remove(self, item):
        list.remove(self, item)
        _fire_remove(self, item)

    def extend(self, items):
        for i in items:
            self.append(i)


class InstrumentedSet(set):
    _sa_adapter = None


class InstrumentedDict(dict):
    _sa_adapter = None


class CollectionAdapter(object):
    """bridges between the ORM and a collection"""

    def __init__(self, data):
        self._data = data

    def __iter__(self):
        return iter(self._data)

    def __len__(self):
        return len(self._data)

    def __nonzero__(self):
        return True


for c in (InstrumentedList, InstrumentedSet, InstrumentedDict,
          CollectionAdapter):
    c.__module__ = 'sqlalchemy.orm.collections'
    setattr(collections, c.__name__, c)


def _fire_append(coll, item):
    if coll._sa_adapter is not None:
        obj, attr = coll._sa_adapter
        instance_state(item)
        instance_state(obj).note(attr.key, NO_VALUE)
        attr.backref_set(obj, item)


def _fire_remove(coll, item):
    if coll._sa_adapter is not None:
        obj, attr = coll._sa_adapter
        instance_state(obj).note(attr.key, NO_VALUE)


# --------------------------------------------------------------- instances
class InstanceState(object):
    """What the session knows about one instance."""

    def __init__(self, obj, manager):
        self.instance = obj
        self.manager = manager
        self.committed_state = {}
        self.modified = False
        self.key = None         # the identity, once there is a row
        self.session = None
        self.loads = []         # the attributes that have been loaded

    @property
    def dict(self):
        return self.instance.__dict__

    def obj(self):
        return self.instance

    def note(self, key, old):
        self.committed_state.setdefault(key, old)
        self.modified = True


def instance_state(obj):
    # an AttributeError for anything that is not instrumented
    return obj._sa_instance_state


class ClassManager(object):
    def __init__(self, cls):
        self.class_ = cls

    def new_instance(self, state=None):
        obj = self.class_.__new__(self.class_)
        self.setup_instance(obj)
        return obj

    def setup_instance(self, obj):
        if '_sa_instance_state' not in obj.__dict__:
            obj.__dict__['_sa_instance_state'] = InstanceState(obj, self)


class InstrumentedAttribute(object):
    """The descriptor of a mapped attribute."""

    def __init__(self, prop):
        self.prop = prop
        self.key = prop.key

    def __get__(self, obj, owner):
        if obj is None:
            return self
        d = obj.__dict__
        if self.key in d:
            return d[self.key]
        state = instance_state(obj)
        if state.key is not None:
            if state.session is None:
                raise DetachedInstanceError(
                    '%s is not bound to a Session; lazy load operation of '
                    'attribute %r cannot proceed' % (
                        type(obj).__name__, self.key))
            state.loads.append(self.key)
            state.session.load_attr(obj, self.prop)
            return d[self.key]
        d[self.key] = self.prop.initial(obj, self)
        return d[self.key]

    def __set__(self, obj, value):
        state = instance_state(obj)
        if isinstance(self.prop, RelationProperty) and self.prop.uselist:
            if value is None or isinstance(value, (str, unicode, dict)) or \
                    not hasattr(value, '__iter__'):
                raise TypeError('Incompatible collection type: %s is not '
                                'list-like' % type(value).__name__)
            new = list(value)
            for v in new:
                instance_state(v)
            state.note(self.key, obj.__dict__.get(self.key, NO_VALUE))
            coll = obj.__dict__[self.key] = self.prop.collection(obj, self)
            for v in new:
                list.append(coll, v)
                self.backref_set(obj, v)
            return
        if isinstance(self.prop, RelationProperty) and value is not None:
            instance_state(value)
        state.note(self.key, obj.__dict__.get(self.key, NO_VALUE))
        obj.__dict__[self.key] = value
        if isinstance(self.prop, RelationProperty) and value is not None:
            self.backref_append(obj, value)

    def __delete__(self, obj):
        state = instance_state(obj)
        state.note(self.key, obj.__dict__.get(self.key, NO_VALUE))
        del obj.__dict__[self.key]

    # the other side of a relation, unless it has the object already
    def backref_set(self, obj, item):
        b = self.prop.backref
        if b and item.__dict__.get(b) is not obj:
            instance_state(item).note(b, item.__dict__.get(b, NO_VALUE))
            item.__dict__[b] = obj

    def backref_append(self, obj, item):
        b = self.prop.backref
        if not b:
            return
        coll = item.__dict__.get(b)
        if coll is None:
            # a pending append to a collection that is not loaded
            if instance_state(item).key is not None:
                return
            attr = getattr(type(item), b)
            coll = item.__dict__[b] = attr.prop.collection(item, attr)
        if not [x for x in coll if x is obj]:
            instance_state(item).note(b, NO_VALUE)
            list.append(coll, obj)


attributes.InstrumentedAttribute = InstrumentedAttribute
attributes.instance_state = instance_state


# ------------------------------------------------------------------ mappers
class ColumnProperty(object):
    def initial(self, obj, attr):
        return None


class RelationProperty(object):
    def __init__(self, target, uselist=False, backref=None):
        self.target = target
        self.uselist = uselist
        self.backref = backref

    def collection(self, obj, attr):
        coll = InstrumentedList()
        coll._sa_adapter = (obj, attr)
        return coll

    def initial(self, obj, attr):
        return self.collection(obj, attr) if self.uselist else None


class SynonymProperty(object):
    """another name of a column"""

    def __init__(self, name):
        self.name = name


class Mapper(object):
    def __init__(self, cls, props, primary_key, inherits=None):
        self.class_ = cls
        self.class_manager = ClassManager(cls)
        self.inherits = inherits
        self._props = list(inherits._props) if inherits else []
        known = set(k for k, p in self._props)
        for key, prop in props:
            prop.key = key
            if key not in known:
                self._props.append((key, prop))
        self._primary_key = list(primary_key)
        self.configured = False

    @property
    def iterate_properties(self):
        return iter([p for k, p in self._props])

    def primary_key_from_instance(self, obj):
        return [getattr(obj, k) for k in self._primary_key]

    @property
    def primary_key(self):
        return tuple(self._primary_key)


_mappers = {}


def mapper(cls, props, primary_key, inherits=None):
    """
    Maps a class: C{props} are pairs of the name and the property.
    """
    m = Mapper(cls, props, primary_key,
               _mappers[inherits] if inherits else None)
    _mappers[cls] = m
    cls._sa_class_manager = m.class_manager
    for key, prop in m._props:
        if isinstance(prop, SynonymProperty):
            setattr(cls, key, property(
                lambda self, n=prop.name: getattr(self, n),
                lambda self, v, n=prop.name: setattr(self, n, v)))
        else:
            setattr(cls, key, InstrumentedAttribute(prop))
    original = cls.__init__

    def __init__(self, *args, **kwargs):
        type(self)._sa_class_manager.setup_instance(self)
        return original(self, *args, **kwargs)
    cls.__init__ = __init__
    return m


def class_mapper(cls, compile=True):
    if not isinstance(cls, (type, types.ClassType)) or cls not in _mappers:
        raise UnmappedClassError('%r is not mapped' % (cls,))
    return _mappers[cls]


orm.class_mapper = orm_util.class_mapper = class_mapper
orm.mapper = mapper
orm.attributes = attributes
orm.collections = collections
orm.exc = exc
orm.util = orm_util


# ----------------------------------------------------------------- sessions
class Session(object):
    """
    C{rows} maps the class and the primary key to a dict of attributes, where
    what is related is given by class and primary key.
    """

    def __init__(self, rows):
        self.rows = rows
        self.identity_map = {}

    def get(self, cls, pk, loaded=()):
        key = (cls, tuple(pk))
        if key in self.identity_map:
            return self.identity_map[key]
        if key not in self.rows:
            return None
        obj = _mappers[cls].class_manager.new_instance()
        state = instance_state(obj)
        state.key = key
        state.session = self
        self.identity_map[key] = obj
        for k in loaded:
            self.load_attr(obj, dict(_mappers[cls]._props)[k])
        return obj

    def load_attr(self, obj, prop):
        if isinstance(prop, SynonymProperty):
            return
        v = self.rows[instance_state(obj).key].get(prop.key)
        if isinstance(prop, RelationProperty):
            if prop.uselist:
                coll = prop.collection(obj, getattr(type(obj), prop.key))
                for cls, pk in v or ():
                    list.append(coll, self.get(cls, pk))
                v = coll
            elif v is not None:
                v = self.get(*v)
        obj.__dict__[prop.key] = v

    def expunge_all(self):
        for o in self.identity_map.values():
            instance_state(o).session = None
        self.identity_map = {}


# ------------------------------------------------------------------- elixir
class EntityMeta(type):
    pass


class EntityBase(object):
    pass


class Entity(EntityBase):
    """base class of the declared entities"""
    __metaclass__ = EntityMeta


class Column(object):
    def __init__(self, table, name):
        self.table = table
        self.name = name

    def __str__(self):
        # just the name, before 0.7
        if sqlalchemy.__version__.startswith('0.6'):
            return self.name
        return '%s.%s' % (self.table, self.name)


class Constraint(object):
    def __init__(self, columns):
        self.columns = columns


class Descriptor(object):
    """C{parent} is the parent class, C{polymorphic} the name of the column
    with the type of the row."""

    def __init__(self, tablename, constraints=(), parent=None,
                 polymorphic=None):
        self.tablename = tablename
        self.constraints = [Constraint([Column(tablename, n) for n in c])
                            for c in constraints]
        self.parent = parent
        self.polymorphic = polymorphic


def is_entity(cls):
    return isinstance(cls, EntityMeta) and cls is not Entity


for c in (EntityBase, Entity):
    c.__module__ = 'elixir.entity'
    setattr(entity, c.__name__, c)
    setattr(elixir, c.__name__, c)

elixir.entity = entity
entity.is_entity = is_entity


def install():
    sqlalchemy.__path__ = orm.__path__ = elixir.__path__ = []
    sqlalchemy.orm = orm
    for m in (sqlalchemy, orm, orm_util, attributes, collections, exc,
              elixir, entity):
        sys.modules[m.__name__] = m

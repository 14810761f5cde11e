"""
A small model of the App Engine datastore libraries that PyAMF has adapters
for (google.appengine.ext.db, google.appengine.ext.ndb, their polymodel
modules, google.appengine.api.datastore_types and
google.appengine.ext.blobstore).

The SDK cannot be installed here.  The adapters are the real ones; what is
modelled is only what they stand on: model classes with properties that
validate what is assigned, keys with their url safe form, a datastore that
gives a new instance for every get (ext.db) or the one of its context cache
(ext.ndb).  PyAMF's own tests of the adapters - written against the SDK - pass
on this model (see DESIGN.md).

install() puts the modules in sys.modules.
"""

import base64
import datetime
import itertools
import sys
import types

APP = 'testbed-test'


# -- keys -------------------------------------------------------------------

def _encode_key(path, app=APP):
    out = 'j' + chr(len(app)) + app
    p = ''

    for kind, ident in path:
        p += '\x0b\x12' + chr(len(kind)) + kind

        if isinstance(ident, (int, long)):
            p += '\x18' + _varint(ident)
        elif ident is not None:
            ident = ident.encode('utf-8') if isinstance(ident, unicode) \
                else ident
            p += '"' + chr(len(ident)) + ident

        p += '\x0c'

    out += 'r' + _varint(len(p)) + p

    return base64.b64encode(out, '-_').rstrip('=')


def _varint(n):
    s = ''

    while n > 127:
        s += chr((n & 127) | 128)
        n >>= 7

    return s + chr(n)


class _ProtocolBufferDecodeError(Exception):
    pass


def _decode_key(text):
    text = str(text)

    try:
        data = base64.b64decode(text + '=' * (-len(text) % 4), '-_')
        assert data[0] == 'j'
        n = ord(data[1])
        data = data[2 + n:]
        assert data[0] == 'r'
        pos = [1]

        def varint():
            r = shift = 0

            while True:
                b = ord(data[pos[0]])
                pos[0] += 1
                r |= (b & 127) << shift
                shift += 7

                if b < 128:
                    return r

        def string():
            n = varint()
            s = data[pos[0]:pos[0] + n]
            assert len(s) == n
            pos[0] += n

            return s

        n = varint()
        assert len(data) == pos[0] + n
        path = []

        while pos[0] < len(data):
            assert data[pos[0]:pos[0] + 2] == '\x0b\x12'
            pos[0] += 2
            kind = string()
            ident = None
            c = data[pos[0]]

            if c == '\x18':
                pos[0] += 1
                ident = varint()
            elif c == '"':
                pos[0] += 1
                ident = string()

            assert data[pos[0]] == '\x0c'
            pos[0] += 1
            path.append((kind, ident))

        assert path

        return tuple(path)
    except (AssertionError, IndexError, TypeError):
        raise _ProtocolBufferDecodeError(text)


_ids = itertools.count(1)


def _mod(name, doc=None):
    return types.ModuleType(name, doc)


# ---------------------------------------------------------------------------
# google.appengine.ext.db

db = _mod('google.appengine.ext.db')


class _DbKey(object):
    def __init__(self, encoded=None):
        if encoded is not None:
            if not isinstance(encoded, basestring):
                raise db.BadArgumentError(
                    'Key() expects a string; received %s' % (encoded,))

            try:
                self._path = _decode_key(encoded)
            except Exception:
                raise db.BadKeyError('Invalid string key %s.' % encoded)
        else:
            self._path = ((None, None),)

    @classmethod
    def from_path(cls, *args, **kwargs):
        parent = kwargs.get('parent')
        key = cls()
        path = list(parent._path) if parent is not None else []

        for i in xrange(0, len(args), 2):
            path.append((args[i], args[i + 1]))

        key._path = tuple(path)

        return key

    def kind(self):
        return self._path[-1][0]

    def id_or_name(self):
        return self._path[-1][1]

    def has_id_or_name(self):
        return self._path[-1][1] is not None

    def parent(self):
        return None

    def __str__(self):
        if not self.has_id_or_name():
            raise db.BadKeyError('Cannot string encode an incomplete key!')

        return _encode_key(self._path)

    def __eq__(self, other):
        return isinstance(other, _DbKey) and self._path == other._path

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._path)

    def __repr__(self):
        return 'datastore_types.Key.from_path%r' % (self._path,)


class _DbError(Exception):
    pass


for _n in ('BadValueError', 'BadKeyError', 'BadArgumentError', 'KindError',
           'NotSavedError', 'ReferencePropertyResolveError',
           'DuplicatePropertyError', 'ReservedWordError', 'PropertyError'):
    setattr(db, _n, type(_n, (_DbError,), {}))


#: the datastore: key -> (class, {property name: value}, {dynamic: value})
_db_store = {}
_db_kinds = {}


class _DbProperty(object):
    data_type = str

    def __init__(self, verbose_name=None, name=None, default=None,
                 required=False, validator=None, choices=None, indexed=True):
        self.name = name
        self.default = default
        self.required = required
        self.validator = validator
        self.choices = choices

    def __property_config__(self, model_class, property_name):
        self.model_class = model_class

        if self.name is None:
            self.name = property_name

    def __get__(self, model_instance, model_class):
        if model_instance is None:
            return self

        try:
            return getattr(model_instance, self._attr_name())
        except AttributeError:
            return None

    def __set__(self, model_instance, value):
        setattr(model_instance, self._attr_name(), self.validate(value))

    def default_value(self):
        return self.default

    def validate(self, value):
        if self.empty(value):
            if self.required:
                raise db.BadValueError('Property %s is required' % self.name)
        elif self.choices and value not in self.choices:
            raise db.BadValueError('Property %s is %r' % (self.name, value))

        if self.validator is not None:
            self.validator(value)

        return value

    def empty(self, value):
        return not value

    def get_value_for_datastore(self, model_instance):
        return self.__get__(model_instance, model_instance.__class__)

    def _attr_name(self):
        return '_' + self.name


def _typed(name, kind, base=_DbProperty, exact=False):
    def validate(self, value):
        value = super(cls, self).validate(value)

        if value is not None and not isinstance(value, kind):
            raise db.BadValueError('Property %s must be a %r, not %r' % (
                self.name, kind, value))

        return value

    def empty(self, value):
        return value is None

    cls = type(name, (base,), {'validate': validate, 'empty': empty})
    setattr(db, name, cls)

    return cls


_typed('StringProperty', basestring)
_typed('TextProperty', basestring)
_typed('BooleanProperty', bool)
_typed('FloatProperty', float)
_typed('DateTimeProperty', datetime.datetime)


class _DbInteger(_DbProperty):
    def validate(self, value):
        value = super(_DbInteger, self).validate(value)

        if value is None:
            return value

        if not isinstance(value, (int, long)) or isinstance(value, bool):
            raise db.BadValueError('Property %s must be an int or long, not '
                                   'a %s' % (self.name, type(value).__name__))

        if not -2 ** 63 <= value < 2 ** 63:
            raise db.BadValueError('Property %s must fit in 64 bits'
                                   % self.name)

        return value

    def empty(self, value):
        return value is None


class _DbDate(db.DateTimeProperty):
    def validate(self, value):
        value = _DbProperty.validate(self, value)

        if value is not None and (
                not isinstance(value, datetime.date) or
                isinstance(value, datetime.datetime)):
            raise db.BadValueError('Property %s must be a date, not %r' % (
                self.name, value))

        return value


class _DbTime(db.DateTimeProperty):
    def validate(self, value):
        value = _DbProperty.validate(self, value)

        if value is not None and not isinstance(value, datetime.time):
            raise db.BadValueError('Property %s must be a time, not %r' % (
                self.name, value))

        return value


class _DbList(_DbProperty):
    def __init__(self, item_type, verbose_name=None, default=None, **kwds):
        if item_type is str:
            item_type = basestring

        self.item_type = item_type
        super(_DbList, self).__init__(
            verbose_name, default=[] if default is None else default, **kwds)

    def validate(self, value):
        value = super(_DbList, self).validate(value)

        if value is None:
            raise db.BadValueError('Property %s must be a list' % self.name)

        if not isinstance(value, list):
            raise db.BadValueError('Property %s must be a list' % self.name)

        kinds = self.item_type

        if kinds in (int, long):
            kinds = (int, long)

        for item in value:
            if not isinstance(item, kinds):
                raise db.BadValueError(
                    'Items in the %s list must all be %r instances' % (
                        self.name, kinds))

        return value

    def empty(self, value):
        return value is None

    def default_value(self):
        return list(super(_DbList, self).default_value())


class _DbStringList(_DbList):
    def __init__(self, verbose_name=None, default=None, **kwds):
        super(_DbStringList, self).__init__(
            basestring, verbose_name, default, **kwds)


_SELF = object()


class _DbReference(_DbProperty):
    def __init__(self, reference_class=None, verbose_name=None,
                 collection_name=None, **attrs):
        super(_DbReference, self).__init__(verbose_name, **attrs)
        self.collection_name = collection_name
        self.reference_class = reference_class or _DbModel

    def __property_config__(self, model_class, property_name):
        super(_DbReference, self).__property_config__(
            model_class, property_name)

        if self.reference_class is _SELF:
            self.reference_class = model_class

        if self.collection_name is None:
            self.collection_name = '%s_set' % (model_class.__name__.lower())

        setattr(self.reference_class, self.collection_name,
                _DbReverseReference(model_class, property_name))

    def get_value_for_datastore(self, model_instance):
        return getattr(model_instance, self._attr_name())

    def __get__(self, model_instance, model_class):
        if model_instance is None:
            return self

        key = getattr(model_instance, self._attr_name(), None)

        if key is None:
            return None

        resolved = getattr(model_instance, self._resolved(), None)

        if resolved is not None:
            return resolved

        instance = db.get(key)

        if instance is None:
            raise db.ReferencePropertyResolveError(
                'ReferenceProperty failed to be resolved: %r' % (key,))

        setattr(model_instance, self._resolved(), instance)

        return instance

    def __set__(self, model_instance, value):
        value = self.validate(value)

        if value is not None:
            if isinstance(value, _DbKey):
                setattr(model_instance, self._attr_name(), value)
                setattr(model_instance, self._resolved(), None)
            else:
                setattr(model_instance, self._attr_name(), value.key())
                setattr(model_instance, self._resolved(), value)
        else:
            setattr(model_instance, self._attr_name(), None)
            setattr(model_instance, self._resolved(), None)

    def validate(self, value):
        if isinstance(value, _DbKey):
            return value

        if value is not None and not value.has_key():
            raise db.BadValueError(
                '%s instance must have a complete key before it can be '
                'stored as a reference' % self.reference_class.__name__)

        value = super(_DbReference, self).validate(value)

        if value is not None and not isinstance(value, self.reference_class):
            raise db.KindError('Property %s must be an instance of %s' % (
                self.name, self.reference_class.__name__))

        return value

    def empty(self, value):
        return value is None

    def _resolved(self):
        return '_RESOLVED' + self._attr_name()


class _DbReverseReference(_DbProperty):
    def __init__(self, model, prop):
        self._model = model
        self._prop = prop

    def __get__(self, model_instance, model_class):
        if model_instance is not None:
            return _DbQuery(self._model, self._prop, model_instance.key())

        return self

    def __set__(self, model_instance, value):
        raise db.BadValueError('Virtual property is read-only')


class _DbQuery(object):
    def __init__(self, model, prop=None, value=None):
        self._model = model
        self._prop = prop
        self._value = value

    def __iter__(self):
        for key in sorted(_db_store, key=str):
            cls, values, dynamic = _db_store[key]

            if not issubclass(cls, self._model):
                continue

            if self._prop and values.get(self._prop) != self._value:
                continue

            yield db.get(key)


class _DbModelMeta(type):
    def __init__(cls, name, bases, dct):
        type.__init__(cls, name, bases, dct)

        props = {}

        for base in reversed(cls.__mro__[1:]):
            props.update(base.__dict__.get('_properties', {}))

        for attr_name, attr in dct.items():
            if isinstance(attr, _DbProperty):
                props[attr_name] = attr
                cls._properties = props
                attr.__property_config__(cls, attr_name)

        cls._properties = props
        # of a polymorphic class the root stands for the kind
        _db_kinds.setdefault(cls.kind(), cls)


class _DbEntity(object):
    """
    Stands for the low level entity a saved model holds on to.
    """

    def __init__(self, key):
        self._k = key

    def key(self):
        return self._k


class _DbModel(object):
    __metaclass__ = _DbModelMeta

    def __init__(self, parent=None, key_name=None, _app=None,
                 _from_entity=False, **kwds):
        key = kwds.get('key', None)

        if key is not None:
            if isinstance(key, basestring):
                key = _DbKey(encoded=key)

            if not isinstance(key, _DbKey):
                raise TypeError('Expected Key type; received %s' % (key,))

            if not key.has_id_or_name():
                raise db.BadKeyError('Key must have an id or name')

            if key.kind() != self.kind():
                raise db.BadKeyError('Expected Key kind to be %s; received %s'
                                     % (self.kind(), key.kind()))

            self._key = key
            self._key_name = None
        else:
            self._key = None
            self._key_name = key_name

        self._parent = None
        self._parent_key = None
        self._entity = None
        self._app = _app

        for prop in self.properties().values():
            if prop.name in kwds:
                value = kwds[prop.name]
            else:
                value = prop.default_value()

            prop.__set__(self, value)

    @classmethod
    def kind(cls):
        return cls.__name__

    @classmethod
    def properties(cls):
        return dict(cls._properties)

    @classmethod
    def all(cls):
        return _DbQuery(cls)

    @classmethod
    def get(cls, keys):
        return db.get(keys)

    def dynamic_properties(self):
        return set()

    def is_saved(self):
        return self._entity is not None

    def has_key(self):
        return bool(self.is_saved() or self._key or self._key_name)

    def key(self):
        if self.is_saved():
            return self._entity.key()
        elif self._key:
            return self._key
        elif self._key_name:
            return _DbKey.from_path(self.kind(), self._key_name)
        else:
            raise db.NotSavedError()

    def parent(self):
        return None

    def parent_key(self):
        return None

    def put(self):
        if self.has_key():
            key = self.key()
        else:
            key = _DbKey.from_path(self.kind(), _ids.next())

        values = {}

        for name, prop in self.properties().items():
            value = prop.get_value_for_datastore(self)

            if isinstance(value, list):
                value = list(value)

            values[name] = value

        dynamic = {}

        for name in self.dynamic_properties():
            dynamic[name] = getattr(self, name)

        _db_store[key] = (self.__class__, values, dynamic)
        self._entity = _DbEntity(key)
        self._key = key

        return key

    save = put


class _DbExpando(_DbModel):
    _dynamic_properties = None

    def __init__(self, parent=None, key_name=None, _app=None,
                 _from_entity=False, **kwds):
        super(_DbExpando, self).__init__(parent, key_name, _app, None, **kwds)
        self._dynamic_properties = {}

        for prop, value in kwds.iteritems():
            if prop not in self.properties() and prop != 'key':
                setattr(self, prop, value)

    def dynamic_properties(self):
        return self._dynamic_properties.keys()

    def __setattr__(self, key, value):
        if key[:1] != '_' and key not in self.properties():
            if value == []:
                raise ValueError('Cannot store empty list to dynamic '
                                 'property %s' % key)

            if not hasattr(getattr(type(self), key, None), '__set__'):
                if value is not None and not isinstance(
                        value, (basestring, bool, int, long, float, _DbKey,
                                datetime.datetime, list)):
                    raise TypeError('Expando cannot accept values of type %s'
                                    % type(value).__name__)

                if self._dynamic_properties is None:
                    self._dynamic_properties = {}

                self._dynamic_properties[key] = value

                return

        super(_DbExpando, self).__setattr__(key, value)

    def __getattr__(self, key):
        d = self.__dict__.get('_dynamic_properties')

        if d and key in d:
            return d[key]

        raise AttributeError(key)


def _db_get_one(key):
    found = _db_store.get(key)

    if found is None:
        return None

    cls, values, dynamic = found
    obj = cls.__new__(cls)
    kwds = {}

    for name, value in values.items():
        if isinstance(value, list):
            value = list(value)

        kwds[name] = value

    kwds.update(dynamic)
    obj.__init__(_from_entity=True, **kwds)
    obj._entity = _DbEntity(key)
    obj._key = key

    return obj


def _db_get(keys):
    if isinstance(keys, (list, tuple, set)):
        return [_db_get_one(_db_as_key(k)) for k in keys]

    return _db_get_one(_db_as_key(keys))


def _db_as_key(k):
    if isinstance(k, basestring):
        return _DbKey(k)

    if isinstance(k, _DbModel):
        return k.key()

    return k


def _class_for_kind(kind):
    try:
        return _db_kinds[kind]
    except KeyError:
        raise db.KindError('No implementation for kind \'%s\'' % kind)


db.Key = _DbKey
db.Property = _DbProperty
db.IntegerProperty = _DbInteger
db.DateProperty = _DbDate
db.TimeProperty = _DbTime
db.ListProperty = _DbList
db.StringListProperty = _DbStringList
db.ReferenceProperty = _DbReference
db._ReverseReferenceProperty = _DbReverseReference
db.SelfReferenceProperty = lambda **kw: _DbReference(_SELF, **kw)
db.Query = _DbQuery
db.Model = _DbModel
db.Expando = _DbExpando
db.get = _db_get
db.class_for_kind = _class_for_kind

db_polymodel = _mod('google.appengine.ext.db.polymodel')


class _DbClassKey(_DbList):
    def __init__(self, name):
        super(_DbClassKey, self).__init__(item_type=str)
        self.name = name

    def __set__(self, *args):
        # DerivedPropertyError is swallowed by Model.__init__
        pass

    def __get__(self, model_instance, model_class):
        if model_instance is None:
            return self

        return [cls.__name__ for cls in model_class.__class_hierarchy__]

    def default_value(self):
        return None


class _DbPolyMeta(_DbModelMeta):
    def __init__(cls, name, bases, dct):
        if name == 'PolyModel':
            cls.__class_hierarchy__ = []
        else:
            cls.__class_hierarchy__ = [
                c for c in reversed(cls.__mro__)
                if isinstance(c, _DbPolyMeta) and c.__name__ != 'PolyModel']

        _DbModelMeta.__init__(cls, name, bases, dct)


class _DbPolyModel(_DbModel):
    __metaclass__ = _DbPolyMeta
    _class = _DbClassKey('class')

    @classmethod
    def kind(cls):
        h = cls.__dict__.get('__class_hierarchy__') or [cls]

        return h[0].__name__


_DbPolyModel.__name__ = 'PolyModel'
db_polymodel.PolyModel = _DbPolyModel
db.polymodel = db_polymodel


# ---------------------------------------------------------------------------
# google.appengine.ext.ndb

ndb = _mod('google.appengine.ext.ndb')
_ndb_store = {}
_ndb_cache = {}


class _BadValueError(Exception):
    pass


class _ComputedPropertyError(Exception):
    pass


class _KindError(Exception):
    pass


class _NdbKey(object):
    def __init__(self, *flat, **kwargs):
        urlsafe = kwargs.pop('urlsafe', None)

        if urlsafe is not None:
            if not isinstance(urlsafe, basestring):
                raise TypeError('urlsafe must be a string; received %r' % (
                    urlsafe,))

            self._path = _decode_key(urlsafe)
        else:
            path = []

            for i in xrange(0, len(flat), 2):
                kind = flat[i]

                if isinstance(kind, type):
                    kind = kind._get_kind()

                path.append((kind, flat[i + 1]))

            self._path = tuple(path)

    def kind(self):
        return self._path[-1][0]

    def id(self):
        return self._path[-1][1]

    def urlsafe(self):
        return _encode_key(self._path)

    def get(self):
        return _ndb_get(self)

    def __eq__(self, other):
        if not isinstance(other, _NdbKey):
            return NotImplemented

        return self._path == other._path

    def __ne__(self, other):
        if not isinstance(other, _NdbKey):
            return NotImplemented

        return self._path != other._path

    def __hash__(self):
        return hash(self._path)

    def __repr__(self):
        return 'Key%r' % (self._path,)


class _NdbProperty(object):
    _code_name = None

    def __init__(self, name=None, indexed=None, repeated=None, required=None,
                 default=None, choices=None, validator=None,
                 verbose_name=None):
        self._name = name
        self._repeated = bool(repeated)
        self._required = required
        self._default = default
        self._choices = choices
        self._validator = validator

    def _fix_up(self, cls, code_name):
        self._code_name = code_name

        if self._name is None:
            self._name = code_name

    def _validate(self, value):
        return value

    def _do_validate(self, value):
        value = self._validate(value)

        if self._choices and value not in self._choices:
            raise _BadValueError('Value %r for property %s' % (
                value, self._name))

        return value

    def _set_value(self, entity, value):
        if self._repeated:
            if not isinstance(value, (list, tuple, set, frozenset)):
                raise _BadValueError('Expected list or tuple, got %r' % (
                    value,))

            value = [self._do_validate(v) for v in value]
        elif value is not None:
            value = self._do_validate(value)

        entity._values[self._name] = value

    def _get_value(self, entity):
        value = entity._values.get(self._name, self._default)

        if self._repeated and value is None:
            # the list handed out is the one the entity holds
            value = entity._values[self._name] = []

        return value

    def __get__(self, entity, cls=None):
        if entity is None:
            return self

        return self._get_value(entity)

    def __set__(self, entity, value):
        self._set_value(entity, value)


class _NdbModelKey(object):
    def __get__(self, entity, cls=None):
        if entity is None:
            return self

        return entity._entity_key

    def __set__(self, entity, value):
        if value is not None:
            if not isinstance(value, _NdbKey):
                raise _BadValueError('Expected Key instance, got %r' % (
                    value,))

            if value.kind() != entity._get_kind():
                raise _KindError('Expected Key kind to be %s; received %s' % (
                    entity._get_kind(), value.kind()))

        entity._entity_key = value


def _ndb_typed(name, kind, base=_NdbProperty, convert=None, no=()):
    def _validate(self, value):
        if not isinstance(value, kind) or (no and isinstance(value, no)):
            raise _BadValueError('Expected %s for %s, got %r' % (
                name, self._name, value))

        if convert:
            value = convert(value)

        return value

    cls = type(name, (base,), {'_validate': _validate})
    setattr(ndb, name, cls)

    return cls


_ndb_typed('BlobProperty', str)
_ndb_typed('TextProperty', basestring, ndb.BlobProperty)
_ndb_typed('StringProperty', basestring, ndb.TextProperty)
_ndb_typed('BooleanProperty', bool)
_ndb_typed('IntegerProperty', (int, long), convert=int)
_ndb_typed('FloatProperty', (int, long, float), convert=float)
_ndb_typed('DateTimeProperty', datetime.datetime)
_ndb_typed('DateProperty', datetime.date, ndb.DateTimeProperty,
           no=datetime.datetime)
_ndb_typed('TimeProperty', datetime.time, ndb.DateTimeProperty)
_ndb_typed('GenericProperty', object)


class _NdbKeyProperty(_NdbProperty):
    def __init__(self, *args, **kwargs):
        kind = kwargs.pop('kind', None)

        if isinstance(kind, type):
            kind = kind._get_kind()

        self._kind = kind
        super(_NdbKeyProperty, self).__init__(*args, **kwargs)

    def _validate(self, value):
        if not isinstance(value, _NdbKey):
            raise _BadValueError('Expected Key, got %r' % (value,))

        if self._kind is not None and value.kind() != self._kind:
            raise _BadValueError('Expected Key with kind=%r, got %r' % (
                self._kind, value))

        return value


class _NdbComputed(ndb.GenericProperty):
    def __init__(self, func, name=None, repeated=None):
        super(_NdbComputed, self).__init__(name=name, repeated=repeated)
        self._func = func

    def _set_value(self, entity, value):
        raise _ComputedPropertyError('Cannot assign to a ComputedProperty')

    def _get_value(self, entity):
        value = self._func(entity)
        entity._values[self._name] = value

        return value


class _NdbStructured(_NdbProperty):
    def __init__(self, modelclass, name=None, **kwargs):
        super(_NdbStructured, self).__init__(name, **kwargs)
        self._modelclass = modelclass

    def _validate(self, value):
        if isinstance(value, dict):
            return self._modelclass(**value)

        if not isinstance(value, self._modelclass):
            raise _BadValueError('Expected %s instance, got %r' % (
                self._modelclass.__name__, value))

        return value


class _NdbLocalStructured(_NdbStructured):
    pass


class _NotEqualMixin(object):
    def __ne__(self, other):
        eq = self.__eq__(other)

        return eq if eq is NotImplemented else not eq


class _NdbMeta(type):
    def __init__(cls, name, bases, dct):
        type.__init__(cls, name, bases, dct)
        cls._properties = {}

        for n in sorted(set(dir(cls))):
            attr = getattr(cls, n, None)

            if isinstance(attr, _NdbProperty):
                attr._fix_up(cls, n)
                cls._properties[attr._name] = attr

        # of a polymorphic class the root stands for the kind
        cls._kind_map.setdefault(cls._get_kind(), cls)


class _NdbModel(_NotEqualMixin):
    __metaclass__ = _NdbMeta
    _kind_map = {}
    _entity_key = None
    _values = None
    _projection = ()
    _key = _NdbModelKey()
    key = _key

    def __init__(self, **kwds):
        key = kwds.pop('_key', kwds.pop('key', None))
        ident = kwds.pop('id', None)
        self._values = {}

        if key is not None:
            self._key = key
        elif ident is not None:
            self._key = _NdbKey(self._get_kind(), ident)

        self._set_attributes(kwds)

    def _set_attributes(self, kwds):
        cls = self.__class__

        for name, value in kwds.iteritems():
            prop = getattr(cls, name)

            if not isinstance(prop, _NdbProperty):
                raise TypeError('Cannot set non-property %s' % name)

            prop._set_value(self, value)

    @classmethod
    def _get_kind(cls):
        return cls.__name__

    @classmethod
    def query(cls):
        return _NdbQuery(cls)

    def put(self):
        key = self.key

        if key is None:
            key = self._key = _NdbKey(self._get_kind(), _ids.next())

        _ndb_store[key] = (self.__class__, _ndb_copy(self._values),
                           dict(self._properties))
        _ndb_cache[key] = self

        return key

    def __hash__(self):
        raise TypeError('Model is not immutable')

    def __eq__(self, other):
        if other.__class__ is not self.__class__:
            return NotImplemented

        if self._entity_key != other._entity_key:
            return False

        if set(self._properties) != set(other._properties):
            return False

        for prop in self._properties.values():
            if prop._get_value(self) != prop._get_value(other):
                return False

        return True


def _ndb_copy(values):
    r = {}

    for k, v in values.items():
        r[k] = list(v) if isinstance(v, list) else v

    return r


class _NdbExpando(_NdbModel):
    def _set_attributes(self, kwds):
        for name, value in kwds.iteritems():
            setattr(self, name, value)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)

        prop = self._properties.get(name)

        if prop is None:
            return super(_NdbExpando, self).__getattribute__(name)

        return prop._get_value(self)

    def __setattr__(self, name, value):
        if name.startswith('_') or isinstance(
                getattr(self.__class__, name, None),
                (_NdbProperty, _NdbModelKey, property)):
            return super(_NdbExpando, self).__setattr__(name, value)

        if '_properties' not in self.__dict__:
            self._properties = dict(self.__class__._properties)

        if isinstance(value, _NdbModel):
            prop = _NdbStructured(_NdbModel, name)
        else:
            prop = ndb.GenericProperty(name, repeated=isinstance(value, list))

        prop._code_name = name
        self._properties[name] = prop
        prop._set_value(self, value)


class _NdbQuery(object):
    def __init__(self, model):
        self._model = model

    def __iter__(self):
        for key in sorted(_ndb_store, key=repr):
            if issubclass(_ndb_store[key][0], self._model):
                yield _ndb_get(key)


def _ndb_get(key):
    if key in _ndb_cache:
        return _ndb_cache[key]

    found = _ndb_store.get(key)

    if found is None:
        return None

    cls, values, props = found
    obj = cls.__new__(cls)
    obj._values = _ndb_copy(values)
    obj._entity_key = key

    if set(props) != set(cls._properties):
        obj.__dict__['_properties'] = dict(props)

    _ndb_cache[key] = obj

    return obj


def _ndb_get_multi(keys):
    return [_ndb_get(k) for k in keys]


ndb.Key = _NdbKey
ndb.Property = _NdbProperty
ndb.KeyProperty = _NdbKeyProperty
ndb.ComputedProperty = _NdbComputed
ndb.StructuredProperty = _NdbStructured
ndb.LocalStructuredProperty = _NdbLocalStructured
ndb.Model = _NdbModel
ndb.Expando = _NdbExpando
ndb.Query = _NdbQuery
ndb.get_multi = _ndb_get_multi
ndb.model = _mod('google.appengine.ext.ndb.model')
ndb.model._NotEqualMixin = _NotEqualMixin

ndb_polymodel = _mod('google.appengine.ext.ndb.polymodel')


class _NdbClassKey(ndb.StringProperty):
    def __init__(self, name='class'):
        super(_NdbClassKey, self).__init__(name, repeated=True)

    def _get_value(self, entity):
        value = super(_NdbClassKey, self)._get_value(entity)

        if not value:
            value = entity._class_key()
            entity._values[self._name] = value

        return value

    def _set_value(self, entity, value):
        raise TypeError('class_ is a read-only property')


class _NdbPolyModel(_NdbModel):
    class_ = _NdbClassKey()

    @classmethod
    def _hierarchy(cls):
        return [c for c in reversed(cls.__mro__)
                if issubclass(c, _NdbModel) and
                c not in (_NdbModel, _NdbPolyModel)]

    @classmethod
    def _get_kind(cls):
        if cls.__name__ in ('PolyModel', '_NdbPolyModel'):
            return 'PolyModel'

        return cls._hierarchy()[0].__name__

    @classmethod
    def _class_key(cls):
        return [c.__name__ for c in cls._hierarchy()]


ndb_polymodel.PolyModel = _NdbPolyModel
ndb.polymodel = ndb_polymodel


# ---------------------------------------------------------------------------
# google.appengine.api.datastore_types, google.appengine.ext.blobstore

datastore_types = _mod('google.appengine.api.datastore_types')


class GeoPt(object):
    lat = None
    lon = None

    def __init__(self, lat, lon=None):
        if lon is None:
            lat, lon = [float(x) for x in lat.split(',')]

        lat = float(lat)
        lon = float(lon)

        if abs(lat) > 90 or abs(lon) > 180:
            raise db.BadValueError('out of range')

        self.lat = lat
        self.lon = lon


datastore_types.GeoPt = GeoPt
datastore_types.Key = _DbKey

blobstore = _mod('google.appengine.ext.blobstore')


class BlobKey(object):
    def __init__(self, key):
        if not isinstance(key, basestring):
            raise TypeError('BlobKey expects a string')

        self._k = key

    def __str__(self):
        return str(self._k)

    def __eq__(self, other):
        return isinstance(other, BlobKey) and self._k == other._k

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._k)


class BlobInfo(object):
    def __init__(self, entity_or_blob_key, _values=None):
        self._key_ = entity_or_blob_key
        self._vals = _values

    def key(self):
        return self._key_

    def _value(self, name):
        return (self._vals or {}).get(name)

    content_type = property(lambda self: self._value('content_type'))
    creation = property(lambda self: self._value('creation'))
    filename = property(lambda self: self._value('filename'))
    size = property(lambda self: self._value('size'))


BlobInfo.__module__ = 'google.appengine.ext.blobstore'
blobstore.BlobInfo = BlobInfo
blobstore.BlobKey = BlobKey


# ---------------------------------------------------------------------------

def clear():
    """
    Empties the datastore.
    """
    _db_store.clear()
    _ndb_store.clear()
    _ndb_cache.clear()


def clear_cache():
    """
    What the next request finds: the entities are stored, but no longer in
    the context of ndb.
    """
    _ndb_cache.clear()


def install():
    google = sys.modules.get('google') or _mod('google')
    google.__path__ = getattr(google, '__path__', [])
    mods = {'google': google}

    for name in ('google.appengine', 'google.appengine.ext',
                 'google.appengine.api'):
        mods[name] = _mod(name)
        mods[name].__path__ = []

    mods['google.appengine.ext.db'] = db
    mods['google.appengine.ext.db.polymodel'] = db_polymodel
    mods['google.appengine.ext.ndb'] = ndb
    mods['google.appengine.ext.ndb.polymodel'] = ndb_polymodel
    mods['google.appengine.ext.ndb.model'] = ndb.model
    mods['google.appengine.api.datastore_types'] = datastore_types
    mods['google.appengine.ext.blobstore'] = blobstore
    db.__path__ = ndb.__path__ = []

    for name, mod in mods.items():
        sys.modules[name] = mod

        if '.' in name:
            parent, child = name.rsplit('.', 1)
            setattr(mods[parent], child, mod)

"""Canonical, hashable descriptions of values: the monitors' eyes

Nothing here uses the equality functions of the code under test.
"""
import collections
import datetime
import io
import uuid

import numpy as np

import properties

UNSET = '<unset>'


def base_container(val):
    for typ in (list, tuple, set, frozenset, dict):
        if isinstance(val, typ):
            return typ
    return None


def container_kind(val):
    """Class name with observing wrappers removed: the user's own class"""
    for cls in type(val).__mro__:
        if not cls.__name__.startswith('Observable'):
            return cls.__module__ + '.' + cls.__name__
    return '?'


def canon(val, kinds=True, ids=False, memo=None):
    """Structural description; cycles become back references

    kinds: distinguish container subclasses; ids: include object identity
    """
    if memo is None:
        memo = {}
    if val is None or val is properties.undefined:
        return UNSET if val is None else '<undefined>'
    if isinstance(val, (bool, np.bool_)):
        return (type(val).__name__, bool(val))
    if isinstance(val, (int, str, bytes)):
        return (type(val).__name__, val)
    if isinstance(val, (float, complex, np.generic)):
        return (type(val).__name__, repr(val))
    if isinstance(val, np.ndarray):
        return ('array', type(val).__name__, val.dtype.str, val.shape,
                repr(np.asarray(val).tolist()))
    if isinstance(val, (datetime.datetime, datetime.date, uuid.UUID)):
        return (type(val).__name__, repr(val))
    if id(val) in memo:
        return ('ref', memo[id(val)])
    if isinstance(val, properties.HasProperties):
        memo[id(val)] = len(memo)
        out = ['hp', type(val).__module__, type(val).__name__]
        if ids:
            out.append(id(val))
        for name in sorted(stored_names(val)):
            out.append((name, canon(getattr(val, name), kinds, ids, memo)))
        return tuple(out)
    base = base_container(val)
    if base is not None:
        if base not in (tuple, frozenset):
            memo[id(val)] = len(memo)
        kind = container_kind(val) if kinds else base.__name__
        head = (kind, id(val)) if ids else (kind,)
        if base is dict:
            items = [(canon(k, kinds, ids, memo), canon(v, kinds, ids, memo))
                     for k, v in val.items()]
            return head + (tuple(sorted(items, key=repr)),)
        if base in (set, frozenset):     # whatever their order
            items = sorted((canon(v, kinds, ids, dict(memo)) for v in val),
                           key=repr)
        else:
            items = [canon(v, kinds, ids, memo) for v in val]
        return head + tuple(items)
    if isinstance(val, io.BytesIO):
        memo[id(val)] = len(memo)
        return ('bytesio', val.closed or val.getvalue())
    memo[id(val)] = len(memo)
    if hasattr(val, '__dict__') and getattr(val, 'canon_state', False):
        return ('obj', type(val).__name__,
                canon(val.__dict__, kinds, ids, memo))
    return ('opaque', type(val).__name__, id(val))


def stored_names(obj):
    """Names of properties that hold stored values (documented _props)"""
    return [key for key, prop in obj._props.items()
            if not isinstance(prop, (properties.basic.DynamicProperty,
                                     properties.basic.Renamed))]


def state(obj, ids=False):
    """All stored values of one instance, read through its own properties"""
    memo = {id(obj): -1}
    return {name: canon(getattr(obj, name), True, ids, memo)
            for name in stored_names(obj)}


# ------------------------------------------------------------- equivalence

TOL = 1e-9


def equiv(a, b, seen=None):
    """Are two values equal up to what a JSON round trip must preserve?

    Structural: same classes, same properties, floats within 1e-9, nan equal
    to nan, container kinds by base type (JSON keeps no subclass), arrays by
    class, shape and values.  Independent of Property.equal.
    """
    if seen is None:
        seen = {}
    if a is None or b is None or a is properties.undefined:
        return a is b
    if isinstance(a, properties.HasProperties):
        if type(a) is not type(b):
            return False
        if id(a) in seen:
            return seen[id(a)] == id(b)
        seen[id(a)] = id(b)
        names = stored_names(a)
        same = all(equiv(getattr(a, n), getattr(b, n), seen) for n in names)
        del seen[id(a)]
        return same
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape:
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind == 'c' or b.dtype.kind == 'c':
            return bool(np.array_equal(a, b, equal_nan=True))
        a, b = a.astype(float), b.astype(float)
        if not np.array_equal(np.isnan(a), np.isnan(b)):
            return False
        ok = (a == b) | (np.abs(np.nan_to_num(a) - np.nan_to_num(b)) <=
                         TOL + 1e-12 * np.abs(np.nan_to_num(b)))
        return bool(np.all(ok | np.isnan(a)))
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and \
            isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (int, float, complex)):
        if not isinstance(b, (int, float, complex)):
            return False
        if a == b or (a != a and b != b):
            return True
        if isinstance(a, complex) or isinstance(b, complex):
            a, b = complex(a), complex(b)
            return equiv(a.real, b.real) and equiv(a.imag, b.imag)
        try:
            if abs(a) == float('inf') or abs(b) == float('inf'):
                return False
            return abs(a - b) <= TOL + 1e-15 * abs(b)
        except OverflowError:
            return False
    base = base_container(a)
    if base is not None:
        if base_container(b) is not base or len(a) != len(b):
            return False
        if base is dict:
            return all(k in b and equiv(a[k], b[k], seen) for k in a)
        if base in (list, tuple):
            return all(equiv(x, y, seen) for x, y in zip(a, b))
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if equiv(x, y, dict(seen)):
                    del rest[i]
                    break
            else:
                return False
        return True
    if isinstance(a, io.BytesIO) and isinstance(b, io.BytesIO):
        return a.getvalue() == b.getvalue()
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    return type(a) is type(b) and a == b


def walk(val, seen=None):
    """Yield every HasProperties instance and mutable container reachable"""
    if seen is None:
        seen = collections.OrderedDict()
    if val is None or id(val) in seen:
        return seen
    if isinstance(val, properties.HasProperties):
        seen[id(val)] = val
        for name in stored_names(val):
            walk(getattr(val, name), seen)
    elif isinstance(val, np.ndarray):
        seen[id(val)] = val
    elif isinstance(val, dict):
        seen[id(val)] = val
        for k, v in val.items():
            walk(k, seen)
            walk(v, seen)
    elif isinstance(val, (list, tuple, set)):
        if not isinstance(val, tuple):
            seen[id(val)] = val
        for v in val:
            walk(v, seen)
    elif isinstance(val, io.BytesIO):
        seen[id(val)] = val
    return seen

"""Snapshots of real objects: pickle, extended to what an implementation may reasonably keep in them."""
import importlib
import io
import marshal
import pickle
import threading
import types
import weakref

_RLOCK, _LOCK = type(threading.RLock()), type(threading.Lock())


def _function(code, module, name, qualname, defaults, kwdefaults, cells, attrs):
    f = types.FunctionType(marshal.loads(code), vars(importlib.import_module(module)), name, defaults, cells)
    f.__qualname__, f.__kwdefaults__ = qualname, kwdefaults
    f.__dict__.update(attrs)
    return f


def _cell(*content):
    return types.CellType(*content)


def _setcell(cell, state):
    cell.cell_contents = state[0]


def _found(f):
    try:
        obj = importlib.import_module(f.__module__)
        for part in f.__qualname__.split("."):
            obj = getattr(obj, part)
        return obj is f
    except Exception:
        return False


class _Pickler(pickle.Pickler):
    def reducer_override(self, obj):
        if isinstance(obj, types.FunctionType) and not _found(obj):
            return _function, (marshal.dumps(obj.__code__), obj.__module__, obj.__name__, obj.__qualname__,
                               obj.__defaults__, obj.__kwdefaults__, obj.__closure__, dict(obj.__dict__))
        if isinstance(obj, types.CellType):
            try:
                return _cell, (), (obj.cell_contents,), None, None, _setcell
            except ValueError:
                return _cell, ()
        if isinstance(obj, types.ModuleType):
            return importlib.import_module, (obj.__name__,)
        if isinstance(obj, types.MappingProxyType):
            return types.MappingProxyType, (dict(obj),)
        if isinstance(obj, _RLOCK):
            return threading.RLock, ()
        if isinstance(obj, _LOCK):
            return threading.Lock, ()
        if isinstance(obj, (type({}.keys()), type({}.values()), type({}.items()))):
            return list, (list(obj),)
        if isinstance(obj, weakref.WeakKeyDictionary):
            return _weak, (weakref.WeakKeyDictionary, list(obj.items()))
        if isinstance(obj, weakref.WeakValueDictionary):
            return _weak, (weakref.WeakValueDictionary, list(obj.items()))
        return NotImplemented


def _weak(cls, items):
    d = cls()
    for k, v in items:
        d[k] = v
    return d


def freeze(obj):
    try:
        return pickle.dumps(obj)
    except Exception:
        buf = io.BytesIO()
        _Pickler(buf, protocol=4).dump(obj)
        return buf.getvalue()


thaw = pickle.loads

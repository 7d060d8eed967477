"""A small model of pydantic: typed fields, defaults, unions, literals, nested models, dict()."""
import copy as _copy
import json as _json
import sys
import types
import typing
from pathlib import Path

_MISSING = object()


class ValidationError(ValueError):
    pass


class FieldInfo:
    def __init__(self, default=_MISSING, default_factory=None, **extra):
        for k in extra:
            if k not in ("description", "title", "ge", "gt", "le", "lt", "example", "examples", "discriminator"):
                raise NotImplementedError("unmodelled Field argument %s" % k)
        self.default, self.default_factory, self.extra = default, default_factory, extra

    def make(self):
        if self.default_factory is not None:
            return self.default_factory()
        return _copy.deepcopy(self.default)


def Field(default=_MISSING, *, default_factory=None, **extra):
    return FieldInfo(_MISSING if default is ... else default, default_factory, **extra)


def ConfigDict(**kw):
    return dict(kw)


def _coerce(tp, v, where):
    if tp is typing.Any or isinstance(tp, typing.TypeVar):
        return v
    if tp is None or tp is type(None):
        if v is None:
            return None
        raise ValidationError("%s: none expected" % where)
    org = typing.get_origin(tp)
    if org is typing.Annotated:
        return _coerce(typing.get_args(tp)[0], v, where)
    if org is typing.Literal:
        if v in typing.get_args(tp):
            return v
        raise ValidationError("%s: %r is not one of %s" % (where, v, typing.get_args(tp)))
    if org in (typing.Union, types.UnionType):
        alts = typing.get_args(tp)
        for a in alts:      # an instance of a member is taken as it is
            if isinstance(a, type) and type(v) is a:
                return v
        errs = []
        for a in alts:
            try:
                return _coerce(a, v, where)
            except (ValidationError, TypeError) as e:
                errs.append(str(e))
        raise ValidationError("; ".join(errs))
    if org in (dict, typing.Dict) or tp is dict:
        if not isinstance(v, dict):
            raise ValidationError("%s: dict expected" % where)
        args = typing.get_args(tp) or (typing.Any, typing.Any)
        return {_coerce(args[0], k, where): _coerce(args[1], x, where) for k, x in v.items()}
    if org in (list, tuple, set) or tp in (list, tuple, set):
        base = org or tp
        if not isinstance(v, (list, tuple, set)):
            raise ValidationError("%s: sequence expected" % where)
        args = typing.get_args(tp)
        return base(_coerce(args[0] if args else typing.Any, x, where) for x in v)
    if isinstance(tp, type) and issubclass(tp, BaseModel):
        if isinstance(v, tp):
            return v
        if isinstance(v, dict):
            return tp(**v)
        raise ValidationError("%s: %s expected" % (where, tp.__name__))
    if tp is bool:
        if isinstance(v, bool):
            return v
        if v in (0, 1, "true", "false", "True", "False", "on", "off", "yes", "no"):
            return v in (1, "true", "True", "on", "yes")
        raise ValidationError("%s: bool expected" % where)
    if tp is int:
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float) and v == int(v):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                pass
        raise ValidationError("%s: int expected, got %r" % (where, v))
    if tp is float:
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                pass
        raise ValidationError("%s: float expected, got %r" % (where, v))
    if tp is str:
        if isinstance(v, str):
            return v
        raise ValidationError("%s: str expected, got %r" % (where, v))
    if isinstance(tp, type):
        if isinstance(v, tp):
            return v
        raise ValidationError("%s: %s expected" % (where, tp))
    raise NotImplementedError("unmodelled annotation %r" % (tp,))


class BaseModel:
    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        cls.__fields_cache__ = None

    @classmethod
    def _fields(cls):
        if cls.__dict__.get("__fields_cache__") is None:
            out = {}
            for k in reversed(cls.__mro__):
                if not (isinstance(k, type) and issubclass(k, BaseModel)) or k is BaseModel:
                    continue
                ann = k.__dict__.get("__annotations__", {})
                if not ann:
                    continue
                ns = dict(vars(sys.modules[k.__module__]))
                hints = {}
                for n, a in ann.items():
                    if n.startswith("_") or n == "model_config":
                        continue
                    t = eval(a, ns, dict(vars(k))) if isinstance(a, str) else a
                    if typing.get_origin(t) is typing.ClassVar:
                        continue
                    hints[n] = t
                for n, t in hints.items():
                    d = k.__dict__.get(n, _MISSING)
                    if not isinstance(d, FieldInfo):
                        d = FieldInfo(d)
                    out[n] = (t, d)
            cls.__fields_cache__ = out
        return cls.__fields_cache__

    def __init__(self, /, **data):
        fields_set = set()
        for n, (t, d) in type(self)._fields().items():
            if n in data:
                self.__dict__[n] = _coerce(t, data[n], "%s.%s" % (type(self).__name__, n))
                fields_set.add(n)
            else:
                v = d.make()
                if v is _MISSING:
                    raise ValidationError("%s.%s: field required" % (type(self).__name__, n))
                self.__dict__[n] = v

    def __getattribute__(self, n):
        v = super().__getattribute__(n)
        if isinstance(v, FieldInfo):
            raise AttributeError(n)
        return v

    def __setattr__(self, n, v):
        if n not in type(self)._fields() and not n.startswith("_"):
            raise ValueError('"%s" object has no field "%s"' % (type(self).__name__, n))
        object.__setattr__(self, n, v)

    def dict(self, **kw):
        if kw:
            raise NotImplementedError("unmodelled dict() arguments")

        def conv(v):
            if isinstance(v, BaseModel):
                return v.dict()
            if isinstance(v, dict):
                return {k: conv(x) for k, x in v.items()}
            if isinstance(v, (list, tuple, set)):
                return type(v)(conv(x) for x in v)
            return v
        return {n: conv(self.__dict__[n]) for n in type(self)._fields()}

    model_dump = dict

    def json(self, **kw):
        return _json.dumps(self.dict())

    model_dump_json = json

    def copy(self, deep=False, update=None):
        c = _copy.deepcopy(self) if deep else _copy.copy(self)
        for k, v in (update or {}).items():
            c.__dict__[k] = v
        return c

    model_copy = copy

    @classmethod
    def parse_obj(cls, d):
        return cls(**d)

    model_validate = parse_obj

    @classmethod
    def model_validate_json(cls, s):
        return cls(**_json.loads(s))

    parse_raw = model_validate_json

    def __iter__(self):
        return iter((n, self.__dict__[n]) for n in type(self)._fields())

    def __eq__(self, o):
        if isinstance(o, BaseModel):
            return type(self) is type(o) and self.dict() == o.dict()
        if isinstance(o, type({})):
            return self.dict() == o
        return NotImplemented

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % (n, self.__dict__.get(n)) for n in type(self)._fields()))

"""Stand-in for the part of SQLAlchemy / SQLite the repository uses: tables are lists of rows whose
cells may be symbolic, queries are evaluated row by row.  Every path the solver explores is run again
with a concrete witness on the real SQLAlchemy and SQLite and has to agree with this stand-in."""

import os as _os
import pathlib as _pathlib
import types as _types

from symx import core, fmt, regex
from symx.core import SBool, SInt, Unsupported, b_and, b_not, b_or
from symx.models import MemView, c_memoryview
from symx.seq import SByteArray, SBytes, SStr, mkbytes


class IntegrityError(Exception):
    pass


class OperationalError(Exception):
    pass


# ---------------------------------------------------------------------------------------------------- expressions
class Expr:
    def __init__(self, ev):
        self.ev = ev

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise TypeError("Boolean value of this clause is not defined")

    def __eq__(self, o):
        if o is None:
            return Expr(lambda r: self.ev(r) is None)
        return binary(self, o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None:
            return Expr(lambda r: self.ev(r) is not None)
        return binary(self, o, lambda a, b: a != b)

    def __lt__(self, o):
        return binary(self, o, lambda a, b: a < b)

    def __le__(self, o):
        return binary(self, o, lambda a, b: a <= b)

    def __gt__(self, o):
        return binary(self, o, lambda a, b: a > b)

    def __ge__(self, o):
        return binary(self, o, lambda a, b: a >= b)

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __invert__(self):
        return not_(self)

    def __add__(self, o):
        return binary(self, o, lambda a, b: a + b)

    def __sub__(self, o):
        return binary(self, o, lambda a, b: a - b)

    def bitwise_and(self, o):
        return binary(self, o, lambda a, b: a & b)

    def bitwise_or(self, o):
        return binary(self, o, lambda a, b: a | b)

    def op(self, name):
        ops = {"&": lambda a, b: a & b, "|": lambda a, b: a | b, "+": lambda a, b: a + b, "-": lambda a, b: a - b, "=": lambda a, b: a == b, "==": lambda a, b: a == b, "<": lambda a, b: a < b, ">": lambda a, b: a > b}
        if name not in ops:
            raise Unsupported(f"SQL operator {name}")
        return lambda o: binary(self, o, ops[name])

    def in_(self, items):
        items = [const(i) for i in items]
        return Expr(lambda r: None if self.ev(r) is None else b_or(*[i is not None and self.ev(r) == i for i in items]))

    def not_in(self, items):
        return not_(self.in_(items))

    notin_ = not_in

    def between(self, a, b):
        return and_(self >= a, self <= b)

    def is_(self, o):
        return self == o

    def is_not(self, o):
        return self != o

    def startswith(self, p):
        return Expr(lambda r: None if self.ev(r) is None else self.ev(r).startswith(p))

    def endswith(self, p):
        return Expr(lambda r: None if self.ev(r) is None else self.ev(r).endswith(p))

    def contains(self, p):
        from symx import instrument

        return Expr(lambda r: None if self.ev(r) is None else instrument.RT.contains(p, self.ev(r)))

    def like(self, p):
        raise Unsupported("SQL LIKE")

    def asc(self):
        return Order(self, False)

    def desc(self):
        return Order(self, True)

    def label(self, n):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise AttributeError(f"Neither 'InstrumentedAttribute' object nor 'Comparator' object has an attribute {name!r}")


class Order:
    def __init__(self, e, desc):
        self.e = e
        self.rev = desc


def const(v):
    if isinstance(v, int) and v.__class__ is not int:
        return int(v)
    return v


def val(v):
    return v.ev if isinstance(v, Expr) else (lambda r, v=const(v): v)


def binary(a, b, f):
    x, y = val(a), val(b)

    def ev(r):
        p, q = x(r), y(r)
        return None if p is None or q is None else f(p, q)

    return Expr(ev)


def truth(v):
    """bool / SBool of a non-NULL SQL value."""
    if isinstance(v, (bool, SBool)):
        return v
    return v != 0


def and_(*es):
    fs = [val(e) for e in es]

    def ev(r):
        vs = [f(r) for f in fs]
        rest = [truth(v) for v in vs if v is not None]
        if len(rest) < len(vs):
            return False if not bool(b_and(*rest)) else None
        return b_and(*rest)

    return Expr(ev)


def or_(*es):
    fs = [val(e) for e in es]

    def ev(r):
        vs = [f(r) for f in fs]
        rest = [truth(v) for v in vs if v is not None]
        if len(rest) < len(vs):
            return True if bool(b_or(*rest)) else None
        return b_or(*rest)

    return Expr(ev)


def not_(e):
    f = val(e)

    def ev(r):
        v = f(r)
        return None if v is None else b_not(truth(v))

    return Expr(ev)


class Func:
    """func.name(args): user defined SQL functions."""

    def __getattr__(self, name):
        if name == "now":
            return lambda: Expr(lambda r: None)

        def call(*args):
            fs = [val(a) for a in args]

            def ev(r):
                f = FUNCTIONS.get((name.lower(), len(fs)))
                if f is None:
                    if name == "lower" and len(fs) == 1:
                        return fs[0](r).lower()
                    raise OperationalError(f"no such function: {name}")
                return f(*[g(r) for g in fs])

            return Expr(ev)

        return call


FUNCTIONS = {}


# ---------------------------------------------------------------------------------------------------- columns
class Type:
    def __init__(self, *a, **k):
        pass

    def with_variant(self, *a):
        return self


class TInt(Type):
    pass


class TNum(Type):
    pass


class TText(Type):
    pass


class TBlob(Type):
    pass


class TDate(Type):
    pass


class ForeignKey:
    def __init__(self, target, **k):
        self.target = target


class Column(Expr):
    def __init__(self, *args, default=None, nullable=None, primary_key=False, unique=False, index=False, server_default=None, **k):
        self.name = None
        self.fk = None
        self.type = None
        for a in args:
            if isinstance(a, str):
                self.name = a
            elif isinstance(a, ForeignKey):
                self.fk = a
            else:
                self.type = a
        if isinstance(self.type, type):
            self.type = self.type()
        self.default = default
        self.primary_key = primary_key
        self.unique = unique
        self.nullable = (not primary_key) if nullable is None else nullable
        self.server_default = server_default
        self.key = self.name

    def __set_name__(self, owner, name):
        self.key = name
        if self.name is None:
            self.name = name

    def ev(self, r):
        return r[self.key]

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj.__dict__.get(self.key)

    def bind(self, v):
        """The value SQLite stores for v."""
        if v is None:
            return None
        t = self.type
        if isinstance(v, (SInt, SBool)) or isinstance(v, int):
            v = int(v) if isinstance(v, int) else core.num(v)
            if isinstance(t, TBlob):
                raise Unsupported("number in a BLOB column")
            if v.__class__ is int:
                if not -(1 << 63) <= v < 1 << 63:
                    raise OverflowError("Python int too large to convert to SQLite INTEGER")
            elif bool(b_or(v < -(1 << 63), v >= 1 << 63)):
                raise OverflowError("Python int too large to convert to SQLite INTEGER")
            return fmt.sx_str(v) if isinstance(t, TText) else v
        if isinstance(v, (str, SStr)):
            if isinstance(t, TText):
                return v
            raise Unsupported("text in a column of another type")
        if isinstance(v, (bytes, bytearray, SBytes, SByteArray, memoryview, MemView)):
            if isinstance(t, (TBlob, TText)):
                return bytes(v) if isinstance(v, (bytes, bytearray, memoryview)) else mkbytes(list(v._sx_bytes() if isinstance(v, MemView) else v.els))
            raise Unsupported("bytes in a column of another type")
        if isinstance(v, float) or type(v).__name__ in ("datetime", "Decimal"):
            raise Unsupported(f"{type(v).__name__} in a database")
        raise OperationalError(f"Error binding parameter: type {type(v).__name__!r} is not supported")


class relationship:
    def __init__(self, target=None, back_populates=None, uselist=None, **k):
        self.target = target
        self.back = back_populates
        self.uselist = uselist

    def __set_name__(self, owner, name):
        self.key = name

    def is_list(self, cls):
        if self.uselist is not None:
            return self.uselist
        return not any(c.fk and c.fk.target.split(".")[0] == registry_by_name(cls, self.target).__tablename__ for c in columns(cls))

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        d = obj.__dict__
        if self.key not in d:
            d[self.key] = self.load(obj)
        return d[self.key]

    def load(self, obj):
        many = self.is_list(type(obj))
        other = registry_by_name(type(obj), self.target)
        s = obj.__dict__.get("_sx_session")
        if many:
            if s is None:
                return []
            fk = fk_column(other, type(obj))
            return [s._load(other, r) for r in s.store.rows(other) if r[fk.key] == obj.rid]
        if s is None:
            return None
        fk = fk_column(type(obj), other)
        for r in s.store.rows(other):
            if r["rid"] == obj.__dict__.get(fk.key):
                return s._load(other, r)
        return None


def registry_by_name(cls, name):
    return cls._sx_registry[name]


def fk_column(child, parent):
    for c in columns(child):
        if c.fk and c.fk.target.split(".")[0] == parent.__tablename__:
            return c
    raise Unsupported("relationship without foreign key")


def columns(cls):
    out = {}
    for k in cls.__mro__[::-1]:
        for n, c in vars(k).items():
            if isinstance(c, Column):
                out[n] = c
    return list(out.values())


def rels(cls):
    out = {}
    for k in cls.__mro__[::-1]:
        for n, c in vars(k).items():
            if isinstance(c, relationship):
                out[n] = c
    return list(out.values())


class _Table:
    def __init__(self, cls):
        self.c = self.columns = columns(cls)
        self.name = cls.__tablename__


class Meta:
    def __init__(self):
        self.classes = []

    def create_all(self, engine, **k):
        engine.connect_sx()
        engine.store()

    def drop_all(self, engine, **k):
        st = engine.store()
        st.tables = {}
        st.committed = {}


def declarative_base(**k):
    registry = {}

    class Base:
        _sx_registry = registry
        metadata = Meta()

        def __init_subclass__(cls, **k):
            super().__init_subclass__(**k)
            registry[cls.__name__] = cls
            cls.__table__ = _Table(cls)

        def __init__(self, **kw):
            for k, v in kw.items():
                if not hasattr(type(self), k):
                    raise TypeError(f"{k!r} is an invalid keyword argument for {type(self).__name__}")
                setattr(self, k, v)

    return Base


class declared_attr:
    def __init__(self, f):
        self.f = f

    def __get__(self, obj, cls=None):
        return self.f(cls if cls is not None else type(obj))


class hybrid_property:
    def __init__(self, fget, expr=None):
        self.fget = fget
        self.expr = expr
        self.__doc__ = getattr(fget, "__doc__", None)

    def __get__(self, obj, cls=None):
        if obj is None:
            return (self.expr or self.fget)(cls)
        return self.fget(obj)

    def __set__(self, obj, v):
        raise AttributeError("can't set attribute")

    def expression(self, f):
        return hybrid_property(self.fget, f)

    def getter(self, f):
        return hybrid_property(f, self.expr)


class hybrid_method:
    def __init__(self, func, expr=None):
        self.func = func
        self.expr = expr

    def __get__(self, obj, cls=None):
        if obj is None:
            f = self.expr or self.func
            return lambda *a, **k: f(cls, *a, **k)
        return lambda *a, **k: self.func(obj, *a, **k)

    def expression(self, f):
        return hybrid_method(self.func, f)


# ---------------------------------------------------------------------------------------------------- store
class Store:
    def __init__(self):
        self.tables = {}
        self.committed = {}

    def rows(self, cls):
        return self.tables.setdefault(cls.__name__, [])

    def commit(self):
        self.committed = {k: [dict(r) for r in v] for k, v in self.tables.items()}

    def rollback(self):
        self.tables = {k: [dict(r) for r in v] for k, v in self.committed.items()}


class Engine:
    def __init__(self, url):
        self.url = url
        self.memory = None
        self.connected = False

    def connect_sx(self):
        if not self.connected:
            self.connected = True
            for f in LISTENERS.get("connect", []):
                f(Connection(), None)
            # the dialect's own function, registered after the listeners of the application
            FUNCTIONS[("regexp", 2)] = lambda a, b: None if b is None else regex.make_re_module().search(a, b) is not None

    def store(self):
        name = self.url.removeprefix("sqlite:///")
        if name in ("", ":memory:"):
            if self.memory is None:
                self.memory = Store()
            return self.memory
        vfs = core.ENG.vfs
        if not isinstance(vfs.get(name), Store):
            if vfs.get(name):
                raise OperationalError("file is not a database")
            vfs[name] = Store()
        return vfs[name]

    def dispose(self, *a, **k):
        self.connected = False


class Connection:
    def create_function(self, name, n, f, **k):
        FUNCTIONS[(name.lower(), n)] = f

    def cursor(self):
        return self

    def execute(self, *a):
        return self

    def close(self):
        pass


LISTENERS = {}


class event:
    @staticmethod
    def listens_for(target, name, **k):
        def deco(f):
            if target is Engine:
                LISTENERS[name] = [f]
            return f

        return deco

    @staticmethod
    def listen(target, name, f, **k):
        if target is Engine:
            LISTENERS[name] = [f]


def create_engine(url, **k):
    return Engine(url)


class Session:
    def __init__(self, bind=None, autoflush=True, autocommit=False, **k):
        self.bind = bind
        self.autoflush = autoflush
        self.pending = []
        self.persistent = {}
        self.store = bind.store()

    # -- unit of work
    def add(self, obj):
        if id(obj) not in self.persistent and not any(o is obj for o in self.pending):
            self.pending.append(obj)
            for r in rels(type(obj)):
                v = obj.__dict__.get(r.key)
                for c in v if isinstance(v, list) else [v] if v is not None else []:
                    self.add(c)

    def add_all(self, objs):
        for o in list(objs):
            self.add(o)

    def _insert(self, obj):
        cls = type(obj)
        rows = self.store.rows(cls)
        row = {}
        for c in columns(cls):
            v = obj.__dict__.get(c.key)
            if v is None and c.default is not None:
                v = c.default() if callable(c.default) else c.default
            if c.primary_key and v is None:
                v = max([r[c.key] for r in rows], default=0) + 1
            v = c.bind(v)
            if v is None and not c.nullable and c.server_default is None:
                raise IntegrityError(f"NOT NULL constraint failed: {cls.__tablename__}.{c.name}")
            if c.unique or c.primary_key:
                for r in rows:
                    if v is not None and r[c.key] is not None and bool(r[c.key] == v):
                        raise IntegrityError(f"UNIQUE constraint failed: {cls.__tablename__}.{c.name}")
            row[c.key] = v
        rows.append(row)
        return row

    def _children(self, obj):
        for r in rels(type(obj)):
            v = obj.__dict__.get(r.key)
            if isinstance(v, list):
                for c in v:
                    yield r, c

    def flush(self, *a):
        try:
            while True:
                for _o, _r in list(self.persistent.values()):
                    for _, c in self._children(_o):
                        self.add(c)
                if not self.pending:
                    return
                # parents before children
                self.pending.sort(key=lambda o: any(c.fk for c in columns(type(o))))
                obj = self.pending.pop(0)
                for o, row in list(self.persistent.values()):
                    for r, c in self._children(o):
                        if c is obj:
                            obj.__dict__[fk_column(type(obj), type(o)).key] = o.rid
                row = self._insert(obj)
                pk = [c for c in columns(type(obj)) if c.primary_key][0]
                obj.__dict__[pk.key] = row[pk.key]
                obj.__dict__["_sx_session"] = self
                self.persistent[id(obj)] = (obj, row)
                for _, c in self._children(obj):
                    self.add(c)
        except BaseException:
            self.pending = []
            self.rollback()
            raise

    def commit(self):
        self.flush()
        self.store.commit()
        for obj, row in self.persistent.values():
            obj.__dict__.update(row)

    def rollback(self):
        self.pending = []
        self.store.rollback()
        live = {}
        for k, (o, row) in self.persistent.items():
            cls = type(o)
            for r in self.store.rows(cls):
                if r["rid"] == row["rid"]:
                    live[k] = (o, r)
        self.persistent = live

    def bulk_save_objects(self, objs, **k):
        if self.autoflush:
            pass
        objs = list(objs)
        saved = {n: [dict(r) for r in v] for n, v in self.store.tables.items()}
        try:
            for o in objs:
                self._insert(o)
        except BaseException:
            self.store.tables = saved
            raise

    def close(self):
        self.pending = []
        self.persistent = {}
        self.store.rollback()

    def expire_all(self):
        pass

    def expunge_all(self):
        self.persistent = {}

    def _load(self, cls, row):
        for o, r in self.persistent.values():
            if r is row:
                return o
        o = cls.__new__(cls)
        o.__dict__.update(row)
        o.__dict__["_sx_session"] = self
        self.persistent[id(o)] = (o, row)
        return o

    def query(self, *what):
        return Query(self, what)

    def get(self, cls, rid):
        return self.query(cls).filter(cls.rid == rid).first()

    def execute(self, *a, **k):
        raise Unsupported("raw SQL")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Query:
    def __init__(self, session, what, flt=(), order=(), lim=None, off=0):
        self.s = session
        self.what = what
        self.flt = tuple(flt)
        self.order = tuple(order)
        self.lim = lim
        self.off = off

    def _copy(self, **k):
        d = dict(flt=self.flt, order=self.order, lim=self.lim, off=self.off)
        d.update(k)
        return Query(self.s, self.what, **d)

    def filter(self, *ps):
        return self._copy(flt=self.flt + ps)

    where = filter

    def filter_by(self, **kw):
        return self.filter(*[getattr(self.what[0], k) == v for k, v in kw.items()])

    def order_by(self, *cs):
        return self._copy(order=self.order + cs)

    def limit(self, n):
        return self._copy(lim=n)

    def offset(self, n):
        return self._copy(off=n)

    def _rows(self):
        if len(self.what) != 1:
            raise Unsupported("query for several entities")
        w = self.what[0]
        cls = w if isinstance(w, type) else None
        if cls is None:
            raise Unsupported("query for columns")
        if self.s.autoflush:
            self.s.flush()
        for r in list(self.s.store.rows(cls)):
            keep = True
            for p in self.flt:
                v = p.ev(r) if isinstance(p, Expr) else p
                if v is None or not bool(truth(v)):
                    keep = False
                    break
            if keep:
                yield r

    def _sorted(self):
        rows = list(self._rows())
        if self.order:
            out = []
            for r in rows:
                i = len(out)
                while i > 0 and self._less(r, out[i - 1]):
                    i -= 1
                out.insert(i, r)
            rows = out
        if self.lim is not None or self.off:
            rows = rows[self.off :][: self.lim]
        return rows

    def _less(self, a, b):
        for o in self.order:
            rev = False
            if isinstance(o, Order):
                o, rev = o.e, o.rev
            x, y = o.ev(a), o.ev(b)
            if rev:
                x, y = y, x
            if x is None or y is None:
                if x is None and y is None:
                    continue
                return x is None
            if bool(x == y):
                continue
            return bool(x < y)
        return False

    def all(self):
        return [self.s._load(self.what[0], r) for r in self._sorted()]

    def __iter__(self):
        return iter(self.all())

    def first(self):
        if self.order or self.lim is not None or self.off:
            rows = self._sorted()
            return self.s._load(self.what[0], rows[0]) if rows else None
        for r in self._rows():
            return self.s._load(self.what[0], r)
        return None

    def one_or_none(self):
        rows = self._sorted()
        if len(rows) > 1:
            raise OperationalError("Multiple rows were found")
        return self.s._load(self.what[0], rows[0]) if rows else None

    def one(self):
        r = self.one_or_none()
        if r is None:
            raise OperationalError("No row was found")
        return r

    def count(self):
        return len(list(self._rows()))


# ---------------------------------------------------------------------------------------------------- modules
def make_modules():
    func = Func()
    ty = _types.ModuleType("sqlalchemy.types")
    for n in ("Integer", "INTEGER", "BigInteger", "SmallInteger", "BIGINT", "Boolean"):
        setattr(ty, n, type(n, (TInt,), {}))
    for n in ("VARCHAR", "String", "Text", "TEXT", "Unicode"):
        setattr(ty, n, type(n, (TText,), {}))
    for n in ("BLOB", "LargeBinary"):
        setattr(ty, n, type(n, (TBlob,), {}))
    for n in ("DateTime", "DATETIME"):
        setattr(ty, n, type(n, (TDate,), {}))
    for n in ("NUMERIC", "Numeric", "Float"):
        setattr(ty, n, type(n, (TNum,), {}))
    orm = _types.ModuleType("sqlalchemy.orm")
    orm.Session = Session
    orm.relationship = relationship
    orm.declarative_base = declarative_base
    orm.declared_attr = declared_attr
    orm.sessionmaker = lambda bind=None, **k: lambda: Session(bind, **k)
    eng = _types.ModuleType("sqlalchemy.engine")
    eng.Engine = Engine
    eng.create_engine = create_engine
    decl = _types.ModuleType("sqlalchemy.ext.declarative")
    decl.declarative_base = declarative_base
    decl.declared_attr = declared_attr
    hyb = _types.ModuleType("sqlalchemy.ext.hybrid")
    hyb.hybrid_property = hybrid_property
    hyb.hybrid_method = hybrid_method
    sql = _types.ModuleType("sqlalchemy.sql")
    sql.func = func
    exc = _types.ModuleType("sqlalchemy.exc")
    exc.IntegrityError = IntegrityError
    exc.OperationalError = exc.SQLAlchemyError = exc.DatabaseError = OperationalError
    sa = _types.ModuleType("sqlalchemy")
    for n, v in dict(Column=Column, ForeignKey=ForeignKey, and_=and_, or_=or_, not_=not_, create_engine=create_engine, event=event, orm=orm, types=ty, func=func, exc=exc, engine=eng, sql=sql).items():
        setattr(sa, n, v)
    for n in dir(ty):
        if n[0].isupper():
            setattr(sa, n, getattr(ty, n))
    return {"sqlalchemy": sa, "sqlalchemy.types": ty, "sqlalchemy.orm": orm, "sqlalchemy.engine": eng, "sqlalchemy.ext.declarative": decl, "sqlalchemy.ext.hybrid": hyb, "sqlalchemy.sql": sql, "sqlalchemy.exc": exc}


# ---------------------------------------------------------------------------------------------------- files
def _virtual(p):
    p = p.__fspath__() if hasattr(p, "__fspath__") else p
    return p if isinstance(p, str) and p in core.ENG.vfs else None


class VFd:
    def __init__(self, path):
        self.path = path


class VPath(_pathlib.PurePosixPath):
    def exists(self):
        return OsPath.exists(self)

    is_file = exists

    def unlink(self, missing_ok=False):
        if not self.exists():
            if missing_ok:
                return
            raise FileNotFoundError(str(self))
        unlink(self)


class OsPath:
    """os.path: names of the virtual file system, everything else as it is."""

    def __getattr__(self, n):
        return getattr(_os.path, n)

    @staticmethod
    def exists(p):
        v = _virtual(p)
        return _os.path.exists(p) if v is None else core.ENG.vfs[v] is not None

    isfile = exists

    @staticmethod
    def getsize(p):
        v = _virtual(p)
        if v is None:
            return _os.path.getsize(p)
        if core.ENG.vfs[v] is None:
            raise FileNotFoundError(p)
        return len(core.ENG.vfs[v])


def unlink(p, **k):
    v = _virtual(p)
    if v is None or core.ENG.vfs[v] is None:
        raise FileNotFoundError(str(p))
    core.ENG.vfs[v] = None


def os_open(p, flags, *a, **k):
    v = _virtual(p)
    if v is None or core.ENG.vfs[v] is None:
        raise FileNotFoundError(str(p))
    if flags & (_os.O_RDWR | _os.O_WRONLY):
        raise Unsupported("os.open for writing")
    return VFd(v)


def make_os():
    m = _types.ModuleType("os")
    for k in dir(_os):
        if not k.startswith("__"):
            setattr(m, k, getattr(_os, k))
    m.path = OsPath()
    m.open = os_open
    m.unlink = m.remove = unlink
    m.close = lambda fd: None
    m.stat = m.rename = m.replace = _unsupported
    return m


def _unsupported(*a, **k):
    raise Unsupported("file system operation")


def make_mmap():
    import mmap as _mmap

    m = _types.ModuleType("mmap")
    for k in dir(_mmap):
        if not k.startswith("__"):
            setattr(m, k, getattr(_mmap, k))

    def mm(fd, size, *a, access=None, **k):
        if access not in (None, _mmap.ACCESS_READ):
            raise Unsupported("writable memory map")
        els = core.ENG.vfs[fd.path]
        if not els:
            raise ValueError("cannot mmap an empty file")
        if size and size > len(els):
            raise ValueError("mmap length is greater than file size")
        return SBytes(list(els[: size or len(els)]))

    m.mmap = mm
    return m


def make_pathlib():
    m = _types.ModuleType("pathlib")
    for k in dir(_pathlib):
        if not k.startswith("__"):
            setattr(m, k, getattr(_pathlib, k))
    m.Path = VPath
    return m


def modules():
    out = make_modules()
    out.update({"os": make_os(), "os.path": OsPath(), "mmap": make_mmap(), "pathlib": make_pathlib()})
    return out

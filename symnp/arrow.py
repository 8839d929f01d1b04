"""A stand-in for pyarrow over the symbolic numpy: arrays as the Arrow columnar format lays them out (validity bits, offsets,
data, children, physical offsets of slices), with as much of pyarrow's interface as the code under test needs."""
import sys
import types
import numpy as np
from . import nd

class ArrowInvalid(ValueError):
    pass

class ArrowNotImplementedError(NotImplementedError, ArrowInvalid):
    pass

# ---- types

class DataType(object):
    num_buffers = 2
    num_fields = 0
    def _key(self):
        return (type(self).__name__,)
    def __eq__(self, other):
        return isinstance(other, DataType) and self._key() == other._key()
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self._key())
    def to_pandas_dtype(self):
        raise NotImplementedError(repr(self))
    def __repr__(self):
        return "DataType%r" % (self._key(),)

class Primitive(DataType):
    def __init__(self, dtype):
        self.dtype = np.dtype(dtype)
    def _key(self):
        return ("primitive", str(self.dtype))
    def to_pandas_dtype(self):
        return self.dtype.type

class Bool(DataType):
    def to_pandas_dtype(self):
        return np.bool_

class Date32(DataType):
    def to_pandas_dtype(self):
        return np.dtype("M8[ms]").type

class Null(DataType):
    num_buffers = 1

class Text(DataType):
    """strings and bytes with offsets of 32 or 64 bits"""
    num_buffers = 3
    def __init__(self, kind, index):
        self.kind, self.index = kind, np.dtype(index)
    def _key(self):
        return ("text", self.kind, str(self.index))

class Field(object):
    def __init__(self, name, type, nullable=True):
        self.name, self.type, self.nullable = name, type, nullable
    def _key(self):
        return (self.name, self.type._key(), self.nullable)

class Nested(DataType):
    def __init__(self, fields):
        self.fields = list(fields)
        self.num_fields = len(self.fields)
    def _key(self):
        return (type(self).__name__, tuple(f._key() for f in self.fields))
    def __getitem__(self, i):
        return self.field(i)
    def field(self, i):
        if isinstance(i, str):
            return [f for f in self.fields if f.name == i][0]
        return self.fields[i]
    def __iter__(self):
        return iter(self.fields)
    def __len__(self):
        return len(self.fields)

class ListType(Nested):
    index = np.dtype("int32")
    def __init__(self, value_type):
        Nested.__init__(self, [Field("item", value_type)])
    value_type = property(lambda self: self.fields[0].type)
    value_field = property(lambda self: self.fields[0])

class LargeListType(ListType):
    index = np.dtype("int64")

def _plainlist(tpe):
    return isinstance(tpe, ListType)

class StructType(Nested):
    num_buffers = 1

class UnionType(Nested):
    def __init__(self, mode, fields, type_codes=None):
        Nested.__init__(self, fields)
        self.mode = mode
        self.num_buffers = 2 if mode == "sparse" else 3
        self.type_codes = list(range(len(self.fields))) if type_codes is None else list(type_codes)
    def _key(self):
        return Nested._key(self) + (self.mode, tuple(self.type_codes))

class DictionaryType(DataType):
    def __init__(self, index_type, value_type):
        self.index_type, self.value_type = index_type, value_type
    def _key(self):
        return ("dictionary", self.index_type._key(), self.value_type._key())

# LargeListType is no ListType in pyarrow
class _ListMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is ListType

class ListTypeOnly(metaclass=_ListMeta):
    pass

# ---- arrays

def bits(buf, start, n):
    """n bits of a bitmap, least significant first"""
    if n == 0:
        return nd.zeros(0, dtype=np.bool_)
    return nd.unpackbits(_data(buf, np.uint8)).reshape(-1, 8)[:, ::-1].reshape(-1)[start:start + n].astype(np.bool_)

def pack(flags):
    flags = nd.array(flags, dtype=np.bool_)
    n = -(-len(flags) // 8) * 8
    full = nd.zeros(n, dtype=np.bool_)
    full[:len(flags)] = flags
    return py_buffer(nd.packbits(full.reshape(-1, 8)[:, ::-1].reshape(-1)))

def py_buffer(x):
    if isinstance(x, nd.SymBuffer):
        return x
    if isinstance(x, (bytes, bytearray)):
        x = nd.array(list(x), dtype=np.uint8)
    return nd.SymBuffer(nd.ascontiguousarray(x))

def _data(buf, dtype):
    return nd.frombuffer(buf, dtype=dtype)

def _true(x):
    return bool(x)

class Array(object):
    def __init__(self, type, length, bufs, offset=0, children=(), dictionary=None):
        self.type, self._n, self._bufs, self.offset, self._children, self.dictionary = type, length, list(bufs), offset, list(children), dictionary

    @staticmethod
    def from_buffers(type, length, buffers, null_count=-1, offset=0, children=None):
        return _make(type, length, buffers, offset, children or ())

    def __len__(self):
        return self._n

    def buffers(self):
        out = list(self._bufs)
        for x in self._children:
            out.extend(x.buffers())
        return out

    def slice(self, offset=0, length=None):
        offset = min(offset, self._n)
        n = self._n - offset if length is None else min(length, self._n - offset)
        return type(self)(self.type, n, self._bufs, self.offset + offset, self._children, self.dictionary)

    def __getitem__(self, i):
        if isinstance(i, slice):
            start, stop, step = i.indices(self._n)
            assert step == 1
            return self.slice(start, max(0, stop - start))
        raise NotImplementedError("scalars")

    def _valid(self):
        if isinstance(self.type, UnionType) or self._bufs[0] is None:
            return [True] * self._n
        return bits(self._bufs[0], self.offset, self._n).tolist()

    def to_pylist(self):
        return [self._value(i) if _true(v) else None for i, v in enumerate(self._valid())]

    def _value(self, i):
        t, at = self.type, self.offset + i
        if isinstance(t, Null):
            return None
        if isinstance(t, Primitive):
            return _data(self._bufs[1], t.dtype)[at]
        if isinstance(t, Bool):
            return bits(self._bufs[1], at, 1)[0]
        if isinstance(t, Text):
            off = _data(self._bufs[1], t.index)
            cells = _data(self._bufs[2], np.uint8)[int(off[at]):int(off[at + 1])]
            return nd.SymBuffer(cells) if t.kind == "binary" else nd.symtext(cells, "utf-8")
        raise NotImplementedError(repr(t))

class ListArray(Array):
    def _offsets(self):
        return _data(self._bufs[1], self.type.index)
    @property
    def values(self):
        return self._children[0]
    @property
    def offsets(self):
        return array(self._offsets()[self.offset:self.offset + self._n + 1])
    def _value(self, i):
        off = self._offsets()
        a, b = int(off[self.offset + i]), int(off[self.offset + i + 1])
        return self._children[0].slice(a, b - a).to_pylist()
    def flatten(self):
        off = self._offsets()
        parts = [self._children[0].slice(int(off[self.offset + i]), int(off[self.offset + i + 1]) - int(off[self.offset + i])) for i, v in enumerate(self._valid()) if _true(v)]
        return concat_arrays(parts) if parts else self._children[0].slice(0, 0)
    @classmethod
    def from_arrays(cls, offsets, values, type=None, pool=None, mask=None):
        t = (LargeListType if cls is LargeListArray else ListType)(values.type)
        off = offsets if isinstance(offsets, nd.ndarray) else _data(offsets._bufs[1], offsets.type.dtype)[offsets.offset:offsets.offset + len(offsets)]
        off = off.astype(t.index)
        if len(off) and (_true(off[0] < 0) or _true(off[0] > len(values)) or _true(off[-1] < 0) or _true(off[-1] > len(values))):
            raise ArrowInvalid("First or last list offset out of bounds")
        if len(off) == 0:
            raise ArrowInvalid("List offsets must have non-zero length")
        return _make(t, len(off) - 1, [None if mask is None else pack(nd.logical_not(nd.array(mask, dtype=np.bool_))), py_buffer(off)], 0, [values])

class LargeListArray(ListArray):
    pass

class StructArray(Array):
    def field(self, i):
        if isinstance(i, str):
            i = [f.name for f in self.type.fields].index(i)
        return self._children[i].slice(self.offset, self._n)
    def _value(self, i):
        return dict((f.name, c.slice(self.offset + i, 1).to_pylist()[0]) for f, c in zip(self.type.fields, self._children))
    @classmethod
    def from_arrays(cls, arrays, names=None, fields=None, mask=None, memory_pool=None):
        arrays = list(arrays)
        n = len(arrays[0]) if arrays else 0
        for x in arrays:
            if len(x) != n:
                raise ArrowInvalid("Mismatching child array lengths")
        return _make(StructType([Field(m, x.type) for m, x in zip(names, arrays)]), n, [None if mask is None else pack(~nd.array(mask))], 0, arrays)

class UnionArray(Array):
    def field(self, i):
        return self._children[i].slice(self.offset, self._n) if self.type.mode == "sparse" else self._children[i]
    def _value(self, i):
        code = int(_data(self._bufs[1], np.int8)[self.offset + i])
        c = self._children[self.type.type_codes.index(code)]
        at = self.offset + i if self.type.mode == "sparse" else int(_data(self._bufs[2], np.int32)[self.offset + i])
        return c.slice(at, 1).to_pylist()[0]
    @staticmethod
    def _fields(children, names):
        return [Field(str(i) if names is None else names[i], x.type) for i, x in enumerate(children)]
    @classmethod
    def from_dense(cls, types, value_offsets, children, field_names=None, type_codes=None):
        t = UnionType("dense", cls._fields(children, field_names), type_codes)
        return _make(t, len(types), [None, types._flat(), value_offsets._flat()], 0, children)
    @classmethod
    def from_sparse(cls, types, children, field_names=None, type_codes=None):
        t = UnionType("sparse", cls._fields(children, field_names), type_codes)
        return _make(t, len(types), [None, types._flat()], 0, children)

class PrimitiveArray(Array):
    def _flat(self):
        return py_buffer(_data(self._bufs[1], self.type.dtype)[self.offset:self.offset + self._n])

class BooleanArray(Array):
    pass

class StringArray(Array):
    @staticmethod
    def from_buffers(length, value_offsets, data, null_bitmap=None, null_count=-1, offset=0):
        return _make(string(), length, [null_bitmap, value_offsets, data], offset, ())

class LargeStringArray(Array):
    @staticmethod
    def from_buffers(length, value_offsets, data, null_bitmap=None, null_count=-1, offset=0):
        return _make(large_string(), length, [null_bitmap, value_offsets, data], offset, ())

class BinaryArray(Array):
    pass

class LargeBinaryArray(Array):
    pass

class NullArray(Array):
    pass

class DictionaryArray(Array):
    @property
    def indices(self):
        return _make(self.type.index_type, self._n, self._bufs, self.offset, ())
    @classmethod
    def from_arrays(cls, indices, dictionary, mask=None, ordered=False, from_pandas=False, safe=True, memory_pool=None):
        if isinstance(indices, nd.ndarray):
            indices = array(indices, mask=mask)
        if isinstance(dictionary, nd.ndarray):
            dictionary = array(dictionary)
        if not isinstance(indices.type, Primitive) or indices.type.dtype.kind not in "iu":
            raise ArrowInvalid("dictionary indices must be integers")
        n = len(dictionary)
        for i, v in zip(_data(indices._bufs[1], indices.type.dtype)[indices.offset:indices.offset + len(indices)].tolist(), indices._valid()):
            if _true(v) and not (_true(i >= 0) and _true(i < n)):
                raise IndexError("index out of bounds")
        return cls(DictionaryType(indices.type, dictionary.type), len(indices), indices._bufs, indices.offset, (), dictionary)
    def _value(self, i):
        return self.dictionary.slice(int(_data(self._bufs[1], self.type.index_type.dtype)[self.offset + i]), 1).to_pylist()[0]

def _make(t, length, bufs, offset, children, dictionary=None):
    cls = {Primitive: PrimitiveArray, Bool: BooleanArray, ListType: ListArray, LargeListType: LargeListArray, StructType: StructArray,
           UnionType: UnionArray, DictionaryType: DictionaryArray, Null: NullArray, Date32: Array}.get(type(t))
    if cls is None:
        cls = {("string", 4): StringArray, ("string", 8): LargeStringArray, ("binary", 4): BinaryArray, ("binary", 8): LargeBinaryArray}[t.kind, t.index.itemsize]
    return cls(t, length, bufs, offset, children, dictionary)

def array(obj, type=None, mask=None, size=None, from_pandas=None, safe=True, memory_pool=None):
    if not isinstance(obj, nd.ndarray):
        obj = nd.array(obj)
    if obj.ndim != 1:
        raise ArrowInvalid("only handle 1-dimensional arrays")
    if mask is not None:
        mask = nd.array(mask)
        if len(mask) != len(obj):
            raise ValueError("Mask is a different length from sequence being converted")
        if mask.dtype != np.dtype(bool):
            raise TypeError("Mask must be boolean dtype")
    valid = None if mask is None else pack(~mask)
    dt = obj.dtype
    if not dt.isnative:
        raise ArrowNotImplementedError("Byte-swapped arrays not supported")
    if dt == np.dtype(bool):
        return _make(bool_(), len(obj), [valid, pack(obj)], 0, ())
    if dt.kind in "iuf":
        return _make(Primitive(dt), len(obj), [valid, py_buffer(obj.copy())], 0, ())
    raise ArrowNotImplementedError("Unsupported numpy type %s" % dt)

def concat_arrays(arrays, memory_pool=None):
    """a fresh array without offsets"""
    arrays = list(arrays)
    t, n = arrays[0].type, sum(len(x) for x in arrays)
    if isinstance(t, UnionType) or all(x._bufs[0] is None for x in arrays):
        valid = None
    else:
        valid = pack([v for x in arrays for v in x._valid()])
    def join(k, dtype):
        parts = [_data(x._bufs[k], dtype)[x.offset:x.offset + len(x)] for x in arrays]
        return parts[0] if len(parts) == 1 else nd.concatenate(parts)
    if isinstance(t, Primitive):
        return _make(t, n, [valid, py_buffer(join(1, t.dtype).copy())], 0, ())
    if isinstance(t, Bool):
        return _make(t, n, [valid, pack([v for x in arrays for v in bits(x._bufs[1], x.offset, len(x)).tolist()])], 0, ())
    if isinstance(t, (Text, ListType)):
        offs, parts, at = [0], [], 0
        for x in arrays:
            o = [int(y) for y in _data(x._bufs[1], t.index)[x.offset:x.offset + len(x) + 1].tolist()]
            offs += [at + y - o[0] for y in o[1:]]
            at = offs[-1]
            parts.append((x, o[0], o[-1]))
        offs = py_buffer(nd.array(offs, dtype=t.index))
        if isinstance(t, Text):
            data = [_data(x._bufs[2], np.uint8)[a:b] for x, a, b in parts]
            return _make(t, n, [valid, offs, py_buffer((data[0] if len(data) == 1 else nd.concatenate(data)).copy())], 0, ())
        return _make(t, n, [valid, offs], 0, [concat_arrays([x._children[0].slice(a, b - a) for x, a, b in parts])])
    if isinstance(t, StructType) or (isinstance(t, UnionType) and t.mode == "sparse"):
        own = [valid] if isinstance(t, StructType) else [None, py_buffer(join(1, np.int8).copy())]
        return _make(t, n, own, 0, [concat_arrays([x._children[i].slice(x.offset, len(x)) for x in arrays]) for i in range(t.num_fields)])
    if isinstance(t, DictionaryType) and all(x.dictionary is arrays[0].dictionary for x in arrays):
        return _make(t, n, [valid, py_buffer(join(1, t.index_type.dtype).copy())], 0, (), arrays[0].dictionary)
    if isinstance(t, UnionType):
        tags = [_data(x._bufs[1], np.int8)[x.offset:x.offset + len(x)].tolist() for x in arrays]
        at, before = [], dict((c, 0) for c in t.type_codes)
        for x, ts in zip(arrays, tags):
            for c, i in zip(ts, _data(x._bufs[2], np.int32)[x.offset:x.offset + len(x)].tolist()):
                at.append(i + before[int(c)])
            for c, y in zip(t.type_codes, x._children):
                before[c] += len(y)
        return _make(t, n, [None, py_buffer(nd.array([c for ts in tags for c in ts], dtype=np.int8)), py_buffer(nd.array(at, dtype=np.int32))], 0,
                     [concat_arrays([x._children[i] for x in arrays]) for i in range(t.num_fields)])
    raise ArrowNotImplementedError("concatenation of %r" % t)

# ---- tables

class Schema(object):
    def __init__(self, names, types):
        self.names, self.types = list(names), list(types)
    def field(self, n):
        return Field(n, self.types[self.names.index(n)])

class ChunkedArray(object):
    def __init__(self, chunks, type=None):
        self.chunks = list(chunks)
        self.type = self.chunks[0].type if type is None else type
    num_chunks = property(lambda self: len(self.chunks))
    def __len__(self):
        return sum(len(x) for x in self.chunks)
    def chunk(self, i):
        return self.chunks[i]
    def iterchunks(self):
        return iter(self.chunks)
    def to_pylist(self):
        return [y for x in self.chunks for y in x.to_pylist()]
    def slice(self, offset=0, length=None):
        left = len(self) - offset if length is None else length
        out = []
        for x in self.chunks:
            y = x.slice(offset, left) if offset < len(x) else x.slice(len(x), 0)
            offset = max(0, offset - len(x))
            left -= len(y)
            if len(y):
                out.append(y)
        return ChunkedArray(out or [self.chunks[0].slice(0, 0)], self.type)
    def __getitem__(self, i):
        start, stop, step = i.indices(len(self))
        return self.slice(start, max(0, stop - start))

def chunked_array(arrays, type=None):
    return ChunkedArray(arrays, type)

class RecordBatch(object):
    def __init__(self, names, columns):
        columns = list(columns)
        if len(names) != len(columns) or len(set(len(x) for x in columns)) > 1:
            raise ArrowInvalid("columns have different lengths")
        self.columns, self.schema = columns, Schema(names, [x.type for x in columns])
        self.num_rows = len(columns[0]) if columns else 0
    @classmethod
    def from_arrays(cls, arrays, names=None):
        return cls(names, arrays)
    def __len__(self):
        return self.num_rows
    def slice(self, offset=0, length=None):
        return RecordBatch(self.schema.names, [x.slice(offset, length) for x in self.columns])
    def to_pylist(self):
        cols = [x.to_pylist() for x in self.columns]
        return [dict((n, c[i]) for n, c in zip(self.schema.names, cols)) for i in range(self.num_rows)]

class Table(object):
    def __init__(self, names, columns):
        columns = list(columns)
        if len(set(len(x) for x in columns)) > 1:
            raise ArrowInvalid("columns have different lengths")
        self.columns, self.schema = columns, Schema(names, [x.type for x in columns])
    @classmethod
    def from_batches(cls, batches, schema=None):
        batches = list(batches)
        if not batches:
            raise ValueError("Must pass schema, or at least one RecordBatch")
        first = batches[0].schema
        for b in batches:
            if b.schema.names != first.names or b.schema.types != first.types:
                raise ArrowInvalid("Schema at index was different")
        return cls(first.names, [ChunkedArray([b.columns[i] for b in batches]) for i in range(len(first.names))])
    @classmethod
    def from_arrays(cls, arrays, names=None):
        return cls(names, [x if isinstance(x, ChunkedArray) else ChunkedArray([x]) for x in arrays])
    def __len__(self):
        return len(self.columns[0]) if self.columns else 0
    num_rows = property(__len__)
    def slice(self, offset=0, length=None):
        return Table(self.schema.names, [x.slice(offset, length) for x in self.columns])
    def to_batches(self):
        cuts = set([0, len(self)])
        for c in self.columns:
            at = 0
            for x in c.chunks:
                at += len(x)
                cuts.add(at)
        cuts = sorted(cuts)
        return [RecordBatch(self.schema.names, [c.slice(a, b - a).chunks[0] for c in self.columns]) for a, b in zip(cuts[:-1], cuts[1:])]
    def to_pylist(self):
        cols = [x.to_pylist() for x in self.columns]
        return [dict((n, c[i]) for n, c in zip(self.schema.names, cols)) for i in range(len(self))]

# ---- Parquet files: the row groups of tables, as they come back

FILES = {}

def _stored(t):
    """the type with which a type comes back"""
    if isinstance(t, DictionaryType):
        if isinstance(t.value_type, Nested):
            raise ArrowNotImplementedError("Writing DictionaryArray with nested dictionary type not yet supported")
        return DictionaryType(Primitive("int32"), t.value_type) if isinstance(t.value_type, Text) else t.value_type
    if isinstance(t, UnionType) or t == Primitive("float16"):
        raise ArrowNotImplementedError("Unhandled type for Arrow to Parquet schema conversion: %r" % t)
    if isinstance(t, StructType):
        return StructType([Field(f.name, _stored(f.type)) for f in t.fields])
    if isinstance(t, ListType):
        return type(t)(_stored(t.value_type))
    return t

def _store(x):
    """the values with the missing ones as the format has them: nothing under missing lists, zeros elsewhere"""
    t, valid = x.type, x._valid()
    mask = None if all(v is True for v in valid) else pack(valid)
    if isinstance(t, DictionaryType):
        items = x.indices
        index = nd.array([i if _true(v) else 0 for i, v in zip(_data(items._bufs[1], t.index_type.dtype)[items.offset:items.offset + len(x)].tolist(), valid)], dtype=np.int32)
        out = _make(Primitive("int32"), len(x), [mask, py_buffer(index)], 0, ())
        words = x.dictionary
        if not all(_true(v) for v in words._valid()):
            raise ArrowNotImplementedError("Writing DictionaryArray with null encoded in dictionary type not yet supported")
        if isinstance(t.value_type, Text):
            return _make(_stored(t), len(x), out._bufs, 0, (), words)
        if len(words) == 0:
            return concat_arrays([words.slice(0, 0)])
        got = concat_arrays([words.slice(int(i), 1) for i in index.tolist()] or [words.slice(0, 0)])
        both = [_true(a) and _true(b) for a, b in zip(valid, got._valid())]
        return _make(t.value_type, len(x), [pack(both)] + got._bufs[1:], 0, ())
    if isinstance(t, ListType):
        keep = [x.slice(i, 1) for i, v in enumerate(valid) if _true(v)]
        off = [0]
        for i, v in enumerate(valid):
            o = x._offsets()
            off.append(off[-1] + (int(o[x.offset + i + 1]) - int(o[x.offset + i]) if _true(v) else 0))
        return _make(_stored(t), len(x), [mask, py_buffer(nd.array(off, dtype=t.index))], 0, [_store(x.flatten() if keep else x._children[0].slice(0, 0))])
    if isinstance(t, StructType):
        return _make(_stored(t), len(x), [mask], 0, [_store(c.slice(x.offset, len(x))) for c in x._children])
    return concat_arrays([x])

class ParquetWriter(object):
    def __init__(self, where, schema, **options):
        self.where, self.schema = where, schema
        types = [_stored(t) for t in schema.types]
        self.groups = []
        self.open = True
        FILES[where] = None
        self.result = Schema(schema.names, types), self.groups
    def write_table(self, table, row_group_size=None):
        if not self.open:
            raise AssertionError("closed")
        if table.schema.names != self.schema.names or table.schema.types != self.schema.types:
            raise ValueError("Table schema does not match schema used to create file")
        self.groups.append(([_store(concat_arrays(c.chunks)) for c in table.columns], len(table)))
    def close(self):
        if self.open:
            self.open = False
            FILES[self.where] = self.result
    def __enter__(self):
        return self
    def __exit__(self, *args):
        self.close()

class _Rows(object):
    def __init__(self, num_rows):
        self.num_rows = num_rows

class _ParquetSchema(object):
    def __init__(self, schema):
        self._schema = schema
    def to_arrow_schema(self):
        return self._schema

class ParquetFile(object):
    def __init__(self, source, metadata=None, common_metadata=None):
        if FILES.get(source) is None:
            raise ArrowInvalid("no Parquet file %r" % (source,))
        self._names, self._groups = FILES[source]
        self.schema = _ParquetSchema(self._names)
        self.num_row_groups = len(self._groups)
        self.metadata = self
    def row_group(self, i):
        return _Rows(self._groups[i][1])
    def read_row_group(self, i, columns=None):
        columns_, n = self._groups[i]
        keep = [k for k, name in enumerate(self._names.names) if columns is None or any(name == c or name.startswith(c + ".") for c in columns)]
        return Table([self._names.names[k] for k in keep], [ChunkedArray([columns_[k].slice(0)], self._names.types[k]) for k in keep])

def write_table(table, where, **options):
    with ParquetWriter(where, table.schema) as w:
        w.write_table(table)

# ---- the module

string = lambda: Text("string", "int32")
large_string = lambda: Text("string", "int64")
binary = lambda: Text("binary", "int32")
large_binary = lambda: Text("binary", "int64")
bool_ = lambda: Bool()
date32 = lambda: Date32()
null = lambda: Null()

def build():
    pa, lib = types.ModuleType("pyarrow"), types.ModuleType("pyarrow.lib")
    for n in ("Array", "ChunkedArray", "RecordBatch", "Table", "DataType", "LargeListType", "StructType", "UnionType", "DictionaryType", "ArrowInvalid",
              "ArrowNotImplementedError", "ListArray", "LargeListArray", "StructArray", "UnionArray", "StringArray", "LargeStringArray", "BinaryArray",
              "LargeBinaryArray", "DictionaryArray", "BooleanArray", "Schema", "Field"):
        setattr(pa, n, globals()[n])
        setattr(lib, n, globals()[n])
    pa.ListType = lib.ListType = ListTypeOnly
    for n in ("string", "large_string", "binary", "large_binary", "bool_", "date32", "null", "array", "concat_arrays", "chunked_array", "py_buffer"):
        setattr(pa, n, globals()[n])
    pa.utf8, pa.large_utf8, pa.asarray = string, large_string, array
    for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64"):
        setattr(pa, n, lambda n=n: Primitive(n))
    pa.list_ = lambda t, size=-1: ListType(t)
    pa.large_list = lambda t: LargeListType(t)
    pa.field = lambda name, type, nullable=True: Field(name, type, nullable)
    mk = lambda fs: [f if isinstance(f, Field) else Field(*f) for f in fs]
    pa.struct = lambda fs: StructType(mk(fs.items() if isinstance(fs, dict) else fs))
    pa.dictionary = lambda i, v, ordered=False: DictionaryType(i, v)
    pa.sparse_union = lambda fs, type_codes=None: UnionType("sparse", mk(fs), type_codes)
    pa.dense_union = lambda fs, type_codes=None: UnionType("dense", mk(fs), type_codes)
    pa.lib = lib
    pq = types.ModuleType("pyarrow.parquet")
    pq.FILES = FILES
    pq.ParquetWriter, pq.ParquetFile, pq.write_table = ParquetWriter, ParquetFile, write_table
    pa.parquet = pq
    pa.__version__ = "14.0.2"
    return pa, lib, pq

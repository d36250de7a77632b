"""Minimal HDF5 access through ctypes, independent of vvflow's own I/O code.

read(path) -> H5 node tree: Group(attrs, children) / Dataset(attrs, data).
Attribute values: numbers (int/float), str, tuples for compounds (in member
order), lists for arrays.
edit(path, fn) gives low-level write helpers used to craft hostile files.
"""
import ctypes as C
import ctypes.util
import numpy as np

_lib = None
hid_t = C.c_int64
hsize_t = C.c_uint64


def lib():
    global _lib
    if _lib is None:
        for n in ("libhdf5_serial.so.103", "libhdf5_serial.so", "libhdf5.so"):
            try:
                _lib = C.CDLL(n)
                break
            except OSError:
                pass
        if _lib is None:
            raise RuntimeError("no libhdf5")
        for f in ("H5Fopen H5Fcreate H5Oopen H5Dopen2 H5Gopen2 H5Aopen_by_idx H5Aget_type H5Aget_space "
                  "H5Dget_type H5Dget_space H5Tget_native_type H5Tget_member_type H5Tget_super "
                  "H5Screate_simple H5Screate H5Acreate2 H5Dcreate2 H5Tcopy H5Tcreate H5Aopen H5Pcreate "
                  "H5Gcreate2 H5Dget_create_plist H5Tget_native_type").split():
            getattr(_lib, f).restype = hid_t
        _lib.H5Tget_size.restype = C.c_size_t
        _lib.H5Tget_member_offset.restype = C.c_size_t
        _lib.H5Aget_name.restype = C.c_ssize_t
        _lib.H5Lget_name_by_idx.restype = C.c_ssize_t
        _lib.H5Tget_member_name.restype = C.c_void_p
        _lib.H5open()
        _lib.H5Eset_auto2(hid_t(0), None, None)
    return _lib


def g(name):
    lib()
    return C.c_int64.in_dll(_lib, name).value


class H5Error(Exception):
    pass


class Node:
    def __init__(self):
        self.attrs = {}
        self.attr_types = {}


class Group(Node):
    def __init__(self):
        super().__init__()
        self.children = {}

    def __getitem__(self, k):
        n = self
        for p in k.split("/"):
            if p:
                n = n.children[p]
        return n

    def __contains__(self, k):
        try:
            self[k]
            return True
        except (KeyError, AttributeError):
            return False


class Dataset(Node):
    def __init__(self):
        super().__init__()
        self.data = None
        self.dtype = None


class NamedType(Node):
    pass


_INT, _FLT, _TIME, _STR, _BITF, _OPQ, _CMP, _REF, _ENUM, _VLEN, _ARR = range(11)


def _np_dtype(tid):
    L = lib()
    cls = L.H5Tget_class(hid_t(tid))
    size = L.H5Tget_size(hid_t(tid))
    if cls == _INT:
        sg = L.H5Tget_sign(hid_t(tid))
        return np.dtype(("i" if sg else "u") + str(size))
    if cls == _FLT:
        return np.dtype("f" + str(size))
    if cls == _ENUM:
        sup = L.H5Tget_super(hid_t(tid))
        return _np_dtype(sup)
    if cls == _STR:
        if L.H5Tis_variable_str(hid_t(tid)) > 0:
            return "vstr"
        return np.dtype("S" + str(size))
    if cls == _CMP:
        n = L.H5Tget_nmembers(hid_t(tid))
        names, fmts, offs = [], [], []
        for i in range(n):
            p = L.H5Tget_member_name(hid_t(tid), C.c_uint(i))
            names.append(C.string_at(p).decode())
            L.H5free_memory(C.c_void_p(p))
            mt = L.H5Tget_member_type(hid_t(tid), C.c_uint(i))
            fmts.append(_np_dtype(mt))
            offs.append(L.H5Tget_member_offset(hid_t(tid), C.c_uint(i)))
        return np.dtype({"names": names, "formats": fmts, "offsets": offs, "itemsize": size})
    raise H5Error("unsupported type class %d" % cls)


def _dims(sid):
    L = lib()
    nd = L.H5Sget_simple_extent_ndims(hid_t(sid))
    if nd < 0:
        raise H5Error("dims")
    d = (hsize_t * max(nd, 1))()
    L.H5Sget_simple_extent_dims(hid_t(sid), d, None)
    return tuple(int(d[i]) for i in range(nd))


def _read_attrs(oid, node):
    L = lib()
    i = 0
    while True:
        aid = L.H5Aopen_by_idx(hid_t(oid), b".", 0, 0, hsize_t(i), hid_t(0), hid_t(0))
        if aid < 0:
            break
        i += 1
        n = L.H5Aget_name(hid_t(aid), C.c_size_t(0), None)
        buf = C.create_string_buffer(n + 1)
        L.H5Aget_name(hid_t(aid), C.c_size_t(n + 1), buf)
        name = buf.value.decode()
        tid = L.H5Aget_type(hid_t(aid))
        nt = L.H5Tget_native_type(hid_t(tid), 0)
        sid = L.H5Aget_space(hid_t(aid))
        dims = _dims(sid)
        dt = _np_dtype(nt)
        cnt = int(np.prod(dims)) if dims else 1
        if dt == "vstr":
            arr = (C.c_char_p * max(cnt, 1))()
            if L.H5Aread(hid_t(aid), hid_t(nt), arr) < 0:
                raise H5Error("attr " + name)
            vals = [(v or b"").decode("utf8", "surrogateescape") for v in arr]
            val = vals if dims else vals[0]
        else:
            a = np.zeros(dims if dims else (1,), dt)
            if L.H5Aread(hid_t(aid), hid_t(nt), a.ctypes.data_as(C.c_void_p)) < 0:
                raise H5Error("attr " + name)
            if dims:
                val = a
            elif dt.names:
                val = tuple(a[0].item()) if not isinstance(a[0].item(), tuple) else a[0].item()
            else:
                val = a[0].item()
        node.attrs[name] = val
        node.attr_types[name] = dt if isinstance(dt, str) else dt.str if not dt.names else tuple(dt.names)
        L.H5Sclose(hid_t(sid)); L.H5Tclose(hid_t(tid)); L.H5Tclose(hid_t(nt)); L.H5Aclose(hid_t(aid))


def _read_obj(oid):
    L = lib()
    t = L.H5Iget_type(hid_t(oid))
    if t in (2, 1):  # group / file
        node = Group()
        i = 0
        while True:
            n = L.H5Lget_name_by_idx(hid_t(oid), b".", 0, 0, hsize_t(i), None, C.c_size_t(0), hid_t(0))
            if n < 0:
                break
            buf = C.create_string_buffer(n + 1)
            L.H5Lget_name_by_idx(hid_t(oid), b".", 0, 0, hsize_t(i), buf, C.c_size_t(n + 1), hid_t(0))
            i += 1
            cid = L.H5Oopen(hid_t(oid), buf.value, hid_t(0))
            if cid < 0:
                raise H5Error("open " + buf.value.decode())
            node.children[buf.value.decode()] = _read_obj(cid)
            L.H5Oclose(hid_t(cid))
    elif t == 5:
        node = Dataset()
        tid = L.H5Dget_type(hid_t(oid))
        nt = L.H5Tget_native_type(hid_t(tid), 0)
        sid = L.H5Dget_space(hid_t(oid))
        dt = _np_dtype(nt)
        a = np.zeros(_dims(sid), dt)
        if a.size and L.H5Dread(hid_t(oid), hid_t(nt), hid_t(0), hid_t(0), hid_t(0), a.ctypes.data_as(C.c_void_p)) < 0:
            raise H5Error("dataset read")
        node.data = a
        node.dtype = dt
        L.H5Sclose(hid_t(sid)); L.H5Tclose(hid_t(tid)); L.H5Tclose(hid_t(nt))
    else:
        node = NamedType()
        return node
    _read_attrs(oid, node)
    return node


def read(path):
    L = lib()
    if not L.H5Fis_hdf5(str(path).encode()) > 0:
        raise H5Error("not hdf5: %s" % path)
    fid = L.H5Fopen(str(path).encode(), C.c_uint(0), hid_t(0))
    if fid < 0:
        raise H5Error("cannot open %s" % path)
    try:
        gid = L.H5Gopen2(hid_t(fid), b"/", hid_t(0))
        node = _read_obj(gid)
        L.H5Gclose(hid_t(gid))
        return node
    finally:
        L.H5Fclose(hid_t(fid))


class Editor:
    """Write helpers used to craft files (valid and hostile)."""

    def __init__(self, path, create=False):
        L = lib()
        if create:
            self.fid = L.H5Fcreate(str(path).encode(), C.c_uint(2), hid_t(0), hid_t(0))
        else:
            self.fid = L.H5Fopen(str(path).encode(), C.c_uint(1), hid_t(0))
        if self.fid < 0:
            raise H5Error("open for edit %s" % path)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        lib().H5Fclose(hid_t(self.fid))

    def _obj(self, obj):
        o = lib().H5Oopen(hid_t(self.fid), obj.encode(), hid_t(0))
        if o < 0:
            raise H5Error("no object " + obj)
        return o

    def del_attr(self, obj, name):
        o = self._obj(obj)
        lib().H5Adelete(hid_t(o), name.encode())
        lib().H5Oclose(hid_t(o))

    def unlink(self, name):
        lib().H5Ldelete(hid_t(self.fid), name.encode(), hid_t(0))

    @staticmethod
    def _npid(dt):
        dt = np.dtype(dt)
        m = {"f8": "H5T_NATIVE_DOUBLE_g", "f4": "H5T_NATIVE_FLOAT_g", "i4": "H5T_NATIVE_INT32_g",
             "u4": "H5T_NATIVE_UINT32_g", "i8": "H5T_NATIVE_INT64_g", "u1": "H5T_NATIVE_UINT8_g"}
        return g(m[dt.kind + str(dt.itemsize)])

    def _mktype(self, dt):
        L = lib()
        if dt == "vstr":
            t = L.H5Tcopy(hid_t(g("H5T_C_S1_g")))
            L.H5Tset_size(hid_t(t), C.c_size_t(2**64 - 1))
            return t
        dt = np.dtype(dt)
        if dt.names:
            t = L.H5Tcreate(C.c_int(_CMP), C.c_size_t(dt.itemsize))
            for n in dt.names:
                sub, off = dt.fields[n][:2]
                L.H5Tinsert(hid_t(t), n.encode(), C.c_size_t(off), hid_t(self._npid(sub)))
            return t
        return L.H5Tcopy(hid_t(self._npid(dt)))

    def set_attr(self, obj, name, value, dt):
        L = lib()
        o = self._obj(obj)
        if L.H5Aexists(hid_t(o), name.encode()) > 0:
            L.H5Adelete(hid_t(o), name.encode())
        t = self._mktype(dt)
        if dt == "vstr":
            s = L.H5Screate(C.c_int(0))
            a = L.H5Acreate2(hid_t(o), name.encode(), hid_t(t), hid_t(s), hid_t(0), hid_t(0))
            arr = (C.c_char_p * 1)(value.encode("utf8", "surrogateescape"))
            r = L.H5Awrite(hid_t(a), hid_t(t), arr)
        else:
            v = np.array(value, dtype=np.dtype(dt))
            if v.ndim == 0:
                s = L.H5Screate(C.c_int(0))
            else:
                d = (hsize_t * v.ndim)(*v.shape)
                s = L.H5Screate_simple(C.c_int(v.ndim), d, None)
            a = L.H5Acreate2(hid_t(o), name.encode(), hid_t(t), hid_t(s), hid_t(0), hid_t(0))
            r = L.H5Awrite(hid_t(a), hid_t(t), v.ctypes.data_as(C.c_void_p))
        if r < 0:
            raise H5Error("set_attr")
        L.H5Aclose(hid_t(a)); L.H5Sclose(hid_t(s)); L.H5Tclose(hid_t(t)); L.H5Oclose(hid_t(o))

    def set_dataset(self, name, arr):
        L = lib()
        if L.H5Lexists(hid_t(self.fid), name.encode(), hid_t(0)) > 0:
            self.unlink(name)
        arr = np.ascontiguousarray(arr)
        d = (hsize_t * max(arr.ndim, 1))(*arr.shape)
        s = L.H5Screate_simple(C.c_int(arr.ndim), d, None) if arr.ndim else L.H5Screate(C.c_int(0))
        t = self._mktype(arr.dtype)
        ds = L.H5Dcreate2(hid_t(self.fid), name.encode(), hid_t(t), hid_t(s), hid_t(0), hid_t(0), hid_t(0))
        if ds < 0:
            raise H5Error("create " + name)
        if arr.size:
            L.H5Dwrite(hid_t(ds), hid_t(t), hid_t(0), hid_t(0), hid_t(0), arr.ctypes.data_as(C.c_void_p))
        L.H5Dclose(hid_t(ds)); L.H5Sclose(hid_t(s)); L.H5Tclose(hid_t(t))

    def overwrite_dataset(self, name, arr):
        """Write into an existing dataset, keeping its attributes."""
        L = lib()
        ds = L.H5Dopen2(hid_t(self.fid), name.encode(), hid_t(0))
        arr = np.ascontiguousarray(arr)
        t = self._mktype(arr.dtype)
        r = L.H5Dwrite(hid_t(ds), hid_t(t), hid_t(0), hid_t(0), hid_t(0), arr.ctypes.data_as(C.c_void_p))
        L.H5Dclose(hid_t(ds)); L.H5Tclose(hid_t(t))
        if r < 0:
            raise H5Error("overwrite " + name)


TVEC = np.dtype([("x", "f8"), ("y", "f8")])
TVEC3 = np.dtype([("x", "f8"), ("y", "f8"), ("o", "f8")])
TTIME = np.dtype([("value", "i4"), ("timescale", "u4")])

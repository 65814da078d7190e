"""Abstract heaps of script objects: a finite number of objects and properties at symbolic addresses; texts are abstract
values known by their class (length, equality, common prefix, embedded NUL), whose bytes nobody may look at: comparisons
are decided by the class, a byte that is read makes the path undecided."""
import re, struct
from conc import Conc, run
from tags import Tags

class Heap:
    """builder of an initial heap"""
    OBJ, PROP, TEXT = 0x100000, 0x200000, 0x400000
    def __init__(self, m, T, sfx=""):
        self.m = m; self.T = T; self.mem = {}; self.nobj = 0; self.nprop = 0
        self.texts = {}          # address -> (bytes, terminated)
        self.owned = {}          # owned/foreign string token -> bytes
        o = m.struct_fields("struct.mjs_object"); p = m.struct_fields("struct.mjs_property")
        oo = {n: off for off, n, *_ in o}; pp = {n: off for off, n, *_ in p}
        self.o_props = oo["properties"]; self.p_next = pp["next"]; self.p_name = pp["name"]; self.p_value = pp["value"]
    def text(self, b, terminated=True):
        for a, t in self.texts.items():
            if t == (b, terminated): return a
        a = self.TEXT + len(self.texts) * 0x1000
        self.texts[a] = (b, terminated)
        return a
    def string(self, b, form=None):
        """the value of a string in normal form, or in the given one ('O' owned, 'F' foreign)"""
        T = self.T.t
        if form is None: form = "I" if len(b) <= 4 else "5" if len(b) == 5 else "O"
        if form == "I": return T["STRING_I"] | int.from_bytes(bytes([len(b)]) + b, "little")
        if form == "5": return T["STRING_5"] | int.from_bytes(b, "little")
        v = T["STRING_" + form] | (0x1000 + 16 * len(self.owned))
        self.owned[v] = b
        return v
    def bytes_of(self, v):
        T = self.T.t
        if not isinstance(v, int): return None
        if v in self.owned: return self.owned[v]
        tag = v >> 48 << 48
        raw = (v & ((1 << 48) - 1)).to_bytes(6, "little")
        if tag == T["STRING_I"] and raw[0] <= 4: return raw[1:1 + raw[0]]
        if tag == T["STRING_5"]: return raw[:5]
        return None
    def number(self, x): return struct.unpack("<Q", struct.pack("<d", float(x)))[0]
    def num_of(self, v):
        if isinstance(v, int) and v >> 48 < 0xfff0: return struct.unpack("<d", struct.pack("<Q", v))[0]
        return None
    def obj(self, props, tag="OBJECT"):
        """props: list of (name value, value) from the head of the list; returns (value, address, [property addresses])"""
        a = self.OBJ + self.nobj * 0x1000; self.nobj += 1
        ps = [self.PROP + (self.nprop + k) * 0x100 for k in range(len(props))]; self.nprop += len(props)
        self.mem[(a + self.o_props, 0)] = ps[0] if ps else 0
        for k, (n, v) in enumerate(props):
            self.mem[(ps[k] + self.p_next, 0)] = ps[k + 1] if k + 1 < len(ps) else 0
            self.mem[(ps[k] + self.p_name, 0)] = n
            self.mem[(ps[k] + self.p_value, 0)] = v
        return self.T.t[tag] | a, a, ps
    def chain(self, st, a, limit=12):
        """[(property address, name, value)] of the object at a in the final state, or None when unknown / broken"""
        def rd(x):
            e = st.mem.get((x, 0))
            return e[0] if e is not None else None
        out = []; p = rd(a + self.o_props)
        while p != 0:
            if not isinstance(p, int) or len(out) >= limit: return None
            out.append((p, rd(p + self.p_name), rd(p + self.p_value)))
            p = rd(p + self.p_next)
        return out

CMP = {"memcmp", "strcmp", "strncmp", "bcmp"}
class HeapRl(Conc):
    bytes_ok = False
    opterms = True; noalias = True; widen = (10 ** 9,) * 3
    def __init__(self, h, args=(), this=None):
        super().__init__(); self.h = h; self.args = list(args); self.this = this; self.fresh = 0
    def cast(self, ex, st, i, t):
        if i.op in ("sitofp", "uitofp"):
            if isinstance(t, int):
                w = i.ops[0].ty[1]
                if i.op == "sitofp" and t >> (w - 1) & 1: t -= 1 << w
                return ("fc", float(t))
        if i.op in ("fptosi", "fptoui") and isinstance(t, tuple) and t[0] == "fc": return int(t[1]) & ((1 << i.ty[1]) - 1)
        if isinstance(t, tuple) and t[0] == "bc" and isinstance(t[1], int): return self.cast(ex, st, i, ("fc", self.h.num_of(t[1])))
        return ("cast", i.op, 0, t)
    def isal(self, t): return isinstance(t, tuple) and (t[0] == "al" or t[0] == "a" and isinstance(t[1], tuple) and t[1][0] == "al")
    def taint(self, st, why): self.event(st, "unknown", why)
    def stop(self, st, why):
        """the path ends undecided"""
        self.outs.append(("ret", st.ts + (("unknown", why),), None, st)); return []
    def load(self, ex, st, i, addr, cls, res):
        if isinstance(addr, int):
            if addr >= Heap.TEXT and addr < Heap.TEXT + 0x1000000:
                if not self.bytes_ok:
                    # the texts of the domain stand for their classes: exact for them
                    t = self.h.texts.get(addr & ~0xfff); o = addr & 0xfff
                    if t is None: self.taint(st, "byte of a text"); return None
                    if o >= len(t[0]) + t[1]: self.event(st, "over", i); return None
                    return (t[0] + b"\0")[o]
                t = self.h.texts.get(addr & ~0xfff); o = addr & 0xfff
                if t is None or o >= len(t[0]) + t[1]: self.event(st, "outside", i); return None
                self.event(st, "byte", addr)
                return ("byte", addr)
            elif addr < 0x1000: self.event(st, "null", i)
        elif i.ty == ("int", 8) and isinstance(addr, tuple) and not isinstance(res, int):
            b, o = ex.loc(addr); t = self.txt(ex, st, b) if isinstance(o, int) and o >= 0 else None
            if t is not None and o < len(t[0]) + t[1]: return (t[0] + b"\0")[o]
            if self.isal(addr) and not any(e[0] == "unknown" for e in st.ts): self.taint(st, "byte of a buffer")
        return None
    def store(self, ex, st, i, addr, cls, val):
        if isinstance(addr, int) and addr < 0x1000: self.event(st, "null", i)
    def inst(self, ex, st, i):
        if i.op in ("sext", "sitofp"):
            t = ex.t(st, i.ops[0])
            if isinstance(t, tuple) and t[0] == "byte" and i.ops[0].ty == ("int", 8): self.event(st, "signed", i)
    def indirect(self, ex, st, i, args): self.taint(st, "indirect call")
    def gstr(self, ex, t):
        if isinstance(t, tuple) and t[0] == "g":
            g = next((x for x in ex.m.globals.values() if x.name == t[1]), None) if isinstance(ex.m.globals, dict) else next((x for x in ex.m.globals if x.name == t[1]), None)
            if g is not None and g.init_ptr:
                d = ex.m.global_data(g)
                if isinstance(d, (bytes, bytearray)): return bytes(d).split(b"\0")[0]
        return None
    def txt(self, ex, st, p, n=None):
        """(bytes, terminated) of the text at p"""
        if isinstance(p, int):
            t = self.h.texts.get(p)
            if t is None and Heap.TEXT <= p < Heap.TEXT + 0x1000000:
                base = p & ~0xfff; o = p - base; t = self.h.texts.get(base)
                if t is not None: t = (t[0][o:], t[1]) if o <= len(t[0]) else None
            return t
        b = self.gstr(ex, p)
        if b is not None: return (b, True)
        e = st.mem.get(("text", p))
        return e[0][1:] if e is not None else None
    def setv(self, ex, st, p, v):
        if p != 0: st.mem[ex.loc(p)] = (v, "")
    def fmt(self, ex, st, i, fa, args):
        f = self.gstr(ex, fa)
        if f is None: return None
        out = b""; k = 0; n = 0
        for mt in re.finditer(rb"%(l*)([du])|([^%]+)", f):
            if mt.start() != k: return None
            k = mt.end()
            if mt.group(3) is not None: out += mt.group(3); continue
            if n >= len(args) or not isinstance(args[n], int): return None
            w = 64 if len(mt.group(1)) > 1 or len(mt.group(1)) == 1 and ex.m.ptrsize == 8 else 32
            v = args[n] & ((1 << w) - 1); n += 1
            if mt.group(2) == b"d" and v >> (w - 1): v -= 1 << w
            out += str(v).encode()
        return out if k == len(f) else None
    def mkstr(self, ex, st, p, ln, copy):
        if ln in (mask64, mask32): 
            t = self.txt(ex, st, p)
            if t is None or not t[1]: return None
            b = t[0].split(b"\0")[0]
        else:
            if not isinstance(ln, int) or ln > 1024: return None
            t = self.txt(ex, st, p)
            if ln == 0: b = b""
            elif t is None or ln > len(t[0]) + t[1]:
                if isinstance(p, int) and p: self.event(st, "outside", None)
                return None
            else: b = (t[0] + b"\0" * t[1])[:ln]
        if not isinstance(copy, int): return None
        if not (copy & 0xffffffff) and b: return self.h.string(b, "F")
        if len(b) <= 5: return self.h.string(b)
        return self.h.string(b)
    def direct(self, ex, st, i, name, a):
        h = self.h
        if name == "mjs_get_string":
            v = st.mem.get(ex.loc(a[1]), (None,))[0]
            b = h.bytes_of(v)
            if b is None:
                if isinstance(v, int): self.setv(ex, st, a[2], 0) if len(a) > 2 else None; return [(st, 0)]
                return self.stop(st, "string value")
            if len(a) > 2: self.setv(ex, st, a[2], len(b))
            return [(st, h.text(b))]
        if name == "mjs_mk_string":
            v = self.mkstr(ex, st, a[1], a[2], a[3])
            if v is None: return self.stop(st, "string made of unknown text")
            return [(st, v)]
        if name == "mjs_to_string":
            v = st.mem.get(ex.loc(a[1]), (None,))[0]; b = h.bytes_of(v); fr = 0
            x = h.num_of(v)
            if b is None and x is not None and x == int(x): b = b"%d" % int(x); fr = 1
            if b is None:
                if isinstance(v, int):
                    self.setv(ex, st, a[2], 0); self.setv(ex, st, a[3], 0); self.setv(ex, st, a[4], 0)
                    self.event(st, "error"); return [(st, ex.m.enumval["MJS_TYPE_ERROR"])]
                return self.stop(st, "key")
            self.setv(ex, st, a[2], h.text(b)); self.setv(ex, st, a[3], len(b)); self.setv(ex, st, a[4], fr)
            return [(st, 0)]
        if name in ("new_property", "new_object"):
            self.fresh += 1
            n = sum(1 for e in st.ts if e[0] == "new"); self.event(st, "new", name)
            return [(st, 0x300000 + n * 0x100)]
        if name in CMP:
            x, y = self.txt(ex, st, a[0]), self.txt(ex, st, a[1])
            if x is None or y is None: return self.stop(st, name)
            if name in ("memcmp", "bcmp"):
                n = a[2]
                if not isinstance(n, int): return self.stop(st, name)
                x, y = (u[0] + b"\0" * u[1] for u in (x, y))
                if n <= len(x) and n <= len(y): return [(st, 0 if x[:n] == y[:n] else 1)]
                k = min(len(x), len(y))
                if x[:k] == y[:k]: self.event(st, "over", i)
                return [(st, 1)]
            n = a[2] if name == "strncmp" else 1000
            if not isinstance(n, int): return self.stop(st, name)
            def z(t): return (t[0] + (b"\0" if t[1] else b"\xff")).split(b"\0")[0][:n]
            return [(st, 0 if z(x) == z(y) else 1)]
        if name == "strlen":
            x = self.txt(ex, st, a[0])
            if x is None or not x[1]: return self.stop(st, name)
            return [(st, len(x[0].split(b"\0")[0]))]
        if name in ("str_to_ulong", "cstr_to_ulong"):
            if name == "str_to_ulong": b = h.bytes_of(a[1]); ok, res = a[2], a[3]
            else:
                t = self.txt(ex, st, a[0]); ok, res = a[2], None
                b = t[0][:a[1]] if t is not None and isinstance(a[1], int) else None
            if b is None: return self.stop(st, name)
            good = re.fullmatch(rb"[0-9]+", b) is not None; v = int(b) if good else 0
            self.setv(ex, st, ok, int(good))
            if res is not None: self.setv(ex, st, res, v); return [(st, 0)]
            return [(st, v)]
        if name == "mjs_check_arg":
            k = a[1] & 0xffffffff
            v = self.this if k == 0xffffffff else self.args[k] if k < len(self.args) else self.h.T.t["UNDEFINED"]
            if k != 0xffffffff and k >= len(self.args): self.event(st, "error"); return [(st, 0)]
            self.event(st, "checked", -1 if k == 0xffffffff else k, a[3])
            self.setv(ex, st, a[4], v); return [(st, 1)]
        if name == "mg_strstr" and len(a) == 4:
            x, y = self.txt(ex, st, a[0]), self.txt(ex, st, a[2])
            if x is None and isinstance(a[0], int) and a[0] and a[1] != 0: self.event(st, "outside", i); return [(st, 0)]
            if x is None or y is None or not isinstance(a[1], int) or not isinstance(a[3], int): return self.stop(st, name)
            if a[1] > len(x[0]) or a[3] > len(y[0]): self.event(st, "outside", i); return [(st, 0)]
            k = x[0][:a[1]].find(y[0][:a[3]])
            return [(st, a[0] + k if k >= 0 else 0)]
        if name == "memmem":
            x, y = self.txt(ex, st, a[0]), self.txt(ex, st, a[2])
            if x is None or y is None or not isinstance(a[1], int) or not isinstance(a[3], int): return self.stop(st, name)
            k = x[0][:a[1]].find(y[0][:a[3]])
            return [(st, a[0] + k if k >= 0 else 0)]
        if name == "mjs_array_length": return [(st, ("arrlen", a[1]))]
        if name in ("mjs_mk_foreign_func", "mjs_mk_foreign"): return [(st, ("foreign", a[1]))]
        if name == "mjs_nargs": return [(st, len(self.args))]
        if name == "mjs_arg":
            k = a[1]
            if not isinstance(k, int): return self.stop(st, name)
            return [(st, self.args[k] if 0 <= k < len(self.args) else self.h.T.t["UNDEFINED"])]
        if name == "mjs_get_int":
            x = h.num_of(a[1])
            if x is None: return self.stop(st, name)
            return [(st, int(x) & 0xffffffff)]
        if name == "mjs_mk_number":
            x = a[1][1] if isinstance(a[1], tuple) and a[1][0] == "fc" else None
            if isinstance(a[1], int): x = a[1]
            if isinstance(a[1], tuple) and a[1][0] == "bc" and isinstance(a[1][1], int): return [(st, a[1][1])]
            if x is None and isinstance(a[1], tuple) and a[1][0] == "cast": return [(st, ("conv", "number", a[1]))]
            if x is None: return self.stop(st, name)
            return [(st, h.number(x))]
        if name in ("mjs_prepend_errorf", "mjs_set_errorf"): self.event(st, "error"); return [(st, a[1])]
        if name == "mjs_return": self.event(st, "return", a[1]); return [(st, None)]
        if name in ("free", "mjs_own", "mjs_disown") or name.startswith("llvm.") or name.startswith("cs_log"): return None
        fa = next((k for k, x in enumerate(a) if self.gstr(ex, x) is not None and b"%" in self.gstr(ex, x)), None)
        if i.callee.vararg and fa is not None and fa >= 2:
            b = self.fmt(ex, st, i, a[fa], a[fa + 1:])
            size = a[1]
            if b is not None and isinstance(size, int):
                cut = b[:size - 1] if len(b) >= size else b
                st.mem[("text", a[0])] = (("text", cut, True), "")
                n = len(b) if name != "v_sprintf_s" else min(len(b), size)
                return [(st, n)]
        return self.stop(st, name)
mask64 = (1 << 64) - 1; mask32 = (1 << 32) - 1

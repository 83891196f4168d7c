"""Runs harness functions of the native library (the real code)."""
import ctypes

NI, NO, NF = 64, 128, 32
CT = {'f32': ctypes.c_uint32, 'f64': ctypes.c_uint64, 'u8': ctypes.c_uint8, 'u16': ctypes.c_uint16,
      'u32': ctypes.c_uint32, 'u64': ctypes.c_uint64, 'i8': ctypes.c_uint8, 'i16': ctypes.c_uint16,
      'i32': ctypes.c_uint32, 'i64': ctypes.c_uint64}
W = {'f32': 32, 'f64': 64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


class Native:
    def __init__(self, path):
        self.lib = ctypes.CDLL(path)

    def run(self, fn, tin, tout, bits):
        """bits: list of input bit patterns.  Returns (panicked, out bits, flags)."""
        i = (CT[tin] * NI)(*bits)
        o = (CT[tout] * NO)()
        f = (ctypes.c_uint64 * NF)()
        g = getattr(self.lib, 'n_' + fn)
        g.restype = ctypes.c_int
        r = g(ctypes.byref(i), ctypes.byref(o), ctypes.byref(f))
        return (r != 0, list(o), list(f))

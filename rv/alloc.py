"""Allocated(): the bytes Python objects asked for while something ran (an allocator hook, counted exactly: no clock)"""
import ctypes, os, subprocess, tempfile
_lib = []
def lib():
    if not _lib:
        so = os.path.join(tempfile.mkdtemp(), 'alloc.so')
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'alloc.c')], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        l = ctypes.PyDLL(so); l.rv_stop.restype = ctypes.c_ulonglong; _lib.append(l)
    return _lib[0]

class Allocated(object):
    total = 0
    def __enter__(self): self.l = lib(); self.l.rv_start(); return self
    def __exit__(self, *a): self.total = self.l.rv_stop()

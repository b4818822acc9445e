"""Windows environment (both sides): a stand-in for kernel32, since there is no Windows here. infi.asi.win32 binds the functions of
windll.kernel32 when it is imported; each of them forwards to the environment of the running contract."""
import sys

ENV = [None]
NAMES = ('GetLastError', 'FormatMessageA', 'CreateFileW', 'DeviceIoControl', 'CloseHandle', 'CreateEventW', 'GetOverlappedResult', 'WaitForMultipleObjects')
class Kernel32(object): pass
for _n in NAMES: setattr(Kernel32, _n, staticmethod(lambda *a, _n=_n: getattr(ENV[0], _n)(*a)))
class Windll(object): kernel32 = Kernel32

if 'engine.ctypes_model' in sys.modules:
    sys.modules['engine.ctypes_model'].LLP64.windll = Windll

def win():
    """the module under test"""
    import importlib
    if 'infi.asi.win32' not in sys.modules and 'engine.ctypes_model' not in sys.modules:
        import ctypes
        ctypes.windll = Windll
        ulong = ctypes.c_ulong
        ctypes.c_ulong = ctypes.c_uint32        # unsigned long has 4 bytes on Windows
        try: importlib.import_module('infi.asi.win32')
        finally: ctypes.c_ulong = ulong
    return importlib.import_module('infi.asi.win32')

class Windows(object):
    """kernel32 as far as the code uses it; contracts override what they decide about"""
    def __init__(self, V):
        self.V, self.error, self.opened, self.closed, self.events = V, 0, [], [], []
        ENV[0] = self
    def GetLastError(self): return self.error
    def FormatMessageA(self, *a): return 0
    def CreateFileW(self, path, access, share, security, creation, flags, template):
        self.opened.append((path, access, share, security, creation, flags, template))
        return 0x40 + 4 * len(self.opened)
    def CloseHandle(self, handle):
        self.closed.append(getattr(handle, 'value', handle))
        return 1
    def CreateEventW(self, *a):
        self.events.append(a)
        return 0x1000 + 4 * len(self.events)

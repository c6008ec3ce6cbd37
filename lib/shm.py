"""Looking at the shared memory segments of gkc without writing to them."""
import ctypes, hashlib, re

libc = ctypes.CDLL(None, use_errno=True)
libc.shmget.argtypes = [ctypes.c_int, ctypes.c_size_t, ctypes.c_int]
libc.shmat.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_int]
libc.shmat.restype = ctypes.c_void_p
libc.shmdt.argtypes = [ctypes.c_void_p]
libc.shmctl.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
libc.mincore.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_void_p]
SHM_RDONLY, IPC_RMID, PAGE = 0o10000, 0, 4096
ZERO = bytes(PAGE)


def find(key):
    """Segment id, or None."""
    i = libc.shmget(key, 0, 0)
    return None if i < 0 else i


def info(key):
    """(size, attached) of the segment with the key, or None."""
    for l in open("/proc/sysvipc/shm").read().splitlines()[1:]:
        f = l.split()
        if int(f[0]) == key:
            return int(f[3]), int(f[6])
    return None


def keys():
    return [int(l.split()[0]) for l in open("/proc/sysvipc/shm").read().splitlines()[1:]]


def remove(key):
    i = find(key)
    if i is not None:
        libc.shmctl(i, IPC_RMID, None)


def snapshot(key):
    """{page number: digest} of the pages which are not zero; pages never touched are not touched by this."""
    i, inf = find(key), info(key)
    if i is None or inf is None:
        return None
    a = libc.shmat(i, None, SHM_RDONLY)
    if a in (None, ctypes.c_void_p(-1).value):
        return None
    try:
        n = (inf[0] + PAGE - 1) // PAGE
        vec = (ctypes.c_ubyte * n)()
        if libc.mincore(a, inf[0], vec):
            return None
        out = {}
        for m in re.finditer(rb"[^\0]", bytes(vec)):
            k = m.start()
            if vec[k] & 1:
                p = ctypes.string_at(a + k * PAGE, PAGE)
                if p != ZERO:
                    out[k] = hashlib.md5(p).digest()
        return out
    finally:
        libc.shmdt(a)


def differ(s, t):
    """Description of the first differences between two snapshots, or None."""
    if s == t:
        return None
    ks = sorted(k for k in set(s) | set(t) if s.get(k) != t.get(k))
    return "%d pages differ: %s" % (len(ks), ks[:8])

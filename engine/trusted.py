"""What every verdict rests on and no obligation discharges; copied into the evidence files."""
BASE = [
 'the symbolic engine in /verif/engine (instrumenting loader, normal form of linear and bit-slice arithmetic, byte ropes, path exploration, joins, builtins overrides); engine/selfcheck.py compares it with CPython/PyPy on random programs and follows recorded concrete runs of every contract',
 'z3 4.x (python3-vt z3-solver); obligations decided by z3 are asked again of cvc5 in the thorough tier',
 'CPython 3.12 executes the mechanically instrumented source with the meaning PyPy 3.9 of the project gives it',
 'engine/models_std.py (struct, io.BytesIO) describes those library calls',
 'infi.instruct, six, infi.exceptools are executed, not verified; byte loops of infi.instruct over buffers of symbolic length are replaced by closed forms which selfcheck compares with the originals',
 'the oracles written in /verif/contracts (byte and bit tables transcribed from the SCSI standards and system headers)',
]
SEQUENCES = 'lists of symbolic length built by a loop over an arbitrary element are proved for an arbitrary index of it; their elements see the variables of the loop as they were, not later assignments to attributes of objects'
CHAIN = 'on paper: a chain (or list) every step of which is proved from an arbitrary start is right as a whole (induction over its steps)'
CTYPES = 'engine/ctypes_model.py: structures with native alignment, little-endian, LP64 (LLP64 for win32.py), stored integers truncated silently, every pointer used must lie inside a live buffer; sg_io_hdr is compared with the C compiler by selfcheck'
STANDINS = 'the device, ioctl, read/write, select, time and kernel32 stand-ins written into the contracts: they answer with arbitrary statuses, data and failures, once per call'
EXTRA = {
 'C03': [SEQUENCES], 'C06': [SEQUENCES, CHAIN], 'C08': [SEQUENCES], 'C09': [SEQUENCES], 'C11': [SEQUENCES],
 'C12': [CHAIN], 'C13': [SEQUENCES, CHAIN], 'C14': [SEQUENCES, CHAIN], 'C15': [CHAIN], 'C27': [SEQUENCES],
 'C17': ['on paper: a history of the queue is a sequence of its verified operations (induction); while a command is being sent or a response awaited the queue may change in any way the verified operations allow', STANDINS],
 'C18': ['on paper: a run of the coroutine driver is a composition of its verified steps (induction)'],
 'C19': [CTYPES, STANDINS, 'preconditions: command at most 255 bytes, data below 2^32 bytes'],
 'C20': [CTYPES, STANDINS],
 'C21': [CTYPES, STANDINS, 'the executer is used with its default queue of one command'],
 'C22': [CTYPES, STANDINS, 'the executer is used with its default queue of one command; uscsi_cmd as in the Solaris headers, LP64'],
 'C23': [CTYPES, STANDINS, 'the executer is used with its default queue of one command; sc_passthru as in the AIX headers, LP64; commands of at most 64 bytes'],
 'C24': [CTYPES, STANDINS, 'kernel32 is a stand-in; OVERLAPPED is packed with native sizes of the host; three or more outstanding requests only for fixed numbers'],
 'C25': [STANDINS, 'gevent is absent'],
 'C26': [STANDINS, 'infi.os_info.get_platform_string answers with the platform name first'],
}
def base(p): return list(BASE) + [x for x in EXTRA.get(p, [])]
def assumptions(p):
    return ['Python integers are mathematical integers (they are in Python; no overflow is idealised away)',
            'interruptions at arbitrary points (signals, MemoryError) and concurrent mutation of the same objects by other threads are not modelled']

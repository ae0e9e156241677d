import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, api, iocheck
from faults import Fault
from nullness import build

def fn(R, tier):
    for cname, flags in runner.configs(tier, both=tier == 'thorough'):
        P = runner.program(flags)
        for f in api.roots(P):
            if not iocheck.touches(P, f): continue
            cfg = build(P, f)
            rd, wr = iocheck.io_calls(cfg)
            if not rd and not wr: continue
            F = Fault(P, cfg)
            R.count('functions'); R.count('io_calls', len(rd) + len(wr))
            iocheck.s08(R, P, f, cfg, F, rd)
runner.main('S08', 'numbers from files are validated', fn, 'other',
    'Fault propagation: every 32-bit number read from a file (scanf conversions, fread into int) is assumed to be negative, the largest int, or larger than anything '
    'it is compared with, and the consequences are propagated (conditional constants, callees inlined) along every path that remains possible. Reported: sizes of '
    'memory that are negative, overflow in int, or indices derived from the number, and bad numbers that are stored although the operation reports success. Arrays '
    'read at once must pass a loop over all elements that rejects the bad one; positions filled while a file has data must be compared with a limit; words and lines '
    'must fit their buffers.',
    minimum={'functions': 9, 'numbers_read': 20, 'bad_values_assumed': 60, 'arrays_read': 2, 'strings_read': 10, 'filled_arrays': 8},
    assumptions=['a loop over an array whose range cannot be determined covers it', 'low-level readers (mm_read_mtx_crd and below) may pass numbers on to their callers unchecked', 'memory sized by a number read may be indexed up to that number'])

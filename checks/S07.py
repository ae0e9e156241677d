import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import runner, api, iocheck
from faults import Fault
from nullness import build

def fn(R, tier):
    for cname, flags in runner.configs(tier, both=tier == 'thorough'):
        P = runner.program(flags)
        for f in api.roots(P):
            if not iocheck.touches(P, f): continue
            cfg = build(P, f)
            rd, wr = iocheck.io_calls(cfg)
            if not rd and not wr: continue
            F = Fault(P, cfg)
            R.count('functions'); R.count('io_calls', len(rd) + len(wr))
            iocheck.s07(R, P, f, cfg, F, rd)
            iocheck.s07w(R, P, f, cfg, F, wr)
runner.main('S07', 'failed input and output is reported', fn, 'other',
    'Fault propagation: for every call of the C library that opens, reads or writes a file (callees inlined into each public function), the failing result (NULL, EOF, '
    'a short count, every smaller number of conversions) is assumed and propagated (conditional constants, counts) along every path that remains possible. Reported: exits '
    'that claim success, silence where there is no result to claim, a process that ends or an operation that has no way out, the use of a missing file; and failure claimed after success.',
    minimum={'functions': 12, 'io_calls': 60, 'failures_assumed': 100, 'input_functions': 8, 'output_functions': 5},
    assumptions=['a text file that ends within its entries has fewer of them than it announces', 'after a failed write ferror() is true', 'a line that cannot be parsed may be parsed in another way'])

import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import rescheck
rescheck.main('S04', 'temporary memory is released exactly once, by the matching function', ('malloc', 'mm', 'new', 'new[]'), 150)

import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import rescheck
rescheck.main('S03', 'every file the library opens is closed exactly once on every path', ('file',), 10)

""" Nothing is compiled: check that what the simulator needs is there. """
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
assert sys.version_info[:2] >= (3, 12), sys.version
core.boot()
curver = core.import_curver()
import engine
print('curver from', curver.__file__, '-', len(engine.worlds()), 'worlds')

""" python sim/run.py <property> [--replay FILE]: run one check. Exit 0: held; 1: violated; 2: the simulator failed. """
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.boot()
import simsys
simsys.install()
import gc, importlib, json, resource, time

def main():
    name = sys.argv[1]
    core.import_curver()
    import engine
    engine.survey()
    engine.worlds()
    gc.collect(); gc.freeze()
    from checks import common
    check = importlib.import_module('checks.' + name.lower())
    if '--replay' in sys.argv:
        return common.replay(check, sys.argv[sys.argv.index('--replay') + 1])
    return common.main(check, name)

if __name__ == '__main__':
    try:
        code = main()
    except core.HarnessError as error:
        print('HARNESS ERROR', error)
        code = 2
    sys.stdout.flush()
    os._exit(code)

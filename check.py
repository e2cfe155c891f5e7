#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current tree"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    mod = os.path.join(HERE, 'checks', pid + '.py')
    if os.path.exists(mod):
        import importlib.util
        spec = importlib.util.spec_from_file_location('check_' + pid, mod)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m.main()
    if os.path.exists(os.path.join(HERE, 'harness', pid + '.py')):
        import pycheck
        return pycheck.main(pid)
    import ircheck
    return ircheck.main(pid)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

import importlib
import sys


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("sa.checks." + pid.lower())
    from . import driver
    sys.exit(driver.main(mod.CHECK, sys.argv[2:]))


main()

#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property statically on /repo's current tree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import driver, props


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t = props.titles()
    rc = driver.run(prop, props.CHECKS[prop](tier), tier, t[prop], props.TECH.get(prop, 'abstract interpretation of the LLVM IR with typestate monitors'), props.ASSUME.get(prop, ()))
    sys.stdout.flush()
    sys.exit(rc)


main()

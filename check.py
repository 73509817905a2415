#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Exit 0: the property held on everything explored; exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken; exit 2: the check
itself failed."""
import argparse
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                'lib'))
import props
import session


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args()
    p = props.PROPS[a.property]
    return session.run(a.property, p['fn'], p['level'], p['technique'],
                       a.tier, a.seed)


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <property>: decide one property against /repo's current working tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core            # noqa: E402
import decode_checks   # noqa: E402
import layout_checks   # noqa: E402
import reader_checks   # noqa: E402
import meta_checks     # noqa: E402
import session_checks  # noqa: E402

CHECKS = {
    'C01': reader_checks.c01,
    'C02': reader_checks.c02,
    'C03': reader_checks.c03,
    'C04': reader_checks.c04,
    'C05': meta_checks.c05,
    'C06': session_checks.c06,
    'C07': meta_checks.c07,
    'C08': meta_checks.c08,
    'C09': meta_checks.c09,
    'C10': meta_checks.c10,
    'C11': session_checks.c11,
    'C12': session_checks.c12,
    'C13': decode_checks.c13,
    'C14': decode_checks.c14,
    'C15': decode_checks.c15,
    'C16': meta_checks.c16,
    'C17': decode_checks.c17,
    'C18': session_checks.c18,
    'C19': layout_checks.c19,
    'C20': session_checks.c20,
}


def main():
    prop = sys.argv[1]
    c = core.Check(prop)
    try:
        core.build()
        CHECKS[prop](c)
        sys.exit(c.finish())
    except core.ToolError as e:
        core.log(f'ERROR: {e}')
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()

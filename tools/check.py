#!/usr/bin/env python3
"""Checks of the properties: check.py <property> [--tier quick|thorough]"""
import sys

import framework
import checks_struct
import checks_wire
import checks_defs
import checks_gen
import checks_api
import checks_read
import checks_script

CHECKS = {}
CHECKS.update(checks_struct.CHECKS)
CHECKS.update(checks_wire.CHECKS)
CHECKS.update(checks_gen.CHECKS)
CHECKS.update(checks_api.CHECKS)
CHECKS.update(checks_read.CHECKS)
CHECKS.update(checks_defs.CHECKS)
CHECKS.update(checks_script.CHECKS)

if __name__ == "__main__":
    framework.main(CHECKS)

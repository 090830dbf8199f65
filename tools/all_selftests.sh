#!/bin/bash
# every self-test, eight at a time; prints only failures
cd /verif; export PYTHONPATH=/verif
ls selftest/c*.py | sed 's/.*c\([0-9]*\).py/C\1/' | xargs -P 8 -I{} sh -c 'timeout 3000 python3 tools/selftest.py {} 2>&1 | cut -c1-300'

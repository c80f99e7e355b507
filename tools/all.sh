#!/bin/bash
# run all checks (quick), eight at a time, and show what is not quiet
cd "$(dirname "$0")/.."
ls checks/P*.py | sed 's/.*\(P[0-9]*\).py/\1/' | xargs -P 8 -I{} sh -c 'python3 check.py {} > /tmp/all.{} 2>&1; echo "{} $? $(tail -1 /tmp/all.{} | cut -c1-150)"' | sort

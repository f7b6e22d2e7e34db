#!/bin/bash
# run with cwd = the repository, after it was built; exit 0: the property holds in this example
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"

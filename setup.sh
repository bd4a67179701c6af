#!/bin/bash
# Nothing to install: the checks run /repo's Python as it is and compile the clock shim themselves.
# This only verifies that the tools they need work here.
set -e
here=$(cd "$(dirname "$0")" && pwd)
exec "$here/check" --self-test

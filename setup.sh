#!/bin/bash
# Nothing to compile: check that the interpreter, hypothesis and the code under test can be imported.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
exec "$here/check" --selftest

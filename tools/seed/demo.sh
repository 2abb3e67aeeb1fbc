#!/bin/bash
here=$(dirname "$0")
exec python3 "$here/qdemo.py" "$here/case.py"

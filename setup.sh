#!/bin/bash
# builds nothing but the Boost compatibility overlay; every check compiles its harness from /repo's tree
set -e
cd "$(dirname "$0")"; mkdir -p build evidence
python3 - <<'P'
import sys; sys.argv=["x"]; src=open("run.py").read().rsplit("\nmain()",1)[0]
exec(compile(src.replace("__file__","'"+__import__('os').path.abspath('run.py')+"'"),"run.py","exec")); overlay()
P
echo ok

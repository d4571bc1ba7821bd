#!/bin/bash
# mutant.sh ID DIR: a copy of /repo with the seeded change ID applied
set -e
rm -rf "$2"; cp -a /repo "$2"; cd "$2"; git apply /verif/seeded/$1/patch.diff

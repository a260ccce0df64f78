#!/bin/bash
# setup.sh: builds the harness once, plain and with -race, so that the build cache is warm.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_SETUP=1
bash "$here/check.sh" C01 && bash "$here/check.sh" C22

#!/bin/bash
# verifies demonstrations of all given seeds, 4 at a time
printf '%s\n' "$@" | xargs -P 4 -n 1 python3 /verif/tools/plant.py --verify

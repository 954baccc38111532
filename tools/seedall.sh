#!/bin/bash
# seedall.sh: validates every planted bug and runs its property's check on it.
for d in /verif/seeded/*/; do bash /verif/tools/seedtest.sh $(basename $d); done

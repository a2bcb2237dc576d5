#!/bin/bash
# regression: all properties, one line each
cd /verif
for p in ${@:-$(ls contracts/*.cpp | xargs -n1 basename | sed 's/.cpp//')}; do python3-vt engine/run.py $p | tail -3; done

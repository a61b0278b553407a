#!/bin/bash
export VERIF_DIR=/tmp/w/vd PBT_SELF=1 PBT_TIMES=1 ; mkdir -p /tmp/w/vd; ln -sfn /verif/corpus /tmp/w/vd/corpus; ln -sfn /verif/known /tmp/w/vd/known; ln -sfn /verif/known_findings.txt /tmp/w/vd/known_findings.txt
time /tmp/w/pbt run "$@"

#!/bin/bash
# fixed.sh ID "what failed": record the last /repo commit as the repair of a genuine defect
echo "fixed: property=$1 $(git -C /repo rev-parse --short=7 HEAD) $2" >> /verif/known_findings.txt

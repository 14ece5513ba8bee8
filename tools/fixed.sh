#!/bin/sh
# usage: fixed.sh PROPERTY what failed   (records the last /repo commit)
p=$1; shift
echo "fixed: property=$p $(git -C /repo log -1 --format=%h) $*" >> /verif/known_findings.txt

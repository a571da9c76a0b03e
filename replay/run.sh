#!/bin/bash
# /verif/replay/run.sh <property>: runs the property's replay driver against /repo's sources.
cd "$(dirname "$0")/.." && . ./env.sh && exec .cache/gv replay -prop "$1"

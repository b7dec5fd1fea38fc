#!/bin/bash
# dev helper: rc.sh PROP [contract name part] [tier] -- run contracts, short summary
cd "$(dirname "$0")/.."; exec /opt/venv/bin/python -m pyvc --prop $1 --only "$2" --tier ${3:-quick} --budget ${B:-120} 2>&1 | cut -c1-${W:-700}

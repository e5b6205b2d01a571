#!/bin/bash
# check.sh Cnn: decide one property on the current /repo working tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ -x bin/govc ] || ./setup.sh || exit 2
exec bin/govc check "$1"

#!/bin/bash
# bash run.sh <PROPERTY-ID>   runs the check of one property (tier from VERIF_TIER).
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONHOME PYTHONSTARTUP PYTHONPATH
exec /opt/venv/bin/python lib/main.py "$@"

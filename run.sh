#!/bin/bash
# run.sh <property id> [quick|thorough]           run the check of a property
# run.sh <property id> --replay <file>            re-execute one recorded violation
here="$(cd "$(dirname "$0")" && pwd)"
exec env -u PYTHONPATH PYTHONPATH="${VP_REPO:-/repo}":"$here/lib" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
  PYTHONUTF8=1 LANG=C.UTF-8 LC_ALL=C.UTF-8 MPLBACKEND=Agg \
  PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin \
  /opt/venv/bin/python -m vp.main "$@"

#!/bin/sh
# developer helper: run the concrete contracts of a property
cd /verif
MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 VERIF_JOBS=8 /opt/venv/bin/python pyvc/conc.py run $1 ${2:-1} quick /tmp/rc_$1.json && python3 show.py /tmp/rc_$1.json

#!/bin/bash
cd /tmp/w; PYTHONPATH=${VERIF_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=-1 /opt/venv/bin/python /verif/conc/run.py --prop $1 --seconds $2 $3 2>/dev/null | tail -40 | cut -c1-1500

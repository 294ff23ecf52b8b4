#!/usr/bin/env python3
"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {"OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": "", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TORCHDYNAMO_DISABLE": "1", "MALLOC_PERTURB_": "165", "GLOO_SOCKET_IFNAME": "lo"}
if os.environ.get("TH_MC_CHILD") != "1":
    env = dict(os.environ, **ENV, TH_MC_CHILD="1")
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

rc = core.main(sys.argv[1:])
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)

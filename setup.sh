#!/bin/bash
# Self-test of the reference models (published vectors, openssl); nothing is built.
cd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python -m rv.ref.selftest

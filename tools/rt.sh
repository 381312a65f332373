#!/bin/bash
# dev: run the repository's tests on /repo
cd /repo && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -k "not invalid_dir_permissions" tests 2>&1 | tail -${1:-5}

#!/bin/sh
# Nothing to build: welleng and the checks are Python.  Make sure both import.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -c "from vt import boot, core, registry; print(len(registry.ids()), 'properties')"

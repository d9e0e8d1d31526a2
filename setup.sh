#!/bin/bash
# nothing to build: the framework is python; check that what it needs is there
cd "$(dirname "$0")" && JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from sx import paths; paths.setup()
import z3, jax, nnx; print('z3', z3.get_version_string(), 'jax', jax.__version__, nnx.__file__)"

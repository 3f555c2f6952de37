# Sourced by run.sh: the environment the checks build and run in (offline).
VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT
export VERIF_REPO="${VERIF_REPO:-/repo}"
export VP_ENV=/opt/randomgen-env
export PATH="$VP_ENV/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export HOME="${HOME:-/root}"
mkdir -p "$VERIF_ROOT/.build"
if command -v ccache >/dev/null 2>&1; then
  export CC="ccache gcc" CXX="ccache g++"
  export CCACHE_DIR="$VERIF_ROOT/.build/ccache" CCACHE_MAXSIZE=1G CCACHE_COMPILERCHECK=content
else
  export CC=gcc CXX=g++
fi
unset CPPFLAGS LDFLAGS RANDOMGEN_CYTHON_COVERAGE RANDOMGEN_DEBUG RANDOMGEN_NO_SSE2
unset PYTHONPATH PYTHONSTARTUP
# no debug information: the build then takes a quarter of the time
export CFLAGS="-g0"
export SETUPTOOLS_SCM_PRETEND_VERSION=2.1.0
export PYTHONHASHSEED=12345678 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}"
export VERIF_TIER="${VERIF_TIER:-quick}"
# Hypothesis lives in the tooling venv; only it (not that venv's numpy) is made visible.
HS="$VERIF_ROOT/.build/hs"
if [ ! -e "$HS/.ok" ]; then
  mkdir -p "$HS"
  for m in hypothesis sortedcontainers _hypothesis_ftz_detector.py _hypothesis_globals.py; do
    ln -sfn "/opt/veriftools/pyvenv/lib/python3.12/site-packages/$m" "$HS/$m"
  done
  touch "$HS/.ok"
fi
export VERIF_HS="$HS"

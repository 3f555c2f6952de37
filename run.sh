#!/bin/bash
# ./run.sh <property id> [quick|thorough]       decide one property
# ./run.sh replay <file>                        re-run one saved failing case
# ./run.sh build                                only build
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
if [ "$1" != replay ] && [ -n "${2:-}" ]; then export VERIF_TIER="$2"; fi
if [ "$1" = C26 ] || { [ "$1" = replay ] && grep -q '"property": "C26"' "$2"; }; then
  # several builds of the library, each in processes of its own
  cd "$VERIF_ROOT" || exit 2
  PYTHONPATH="$VERIF_ROOT" exec python -m harness.builds "$@"
fi
python "$VERIF_ROOT/harness/build.py" plain || { echo "build failed" >&2; exit 2; }
[ "$1" = build ] && exit 0
FLAVOUR=plain
if [ "$1" = C23 ] || { [ "$1" = replay ] && grep -q '"property": "C23"' "$2"; }; then
  # the library is built with, and runs under, AddressSanitizer
  FLAVOUR=asan
  python "$VERIF_ROOT/harness/build.py" asan || { echo "sanitizer build failed" >&2; exit 2; }
  export PYTHONMALLOC=malloc
  export ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=512:exitcode=99:handle_abort=1:max_malloc_fill_size=65536:log_path=$VERIF_ROOT/.build/asan-report"
  export UBSAN_OPTIONS="print_stacktrace=1:exitcode=99:log_path=$VERIF_ROOT/.build/asan-report"
  LIBASAN="$(gcc -print-file-name=libasan.so)"
fi
export PYTHONPATH="$VERIF_ROOT/.build/$FLAVOUR:$VERIF_HS:$VERIF_ROOT"
if [ -n "${LIBASAN:-}" ]; then export LD_PRELOAD="$LIBASAN"; fi
exec python -m harness.main "$@"

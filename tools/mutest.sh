#!/bin/bash
# bash /opt/vp/test.sh OUT.json
# Does what test/runtests.sh does (that one wants the checkout to be named
# "pwtools"): copies /repo as it is now to a fresh directory, since the tests
# write next to themselves, and runs pytest there.
. /opt/vp/env.sh
out=$(realpath -m "${1:?usage: test.sh OUT.json}")
true || echo "test.sh: the Fortran extensions do not build" >&2

work=$(mktemp -d /tmp/pwtools-test.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
rsync -a --exclude=/.git --exclude=/doc --exclude=__pycache__ --exclude='*.egg-info' \
    "${SRC:?}"/ "$work/pwtools/" || exit 1
echo "testdir='$work'" > "$work/pwtools/src/pwtools/test/testenv.py"

export TMPDIR=$work PYTHONPATH=$work/pwtools/src OMP_NUM_THREADS=3 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
# LAMMPS and QE run as MPI singletons: no orted, no network interface.
export OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_btl=self
# numpy's AVX512 arccos differs in the last bit from libm: test_dcd compares with ==.
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR"
# Two tests skip without DISPLAY, though they need no X with the Agg backend.
export DISPLAY=:0
export MPLCONFIGDIR=$work/mpl XDG_CACHE_HOME=$work/cache
cd "$work/pwtools/test"
python -m pytest -q -n 2 -p no:cacheprovider --timeout=300 --continue-on-collection-errors \
    $VP_ARGS -o junit_family=xunit2 --junitxml="$work/junit.xml" </dev/null
cd /
rm -f "$out"
python3 /opt/vp/results.py "$out" "junit:$work/junit.xml"

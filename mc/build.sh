#!/bin/bash
# Incremental in-place build of /repo's CPU extensions (into git-ignored files only).
# Same steps as the project's own offline build; serialised by a lock.
cd /repo || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PIP_NO_INDEX=1 SETUPTOOLS_SCM_PRETEND_VERSION=0.9.3
export MAX_JOBS=8 USE_NINJA=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1
mkdir -p build
exec 9>build/.verif.lock
flock 9
sums=build/.sources.sha256
stamp=build/.verif.ok
find torch_harmonics -type f \( -name '*.cpp' -o -name '*.h' -o -name '*.cc' -o -name '*.hpp' \) \
    | LC_ALL=C sort | xargs -r sha256sum > $sums.new
sha256sum setup.py >> $sums.new
sos() { ls -d *.so torch_harmonics/*/_C*.so 2>/dev/null | LC_ALL=C sort | xargs -r sha256sum; }
# up to date: these very binaries were linked by this script from exactly these sources
if [ -f $stamp ] && [ "$(sos | wc -l)" -ge 4 ] && { cat $sums.new; sos; } | cmp -s - $stamp; then
    rm -f $sums.new; echo "build: up to date"; exit 0
fi
# ninja compares times only: touch every source whose content differs from the last known build
if [ -f $sums ]; then
    grep -vxFf $sums $sums.new | cut -c67- | grep -v '^setup.py$' | while read -r f; do touch "$f"; done
fi
grep -v ' setup.py$' $sums.new > $sums.tmp
if ! /opt/venv/bin/python setup.py build_ext --inplace > build/verif_build.log 2>&1; then
    tail -20 build/verif_build.log >&2
    rm -f $sums.new $sums.tmp
    echo "build: extensions do not build" >&2
    exit 2
fi
{ cat $sums.new; sos; } > $stamp
mv $sums.tmp $sums
rm -f $sums.new
echo "build: ok"

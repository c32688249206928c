#!/bin/bash
# Brings the in-place Cython extensions of $JPT_REPO (default /repo) up to date with its sources.
# Everything written is git-ignored there.
R=${JPT_REPO:-/repo}
if [ "$R" = /repo ] && [ -f /opt/vp/build.sh ]; then
    bash /opt/vp/build.sh ext && exit 0
fi
export PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1
cd "$R" || exit 1
mkdir -p build
sums=build/.verif-source-sums
find setup.py src -type f \( -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' -o -name setup.py \) -print0 \
    | sort -z | xargs -0 sha256sum > $sums.new
if [ -f $sums ]; then
    grep -vxFf $sums $sums.new | cut -c67- | while read -r f; do touch "$f"; done
else
    find src \( -name '*.pyx' -o -name '*.pxd' \) -exec touch {} +
fi
mv $sums.new $sums
PYTHONPATH="$R/src" /opt/venv/bin/python setup.py build_ext --inplace -j 6 > build/verif_build_ext.log 2>&1 || {
    tail -40 build/verif_build_ext.log; exit 1; }

#!/bin/bash
# private regression: the (unbuilt) Catch suite of the repo against /repo's tree
R=${VERIF_REPO:-/repo}
mkdir -p /tmp/c2/cwd/BUILD; ln -sfn $R/misc /tmp/c2/cwd/misc
cd /tmp/c2/cwd
i=0
for v in "-DHOMOG2D_ENABLE_VRTP -DHOMOG2D_USE_SVG_IMPORT" "-DHOMOG2D_OPTIMIZE_SPEED" "-DNUMTYPE=float" "-DNUMTYPE=longdouble" ; do
i=$((i+1))
( v=${v/longdouble/"long double"}; 
if [ $i = 4 ]; then A=(-DNUMTYPE="long double"); elif [ $i = 3 ]; then A=(-DNUMTYPE=float); else A=($v); fi
g++ -std=c++17 -w -I/tmp/c2 "${A[@]}" -O1 -o ../t$i $R/misc/homog2d_test.cpp -lCatch2 -ltinyxml2 2>&1 | grep -E "error" | head -20; ../t$i > ../out$i.txt 2>&1; echo "== $v"; grep -A12 "FAILED" ../out$i.txt | head -60; tail -3 ../out$i.txt) > ../res$i.txt 2>&1 &
done; wait; cat ../res?.txt

#!/bin/bash
# ex.sh OUT "roots" FILE : run the extractor with the project's real flags
R=${VERIF_REPO:-/repo}
exec /verif/build/vcextract "$1" "$2" "$3" -- -std=c++14 -include /opt/vp/cmake/compat.h -resource-dir /usr/lib/llvm-18/lib/clang/18 -I$R -I$R/utils -I$R/extractor -I$R/decoder -I$R/mteval -I$R/klm -I$R/training/utils -I$R/_build -I$R/_build/decoder -I/usr/include/eigen3 -DHAVE_CONFIG_H

#!/bin/bash
# Builds demo.cpp with /repo's engine sources and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I="-I$D -I$R/src -I$R/src/Engine -I$R/src/Engine/Mandarin -I$R/src/Engine/gramambular2 -isystem /usr/include/Fcitx5/Core -isystem /usr/include/Fcitx5/Config -isystem /usr/include/Fcitx5/Utils"
F="-std=c++17 -O0 -w -D_GLIBCXX_ASSERTIONS -DFMT_SHARED -include $T/defs.h $DEMO_FLAGS"
echo '#define FCITX_GETTEXT_DOMAIN "fcitx5-mcbopomofo"' > "$T/defs.h"
S=$(ls "$R"/src/InputMacro.cpp "$R"/src/Engine/*.cpp "$R"/src/Engine/gramambular2/*.cpp "$R"/src/Engine/Mandarin/*.cpp "$R"/src/ChineseNumbers/*.cpp | grep -v -i -E '(Tests?|Benchmark)[.]cpp$')
printf '%s\n' $S "$D/demo.cpp" | xargs -P 8 -I{} sh -c "g++ $F $I -c {} -o $T/\$(basename {}).o" || exit 99
g++ $DEMO_FLAGS "$T"/*.o -o "$T/demo" -lFcitx5Utils -lfmt -licuuc -licui18n -lpthread || exit 99
mkdir -p "$T/s" && cd "$T/s" || exit 99
export DEMO_SCRATCH=$T/s LC_ALL=C.UTF-8
timeout 60 "$T/demo"

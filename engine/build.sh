#!/bin/bash
# builds the symbolic executor into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p ../build
L=/usr/lib/llvm-18
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3   # z3 5.x (faster on integer arithmetic); fall back to the distribution's 4.8.12
if [ -f $Z/lib/libz3.so -a -f $Z/include/z3++.h ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -lz3 -Wl,-rpath,$Z/lib"; else ZI=""; ZL="-lz3"; fi
if [ ! -x ../build/symex ] || [ -n "$(find . -maxdepth 1 \( -name '*.h' -o -name engine.cpp \) -newer ../build/symex)" ]; then
rm -f ../build/symex
g++ -O2 -std=c++17 -fexceptions -w $ZI -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS engine.cpp -o ../build/symex.tmp.$$ -L$L/lib -lLLVM-18 $ZL
mv ../build/symex.tmp.$$ ../build/symex
fi

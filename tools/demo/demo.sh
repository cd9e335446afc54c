#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++14 -w -g -I"$D" -I/repo/include -isystem/repo/trick_source -isystem/repo/include/trick/compat -DTRICK_VER=25 -DTRICK_MINOR=1 -DUSE_ER7_UTILS_INTEGRATORS -D_HAVE_GSL "$D/demo.cpp" -o "$W/demo" -L/repo/lib -Wl,--start-group -ltrick_mm -ltrick_units -ltrick -ltrick_pyip -ltrick_connection_handlers -ltrick_comm -ler7_utils -Wl,--end-group -lpython3.12 -ludunits2 -lgsl -lgslcblas -lpthread -lrt -ldl -lm || exit 99
cd "$W" && timeout 60 ./demo > out.txt 2>&1; rc=$?
tail -3 out.txt; exit $rc

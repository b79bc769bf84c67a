#!/bin/bash
# Cross-validation of the reference models; not a registered check.  Needs ICU headers and Perl (Unicode 15.0).
cd "$(dirname "$0")" || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
for s in ucd oracle_seg oracle_bidi oracle_case mon; do g++ -std=c++17 -O2 -I/repo -c ../src/$s.cpp -Dmain=mon_main -o "$t/$s.o" & done
g++ -std=c++17 -O2 -I/repo -c xval.cpp -o "$t/xval.o" & wait
g++ "$t"/*.o -licui18n -licuuc -o "$t/xval" || exit 2
"$t/xval" official ../ucd
"$t/xval" icu ../ucd "${1:-200000}" "${2:-1}"
"$t/xval" emit ../ucd "${3:-20000}" "${2:-1}" | perl perl.pl

prop="C34"; mods="asn1"; flags="NONE"
needs="an encoding nested more than sixteen levels deep"
breaks="elements from the seventeenth level on are printed with the indentation of the sixteenth"
edits=[("src/asn1/asn1_dump.cpp","        for (std::size_t i = 0; i < depth; i++) printf(\"   \");\n        for (const","        printf(\"%*s\", (int)(depth < 16 ? depth : 16) * 3, \"\");\n        for (const")]
demo_sh='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cat > "$T/d.cpp" <<'X'
#include <gmlib/asn1/asn1_dump.h>
#include <vector>
int main(){ std::vector<unsigned char> b; for (int i = 0; i < 20; i++) { b.insert(b.begin(), (unsigned char)b.size()); b.insert(b.begin(), 0x30); } return asn1::asn1_dump(b.data(), b.size()); }
X
g++ -std=c++17 -w -I include "$T/d.cpp" src/asn1/*.cpp -o "$T/d" || exit 2
"$T/d" > "$T/o" || exit 1
[ "$(wc -l < "$T/o")" = 20 ] || exit 1
tail -1 "$T/o" | grep -q "^$(printf '%57s' '')30" || { echo "the innermost element is not indented by its depth"; exit 1; }
'''

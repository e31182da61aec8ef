prop="C11"; mods="memory_utils"; flags="OPT"
needs="an XOR of fewer than 16 bytes whose output is its second input"
breaks="short lengths copy the first input to the output and then XOR the second, which the copy has destroyed"
edits=[("src/memory_utils/memxor.cpp","    while (size >= 8)\n    {\n        internal::memxor8(out_ptr, in1_ptr, in2_ptr);\n        out_ptr += 8, in1_ptr += 8, in2_ptr += 8, size -= 8;\n    }\n\n    while (size >= 4)\n    {\n        internal::memxor4(out_ptr, in1_ptr, in2_ptr);\n        out_ptr += 4, in1_ptr += 4, in2_ptr += 4, size -= 4;\n    }\n\n    while (size >= 2)\n    {\n        internal::memxor2(out_ptr, in1_ptr, in2_ptr);\n        out_ptr += 2, in1_ptr += 2, in2_ptr += 2, size -= 2;\n    }\n\n    while (size >= 1)\n    {\n        internal::memxor1(out_ptr, in1_ptr, in2_ptr);\n        out_ptr += 1, in1_ptr += 1, in2_ptr += 1, size -= 1;\n    }\n","    while (size >= 8)\n    {\n        internal::memxor8(out_ptr, in1_ptr, in2_ptr);\n        out_ptr += 8, in1_ptr += 8, in2_ptr += 8, size -= 8;\n    }\n\n    // at most seven bytes are left\n    for (std::size_t i = 0; i < size; i++)\n    {\n        out_ptr[i] = in1_ptr[i];\n    }\n    for (std::size_t i = 0; i < size; i++)\n    {\n        out_ptr[i] ^= in2_ptr[i];\n    }\n")]
demo=r'''
#include <gmlib/memory_utils/memxor.h>
#include <cstdio>
#include <cstring>
int main(){
    for (int n = 0; n < 40; n++) {
        unsigned char a[40], b[40], c[40];
        for (int i = 0; i < 40; i++) a[i] = i * 7, b[i] = i * 13 + 1, c[i] = a[i] ^ b[i];
        memory_utils::memxor_n(b, a, b, n);
        if (memcmp(b, c, n)) { printf("xor of %d bytes into the second input is wrong\n", n); return 1; }
    }
    return 0;
}
'''

prop="C31"; mods="memory_utils"; flags="OPT"; cf="-O1 -g -fsanitize=address"
needs="an XOR of a length that is not a multiple of four, at the very end of its buffers"
breaks="the last one to three bytes are loaded as a whole word, reading behind the inputs"
edits=[("src/memory_utils/memxor.cpp","    while (size >= 2)\n    {\n        internal::memxor2(out_ptr, in1_ptr, in2_ptr);\n        out_ptr += 2, in1_ptr += 2, in2_ptr += 2, size -= 2;\n    }\n\n    while (size >= 1)\n    {\n        internal::memxor1(out_ptr, in1_ptr, in2_ptr);\n        out_ptr += 1, in1_ptr += 1, in2_ptr += 1, size -= 1;\n    }","    if (size)\n    {\n        std::uint8_t word[4];\n        internal::memxor4(word, in1_ptr, in2_ptr);\n        for (std::size_t i = 0; i < size; i++)\n        {\n            out_ptr[i] = word[i];\n        }\n    }")]
demo=r'''
#include <gmlib/memory_utils/memxor.h>
int main(){
    for (int n = 0; n < 70; n++) {
        unsigned char *a = new unsigned char[n + 1] + 1, *b = new unsigned char[n + 1] + 1, *o = new unsigned char[n + 1] + 1;
        for (int i = 0; i < n; i++) a[i] = i, b[i] = 3 * i;
        memory_utils::memxor_n(o, a, b, n);
        for (int i = 0; i < n; i++) if (o[i] != (unsigned char)(i ^ (3 * i))) return 1;
        delete[] (a - 1); delete[] (b - 1); delete[] (o - 1);
    }
    return 0;
}
'''

prop="C03"; mods="sm4"; flags="SIMD"; cf="-O1"
needs="the AVX2 build, a batch that leaves at least 8 blocks for the 8-block routine, and an output buffer whose alignment differs from the input's"
breaks="the 8-block routine picks aligned stores from the alignment of the input, and faults when the output is not aligned"
edits=[("src/sm4/sm4_lang18.cpp","""    _mm256_storeu_si256((__m256i *)out + 0, tmp[0]);
    _mm256_storeu_si256((__m256i *)out + 1, tmp[1]);
    _mm256_storeu_si256((__m256i *)out + 2, tmp[2]);
    _mm256_storeu_si256((__m256i *)out + 3, tmp[3]);
}

/**
 * @brief               SM4 block encryption/decryption
 * @param round_key     32-dword encryption/decryption round key
 * @param out           16x16-byte output block""","""    if (((std::size_t)in & 31) == 0)
    {
        _mm256_store_si256((__m256i *)out + 0, tmp[0]);
        _mm256_store_si256((__m256i *)out + 1, tmp[1]);
        _mm256_store_si256((__m256i *)out + 2, tmp[2]);
        _mm256_store_si256((__m256i *)out + 3, tmp[3]);
    }
    else
    {
        _mm256_storeu_si256((__m256i *)out + 0, tmp[0]);
        _mm256_storeu_si256((__m256i *)out + 1, tmp[1]);
        _mm256_storeu_si256((__m256i *)out + 2, tmp[2]);
        _mm256_storeu_si256((__m256i *)out + 3, tmp[3]);
    }
}

/**
 * @brief               SM4 block encryption/decryption
 * @param round_key     32-dword encryption/decryption round key
 * @param out           16x16-byte output block""")]
demo=r'''
#include <gmlib/sm4/sm4.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16], m[1024]; alignas(32) unsigned char in[1024], out[1100], one[16];
    for (int i = 0; i < 16; i++) k[i] = i * 17; for (int i = 0; i < 1024; i++) m[i] = i * 5 + 3;
    sm4::SM4 e(k, sm4::SM4::ENCRYPTION); memcpy(in, m, 1024);
    for (int n = 1; n < 64; n++) for (int o = 0; o < 33; o++) {
        e.encrypt_blocks(out + o, in, n);
        for (int i = 0; i < n; i++) { e.encrypt_block(one, m + 16 * i); if (memcmp(one, out + o + 16 * i, 16)) { printf("block %d of %d wrong at offset %d\n", i, n, o); return 1; } }
    }
    return 0;
}
'''

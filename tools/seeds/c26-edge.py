from _fix9 import FIX9
prop="C26"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="a random value of exactly N-1 (mapped to 0+1) or a hash with that residue"
breaks="the random value N-1 is used as r = N, so that w is one and the signature reveals the key"
edits=[("src/sm9/sm9_field.cpp","    number::uint256_sub_borrow_uint32(n_sub1, N.v, 1);\n    if (number::uint256_cmp(a, n_sub1) >= 0)\n    {\n        number::uint256_sub_borrow(a, a, n_sub1);\n    }","    number::uint256_sub_borrow_uint32(n_sub1, N.v, 1);\n    if (number::uint256_cmp(a, n_sub1) > 0)\n    {\n        number::uint256_sub_borrow(a, a, n_sub1);\n    }")]
demo=FIX9+r'''
int main(){
    // k = N - 1 wraps to a master key of 1
    unsigned char k[32]; memcpy(k, SM9_CURVE_N, 32); k[31] -= 1;
    ListRng g; g.q = {Bytes(k, k + 32)}; sm9::SM9SignMasterPrivateKey<sm3::SM3> m; m.gen_priv(g);
    unsigned char o[32]; m.get_priv(o);
    if (memcmp(o, num(1).data(), 32)) { printf("the generated key is not in [1, N-1]\n"); return 1; }
    return 0;
}
'''

from _fix9 import FIX9
prop="C27"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="a compressed-form signature followed by extra bytes"
breaks="bytes after a compressed signature are ignored"
edits=[("include/gmlib/sm9/sm9.h","    if (size + 32 != sig_len)\n    {\n        return false;\n    }","    if (size + 32 != sig_len && sig_len > MAX_SIG_SIZE)\n    {\n        return false;\n    }\n    if (size + 32 > sig_len)\n    {\n        return false;\n    }")]
demo=FIX9+r'''
int main(){
    const unsigned char* id = (const unsigned char*)"Alice"; sm9::SM9SignMasterPrivateKey<sm3::SM3> m(num(77).data());
    ListRng g; g.q = {Bytes(32, 9)}; auto k = m.gen_SignPrivateKey(id, 5, g);
    for (auto pc : {sm9::SM9EcPC::UNCOMPRESSED, sm9::SM9EcPC::COMPRESSED, sm9::SM9EcPC::MIX}) {
        unsigned char s[200] = {}; std::size_t n; k.sign(s, &n, id, 5, g, pc);
        if (!k.verify(s, n, id, 5, id, 5)) return 3;
        if (k.verify(s, n + 1, id, 5, id, 5)) { printf("a trailing byte was accepted\n"); return 1; }
    }
    return 0;
}
'''

from _fix9 import FIX9
prop="C27"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="verification through the private key with an identifier that is not the default"
breaks="the identifier of the function is ignored"
edits=[("include/gmlib/sm9/sm9.h","    return pub_.verify(sig, sig_len, msg, msg_len, id, id_len, hid);","    return pub_.verify(sig, sig_len, msg, msg_len, id, id_len);")]
demo=FIX9+r'''
int main(){
    sm9::SM9SignMasterPrivateKey<sm3::SM3> m(num(77).data()); ListRng r; r.q = {num(5)};
    auto k = m.gen_SignPrivateKey((const unsigned char*)"Bob", 3, r, 9);
    unsigned char s[97]; std::size_t n;
    k.sign(s, &n, (const unsigned char*)"hi", 2, r);
    if (!k.verify(s, n, (const unsigned char*)"hi", 2, (const unsigned char*)"Bob", 3, 9)) { printf("own signature refused\n"); return 1; }
    return 0;
}
'''

// OpenSSL libcrypto as the reference model.
#pragma once
#include "vf.h"
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
namespace ossl {
using vf::Bytes;
using vf::u8;
[[noreturn]] inline void die(const char* w)
{
    fprintf(stderr, "harness: openssl failed in %s\n", w);
    exit(3);
}
inline const EVP_MD* sm3_md()
{
    static const EVP_MD* m = EVP_MD_fetch(nullptr, "SM3", nullptr);
    if (!m) die("fetch SM3");
    return m;
}
inline Bytes sm3(const void* p, size_t n)
{
    Bytes    d(32);
    unsigned l = 32;
    if (EVP_Digest(p, n, d.data(), &l, sm3_md(), nullptr) != 1 || l != 32)
        die("sm3");
    return d;
}
inline Bytes sm3(const Bytes& b) { return sm3(b.data(), b.size()); }
inline Bytes hmac_sm3(const Bytes& key, const Bytes& msg)
{
    // RFC 2104 over the reference SM3 (independent of OpenSSL's HMAC)
    Bytes k = key.size() > 64 ? sm3(key) : key;
    k.resize(64, 0);
    Bytes a(k), b(k);
    for (auto& x : a) x ^= 0x36;
    for (auto& x : b) x ^= 0x5c;
    a.insert(a.end(), msg.begin(), msg.end());
    Bytes d = sm3(a);
    b.insert(b.end(), d.begin(), d.end());
    return sm3(b);
}
inline EVP_CIPHER* cipher(const std::string& name)
{
    static std::map<std::string, EVP_CIPHER*> m;
    auto                                      it = m.find(name);
    if (it != m.end()) return it->second;
    EVP_CIPHER* c = EVP_CIPHER_fetch(nullptr, name.c_str(), nullptr);
    if (!c) die(name.c_str());
    m[name] = c;
    return c;
}
// one-shot raw cipher, no padding
inline Bytes crypt(const std::string& name, const Bytes& key, const Bytes& iv,
                   const Bytes& in, int enc)
{
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    if (EVP_CipherInit_ex2(c, cipher(name), key.data(),
                           iv.empty() ? nullptr : iv.data(), enc, nullptr) != 1)
        die("init");
    EVP_CIPHER_CTX_set_padding(c, 0);
    Bytes out(in.size() + 32);
    int   l = 0, l2 = 0;
    if (!in.empty() && EVP_CipherUpdate(c, out.data(), &l, in.data(),
                                        (int)in.size()) != 1)
        die("update");
    if (EVP_CipherFinal_ex(c, out.data() + l, &l2) != 1) die("final");
    out.resize(l + l2);
    EVP_CIPHER_CTX_free(c);
    return out;
}
} // namespace ossl

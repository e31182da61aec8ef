// Uniform view of gmlib's block cipher mode objects and of their reference.
#pragma once
#include "gcm_ref.h"
#include <gmlib/aes/aes_mode.h>
#include <gmlib/sm4/sm4_mode.h>
#include <memory>
namespace modes {
using namespace vf;
namespace bm = block_cipher_mode;
enum Mode { ECB, CBC, CFB, OFB, CTR, GCM };
static const char* const MODE_NAME[] = {"ECB", "CBC", "CFB", "OFB", "CTR", "GCM"};
static const char* const CIPHER_NAME[] = {"SM4", "AES-128", "AES-192", "AES-256"};
static const size_t      KEYLEN[]      = {16, 16, 24, 32};

struct Obj
{
    virtual ~Obj() {}
    // GCM: iv of any length and aad; others: 16-byte iv (unused for ECB)
    virtual void init(const Bytes& key, const Bytes& iv, const Bytes& aad) = 0;
    virtual bool reset(const Bytes& iv)                                  = 0;
    virtual bm::BlockCipherMode<16>* base()                              = 0;
    virtual void get_tag(u8*) {}
    virtual void set_tag(const u8*) {}
    virtual std::unique_ptr<Obj> clone() = 0;
};
template <class T>
struct Impl : Obj
{
    T                        t;
    bm::BlockCipherMode<16>* base() override { return &t; }
};
template <class T>
struct EcbO : Impl<T>
{
    EcbO() {}
    EcbO(const Bytes& k, const Bytes&, const Bytes&) { Buf b(k); this->t = T(b.p()); }
    void init(const Bytes& k, const Bytes&, const Bytes&) override { Buf b(k); this->t.init(b); }
    bool reset(const Bytes&) override { this->t.reset(); return true; }
    std::unique_ptr<Obj> clone() override { return std::unique_ptr<Obj>(new EcbO(*this)); }
};
template <class T>
struct IvO : Impl<T>
{
    IvO() {}
    IvO(const Bytes& k, const Bytes& iv, const Bytes&) { Buf b(k), v(iv); this->t = T(b.p(), v.p()); }
    void init(const Bytes& k, const Bytes& iv, const Bytes&) override { Buf b(k), v(iv); this->t.init(b, v); }
    bool reset(const Bytes& iv) override { Buf v(iv); this->t.reset(v); return true; }
    std::unique_ptr<Obj> clone() override { return std::unique_ptr<Obj>(new IvO(*this)); }
};
template <class T, bool ENC>
struct GcmO : Impl<T>
{
    GcmO() {}
    GcmO(const Bytes& k, const Bytes& iv, const Bytes& a)
    {
        Buf b(k), v(iv), x(a);
        this->t = T(b.p(), v.p(), v.size(), x.p(), x.size());
    }
    void init(const Bytes& k, const Bytes& iv, const Bytes& a) override
    {
        Buf b(k), v(iv), x(a);
        if (a.empty())
            this->t.init(b, v, v.size(), nullptr, 0);
        else
            this->t.init(b, v, v.size(), x, x.size());
    }
    bool reset(const Bytes&) override { return false; }
    void get_tag(u8* p) override { if constexpr (ENC) this->t.get_tag(p); }
    void set_tag(const u8* p) override { if constexpr (!ENC) this->t.set_tag(p); }
    std::unique_ptr<Obj> clone() override { return std::unique_ptr<Obj>(new GcmO(*this)); }
};
template <class O>
std::unique_ptr<Obj> mk(bool viactor, const Bytes& k, const Bytes& iv, const Bytes& aad)
{
    if (viactor) return std::unique_ptr<Obj>(new O(k, iv, aad));
    std::unique_ptr<Obj> o(new O());
    o->init(k, iv, aad);
    return o;
}
template <class C>
std::unique_ptr<Obj> make_c(Mode m, bool enc, bool v, const Bytes& k, const Bytes& iv, const Bytes& aad)
{
    switch (m)
    {
    case ECB: return enc ? mk<EcbO<bm::EcbEncryptor<C>>>(v, k, iv, aad) : mk<EcbO<bm::EcbDecryptor<C>>>(v, k, iv, aad);
    case CBC: return enc ? mk<IvO<bm::CbcEncryptor<C>>>(v, k, iv, aad) : mk<IvO<bm::CbcDecryptor<C>>>(v, k, iv, aad);
    case CFB: return enc ? mk<IvO<bm::CfbEncryptor<C>>>(v, k, iv, aad) : mk<IvO<bm::CfbDecryptor<C>>>(v, k, iv, aad);
    case OFB: return enc ? mk<IvO<bm::OfbEncryptor<C>>>(v, k, iv, aad) : mk<IvO<bm::OfbDecryptor<C>>>(v, k, iv, aad);
    case CTR: return enc ? mk<IvO<bm::CtrEncryptor<C>>>(v, k, iv, aad) : mk<IvO<bm::CtrDecryptor<C>>>(v, k, iv, aad);
    default: return enc ? mk<GcmO<bm::GcmEncryptor<C>, true>>(v, k, iv, aad) : mk<GcmO<bm::GcmDecryptor<C>, false>>(v, k, iv, aad);
    }
}
inline std::unique_ptr<Obj> make(int cipher, Mode m, bool enc, bool viactor, const Bytes& k, const Bytes& iv, const Bytes& aad = {})
{
    switch (cipher)
    {
    case 0: return make_c<sm4::SM4>(m, enc, viactor, k, iv, aad);
    case 1: return make_c<aes::AES128>(m, enc, viactor, k, iv, aad);
    case 2: return make_c<aes::AES192>(m, enc, viactor, k, iv, aad);
    default: return make_c<aes::AES256>(m, enc, viactor, k, iv, aad);
    }
}
inline std::string ecb(int cipher) { return std::string(CIPHER_NAME[cipher]) + "-ECB"; }
// reference result for a complete message (multiple of 16 for ECB/CBC)
inline Bytes ref(int cipher, Mode m, bool enc, const Bytes& k, const Bytes& iv, const Bytes& in)
{
    switch (m)
    {
    case CTR: return gcmref::ctr(ecb(cipher), k, iv, in);
    case GCM: return gcmref::gctr(ecb(cipher), k, iv, in);
    default:
    {
        std::string n = std::string(CIPHER_NAME[cipher]) + "-" + MODE_NAME[m];
        return ossl::crypt(n, k, m == ECB ? Bytes() : iv, in, enc);
    }
    }
}
// reference output for a prefix of the data: whole blocks only for ECB/CBC
inline Bytes ref_prefix(int cipher, Mode m, bool enc, const Bytes& k, const Bytes& iv, const Bytes& in)
{
    if (m == ECB || m == CBC)
        return ref(cipher, m, enc, k, iv, Bytes(in.begin(), in.begin() + in.size() / 16 * 16));
    return ref(cipher, m, enc, k, iv, in);
}
} // namespace modes

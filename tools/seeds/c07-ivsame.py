prop="C07"; mods="sm4 memory_utils"; flags="OPT"
needs="a CFB encryptor that holds part of a block and is reset with the value its chaining register already holds"
breaks="the reset is skipped as unnecessary, so the buffered partial block leaks into the next message"
edits=[("include/gmlib/block_cipher_mode/cfb_mode.h","""    void reset(const std::uint8_t* iv) noexcept
    {
        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
        std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
    }

private:
    void update_blocks(std::uint8_t*       out,
                       const std::uint8_t* in,
                       std::size_t         block_num) override
    {
        constexpr std::size_t BLOCK_SIZE = Cipher::BLOCK_SIZE;
""","""    void reset(const std::uint8_t* iv) noexcept
    {
        if (std::memcmp(iv_, iv, Cipher::BLOCK_SIZE) != 0)
        {
            this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
            std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
        }
    }

private:
    void update_blocks(std::uint8_t*       out,
                       const std::uint8_t* in,
                       std::size_t         block_num) override
    {
        constexpr std::size_t BLOCK_SIZE = Cipher::BLOCK_SIZE;
""")]
demo=r'''
#include <gmlib/sm4/sm4.h>
#include <gmlib/block_cipher_mode/cfb_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16] = {1}, iv[16] = {2}, p[40] = {3}, a[64] = {0}, b[64] = {0}, w[64]; size_t n, na, nb;
    block_cipher_mode::CfbEncryptor<sm4::SM4> e(k, iv); e.do_final(a, &na, p, 40);
    block_cipher_mode::CfbEncryptor<sm4::SM4> f(k, iv); f.update(w, &n, p, 5); f.reset(iv); f.do_final(b, &nb, p, 40);
    if (na != nb || memcmp(a, b, 40)) { puts("a reset encryptor differs from a new one"); return 1; }
    return 0;
}
'''

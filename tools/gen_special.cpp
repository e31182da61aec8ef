// Generates harness/special.h: small multiples of the generators whose coordinates have unusual words.
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <vector>
#include <string>
#include <map>
#include <thread>
#include <mutex>
#include <algorithm>
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm9/sm9.h>
using u8 = uint8_t; using u64 = uint64_t;
struct Hit { u64 k; int rank; };
// classes of one 32 byte big-endian value
static void classes(const u8* b, std::vector<int>& o)
{
    o.clear();
    u64 w[4]; for (int i = 0; i < 4; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | b[i * 8 + j]; }
    if (!(w[0] >> 40)) o.push_back(0);
    if (!(w[3] & 0xffffff)) o.push_back(1);
    for (int i = 0; i < 4; i++)
    {
        if (!(w[i] >> 48)) o.push_back(10 + i);
        if (w[i] >> 48 == 0xffff) o.push_back(20 + i);
        if (!(w[i] & 0xffff)) o.push_back(30 + i);
        if ((w[i] & 0xffff) == 0xffff) o.push_back(40 + i);
        if (!((w[i] >> 24) & 0xffff)) o.push_back(50 + i);
    }
}
struct Tab
{
    std::map<int, std::vector<u64>> m; size_t cap;
    void add(int coord, const u8* b, u64 k)
    {
        std::vector<int> c; classes(b, c);
        for (int x : c) { auto& v = m[coord * 100 + x]; if (v.size() < cap) v.push_back(k); }
    }
    std::vector<u64> all() const { std::vector<u64> r; for (auto& e : m) r.insert(r.end(), e.second.begin(), e.second.end()); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
};
static Tab merge(std::vector<Tab>& t, size_t cap)
{
    Tab r; r.cap = cap;
    for (auto& x : t) for (auto& e : x.m) for (u64 k : e.second) { auto& v = r.m[e.first]; if (v.size() < cap) v.push_back(k); }
    return r;
}
static void be(u8* o, u64 k) { memset(o, 0, 32); for (int i = 0; i < 8; i++) o[31 - i] = k >> (8 * i); }
static void mont(u8* o, const u64* f) { for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) o[8 * i + j] = f[3 - i] >> (56 - 8 * j); }
template <class RUN> static Tab par(u64 N, size_t cap, RUN run)
{
    std::vector<std::thread> th; std::vector<Tab> t(8);
    for (int i = 0; i < 8; i++) t[i].cap = cap, th.emplace_back([&, i] { run(t[i], 1 + N / 8 * i, 1 + N / 8 * (i + 1)); });
    for (auto& x : th) x.join();
    return merge(t, cap);
}
using namespace sm2::internal; using namespace sm9::internal;
static void print(const char* n, const Tab& t) { auto v = t.all(); printf("static const unsigned %s[] = {", n); for (size_t i = 0; i < v.size(); i++) printf("%s%llu", i ? "," : "", (unsigned long long)v[i]); printf("};\n"); fprintf(stderr, "%s: %zu classes %zu entries\n", n, t.m.size(), v.size()); }
int main()
{
    static_assert(sizeof(sm2_fp_t) == 32, "");
    print("kSm2", par(1 << 24, 3, [](Tab& t, u64 a, u64 b) {
        u8 k[32], g1[32]; be(k, a); sm2_ec_j J; sm2_ec_j_mul_g(J, k); be(g1, 1); sm2_ec_j g; sm2_ec_j_mul_g(g, g1); sm2_ec_a G; sm2_ec_j_to_a(G, g);
        const int B = 256; static thread_local sm2_ec_j P[B]; 
        for (u64 s = a; s < b; s += B) {
            sm2_fp_t acc[B], inv, zi, z2;
            for (int i = 0; i < B; i++) { memcpy(P[i], J, sizeof J); if (i) sm2_fp_mul(acc[i], acc[i - 1], J[2]); else sm2_fp_cpy(acc[0], J[2]); sm2_ec_j_add_a(J, J, G); }
            sm2_fp_inv(inv, acc[B - 1]);
            for (int i = B - 1; i >= 0; i--) {
                if (i) sm2_fp_mul(zi, inv, acc[i - 1]); else sm2_fp_cpy(zi, inv);
                sm2_fp_mul(inv, inv, P[i][2]); sm2_fp_sqr(z2, zi); sm2_fp_mul(P[i][0], P[i][0], z2); sm2_fp_mul(z2, z2, zi); sm2_fp_mul(P[i][1], P[i][1], z2);
            }
            u8 o[32];
            for (int i = 0; i < B; i++) for (int c = 0; c < 2; c++) { sm2_fp_to_bytes(o, P[i][c]); t.add(c, o, s + i); mont(o, (const u64*)P[i][c]); t.add(2 + c, o, s + i); }
        }
    }));
    print("kSm9G1", par(1 << 24, 3, [](Tab& t, u64 a, u64 b) {
        u8 k[32], g1[32]; be(k, a); sm9_ec_j J; sm9_ec_j_mul_g(J, k); be(g1, 1); sm9_ec_j g; sm9_ec_j_mul_g(g, g1); sm9_ec_a G; sm9_ec_j_to_a(G, g);
        const int B = 256; static thread_local sm9_ec_j P[B];
        for (u64 s = a; s < b; s += B) {
            sm9_fp_t acc[B], inv, zi, z2;
            for (int i = 0; i < B; i++) { memcpy(P[i], J, sizeof J); if (i) sm9_fp_mul(acc[i], acc[i - 1], J[2]); else sm9_fp_cpy(acc[0], J[2]); sm9_ec_j_add_a(J, J, G); }
            sm9_fp_inv(inv, acc[B - 1]);
            for (int i = B - 1; i >= 0; i--) {
                if (i) sm9_fp_mul(zi, inv, acc[i - 1]); else sm9_fp_cpy(zi, inv);
                sm9_fp_mul(inv, inv, P[i][2]); sm9_fp_sqr(z2, zi); sm9_fp_mul(P[i][0], P[i][0], z2); sm9_fp_mul(z2, z2, zi); sm9_fp_mul(P[i][1], P[i][1], z2);
            }
            u8 o[32];
            for (int i = 0; i < B; i++) for (int c = 0; c < 2; c++) { sm9_fp_to_bytes(o, P[i][c]); t.add(c, o, s + i); mont(o, (const u64*)P[i][c]); t.add(2 + c, o, s + i); }
        }
    }));
    print("kSm9G2", par(1 << 22, 2, [](Tab& t, u64 a, u64 b) {
        u8 k[32], g1[32]; be(k, a); sm9_ec2_j J; sm9_ec2_j_mul_g(J, k); be(g1, 1); sm9_ec2_j g; sm9_ec2_j_mul_g(g, g1); sm9_ec2_a G; sm9_ec2_j_to_a(G, g);
        const int B = 256; static thread_local sm9_ec2_j P[B];
        for (u64 s = a; s < b; s += B) {
            sm9_fp2_t acc[B], inv, zi, z2;
            for (int i = 0; i < B; i++) { memcpy(P[i], J, sizeof J); if (i) sm9_fp2_mul(acc[i], acc[i - 1], J[2]); else sm9_fp2_cpy(acc[0], J[2]); sm9_ec2_j_add_a(J, J, G); }
            sm9_fp2_inv(inv, acc[B - 1]);
            for (int i = B - 1; i >= 0; i--) {
                if (i) sm9_fp2_mul(zi, inv, acc[i - 1]); else sm9_fp2_cpy(zi, inv);
                sm9_fp2_mul(inv, inv, P[i][2]); sm9_fp2_sqr(z2, zi); sm9_fp2_mul(P[i][0], P[i][0], z2); sm9_fp2_mul(z2, z2, zi); sm9_fp2_mul(P[i][1], P[i][1], z2);
            }
            u8 o[64];
            for (int i = 0; i < B; i++) for (int c = 0; c < 2; c++) { sm9_fp2_to_bytes(o, P[i][c]); t.add(2 * c, o, s + i); t.add(2 * c + 1, o + 32, s + i); }
        }
    }));
    print("kSm9GT", par(1 << 21, 1, [](Tab& t, u64 a, u64 b) {
        u8 k[32], g1[32]; be(g1, 1); be(k, a); sm9_ec2_j g; sm9_ec2_j_mul_g(g, g1); sm9_ec2_a Q; sm9_ec2_j_to_a(Q, g);
        sm9_fp12_t G, X; sm9_pairing_P1_Q(G, Q); sm9_fp12_pow(X, G, k);
        u8 o[384];
        for (u64 s = a; s < b; s++) { sm9_fp12_to_bytes(o, X); for (int i = 0; i < 12; i++) t.add(i, o + 32 * i, s); sm9_fp12_mul(X, X, G); }
    }));
}

// libs: VirtualRobot
// P15: compressed and binary data are read back as written
#include "common/robotgen.h"
#include <VirtualRobot/Compression/CompressionBZip2.h>
#include <VirtualRobot/Compression/CompressionRLE.h>
#include <VirtualRobot/XML/FileIO.h>
#include <dlfcn.h>
#include <fstream>
#include <cstring>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    typedef std::vector<unsigned char> Bytes;
    // the system's libbz2 as an independent implementation of the format
    typedef int (*Comp)(char*, unsigned*, char*, unsigned, int, int, int);
    typedef int (*Decomp)(char*, unsigned*, char*, unsigned, int, int);
    Comp sysComp = nullptr;
    Decomp sysDecomp = nullptr;

    Bytes content(Src& s, std::string& d, bool big)
    {
        size_t n = big ? (size_t)s.integer(1, 6) * 150000 + s.draw(2000) : s.weighted({1, 6, 3}) == 0 ? s.draw(3) : s.chance(0.3) ? s.draw(40000) : s.draw(3000);
        Bytes b;
        // a sequence of parts of different kinds; random bytes come from a generator, so that the record of draws stays short
        int parts = (int)s.integer(1, 5);
        for (int p = 0; p < parts && (b.size() < n || !n); p++)
        {
            size_t m = p == parts - 1 ? n - b.size() : std::min(n - b.size(), (size_t)s.draw(n + 1));
            uint64_t r = s.draw(1u << 30);
            auto next = [&r] { r = r * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(r >> 33); };
            int kind = s.weighted({3, 3, 3, 2, 2, 2, 2});
            d += " " + std::to_string(kind) + ":" + std::to_string(m);
            size_t e = b.size() + m;
            switch (kind)
            {
                case 0: while (b.size() < e) b.push_back(next() & 255); break;
                case 1: { unsigned char x = next() & 255; while (b.size() < e) b.push_back(x); break; }
                case 2: { unsigned mx = (unsigned)s.pick(std::vector<int>{2, 4, 5, 130, 260, 1000, 33000, 70000}); while (b.size() < e) { unsigned char x = next() % 3; size_t k = 1 + next() % mx; while (k-- && b.size() < e) b.push_back(x); } break; }
                case 3: { unsigned per = 1 + (unsigned)s.draw(700); Bytes w; for (unsigned i = 0; i < per; i++) w.push_back(next() & 255); for (size_t i = 0; b.size() < e; i++) b.push_back(w[i % per]); break; }
                case 4: { unsigned k = 2 + (unsigned)s.draw(10); while (b.size() < e) b.push_back(next() % k); break; }
                case 5: for (size_t i = 0; b.size() < e; i++) b.push_back((unsigned char)i); break;
                default: { Bytes x{97}, y{97, 98}; while (y.size() < m) { Bytes z = y; z.insert(z.end(), x.begin(), x.end()); x = y; y = z; } for (size_t i = 0; b.size() < e; i++) b.push_back(y[i]); }
            }
        }
        return b;
    }
    std::string diff(const Bytes& a, const Bytes& b)
    {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
        return std::to_string(a.size()) + " and " + std::to_string(b.size()) + " bytes, different at " + std::to_string(i);
    }
    std::string bzWrite(Src& s, pbt::Ctx& c, const Bytes& b, const std::string& prefix, const std::string& suffix)
    {
        std::stringstream o;
        o << prefix;
        {
            CompressionBZip2 z((std::ostream*)&o);
            size_t p = 0;
            bool whole = s.chance(0.3);
            while (p < b.size())
            {
                size_t n = whole ? b.size() : 1 + (s.chance(0.3) ? s.draw(3) : s.draw(std::max<size_t>(20, b.size() / 3)));
                n = std::min(n, b.size() - p);
                Bytes part(b.begin() + p, b.begin() + p + n);
                c.check(z.write(part.data(), (int)n), "write", "write failed");
                p += n;
            }
            if (s.chance(0.7)) c.check(z.close(), "close", "close failed");
            // otherwise the destructor closes
        }
        o << suffix;
        return o.str();
    }
    // read all data in parts; with at least one byte more requested than there is, so that the end is reached
    bool bzRead(Src& s, const std::string& file, size_t skip, size_t expect, Bytes& out, std::string* rest)
    {
        std::stringstream f(file);
        f.seekg((std::streamoff)skip);
        CompressionBZip2 z((std::istream*)&f);
        bool whole = s.chance(0.3);
        while (true)
        {
            size_t want = whole ? expect + 1 : 1 + (s.chance(0.3) ? s.draw(3) : s.draw(std::max<size_t>(20, expect / 3)));
            Bytes buf(want + 8, 0xAB);
            int n = -1;
            if (!z.read(buf.data(), (int)want, n)) return false;
            if (n < 0 || n > (int)want) throw pbt::Failure{"read-count", "read reports " + std::to_string(n) + " of " + std::to_string(want) + " bytes"};
            for (size_t i = want; i < buf.size(); i++) if (buf[i] != 0xAB) throw pbt::Failure{"read-overrun", "read wrote behind the buffer"};
            out.insert(out.end(), buf.begin(), buf.begin() + n);
            if (n < (int)want) break;
            if (out.size() > expect + 3000000) return false;
        }
        if (!z.close()) return false;
        if (rest) { std::stringstream r; r << f.rdbuf(); *rest = r.str(); }
        return true;
    }
    void bzip(Src& s, pbt::Ctx& c, bool big)
    {
        std::string d;
        Bytes b = content(s, d, big);
        std::string pre(s.draw(20), 'p'), suf(s.chance(0.5) ? 0 : s.draw(12000), 's');
        c.describe("parts" + d + " after " + std::to_string(pre.size()) + " before " + std::to_string(suf.size()) + " bytes");
        int mode = (int)s.draw(3);
        std::string file;
        if (mode < 2)
        {
            file = bzWrite(s, c, b, pre, suf);
            c.check(file.compare(0, pre.size(), pre) == 0 && file.compare(file.size() - suf.size(), suf.size(), suf) == 0, "frame", "data before or after the compressed data changed");
            std::string z = file.substr(pre.size(), file.size() - pre.size() - suf.size());
            Bytes g(b.size() + 16);
            unsigned n = (unsigned)g.size();
            int r = sysDecomp((char*)g.data(), &n, (char*)z.data(), (unsigned)z.size(), 0, 0);
            c.check(r == 0, "format", "bzip2 cannot decompress the data, error " + std::to_string(r));
            g.resize(n);
            c.check(g == b, "compress", "compressed data is wrong: " + diff(g, b));
            c.check(z.size() <= b.size() * 101 / 100 + 600, "size", std::to_string(b.size()) + " bytes compressed to " + std::to_string(z.size()));
        }
        else
        {
            Bytes z(b.size() + b.size() / 100 + 700);
            unsigned n = (unsigned)z.size();
            char one = 0;
            int r = sysComp((char*)z.data(), &n, b.empty() ? &one : (char*)b.data(), (unsigned)b.size(), 1 + (int)s.draw(9), 0, (int)s.draw(251));
            c.check(r == 0, "harness", "libbz2 failed");
            file = pre + std::string(z.begin(), z.begin() + n) + suf;
        }
        Bytes g;
        std::string rest;
        bool ok = bzRead(s, file, pre.size(), b.size(), g, &rest);
        c.check(ok, "read", "reading failed");
        c.check(g == b, "decompress", "data read is wrong: " + diff(g, b));
        c.check(rest == suf, "position", "after reading to the end and closing, " + std::to_string(rest.size()) + " bytes follow instead of " + std::to_string(suf.size()));
        c.label(mode < 2 ? "own data" : "data of libbz2");
        c.nontrivial(b.size() > 100);
    }
    void bzipSmall(Src& s, pbt::Ctx& c) { bzip(s, c, false); }
    void bzipBig(Src& s, pbt::Ctx& c) { bzip(s, c, true); }

    // damaged data is either refused or gives the original
    void damaged(Src& s, pbt::Ctx& c)
    {
        std::string d;
        Bytes b = content(s, d, false);
        std::string file = bzWrite(s, c, b, "", "");
        int kind = (int)s.draw(4);
        std::string how;
        if (kind == 0)
        {
            size_t n = s.draw(file.size());
            file.resize(n);
            how = "truncated to " + std::to_string(n);
        }
        else if (kind == 1)
        {
            size_t bit = s.draw(file.size() * 8);
            file[bit / 8] ^= (char)(1 << (bit % 8));
            how = "bit " + std::to_string(bit) + " flipped";
        }
        else if (kind == 2)
        {
            size_t p = s.draw(file.size()), k = 1 + s.draw(30);
            for (size_t i = p; i < std::min(p + k, file.size()); i++) file[i] = (char)s.draw(256);
            how = "bytes from " + std::to_string(p) + " overwritten";
        }
        else
        {
            size_t p = s.draw(file.size()), k = 1 + s.draw(30);
            file.erase(p, k);
            how = "bytes from " + std::to_string(p) + " removed";
        }
        c.describe("parts" + d + ", " + how);
        Bytes g;
        bool ok = false;
        if (file.empty()) { c.label("nothing left"); }
        ok = bzRead(s, file, 0, b.size(), g, nullptr);
        if (ok) c.check(g == b, "damaged", how + ": wrong data was read without an error: " + diff(g, b));
        c.label(ok ? "intact" : "refused");
        c.nontrivial(!ok);
    }

    // independent decoder, written from the description of the format
    Bytes rleDecode(const Bytes& z, bool& ok)
    {
        Bytes r;
        ok = true;
        if (z.empty()) return r;
        unsigned char m = z[0];
        size_t i = 1;
        auto get = [&]() -> unsigned { if (i < z.size()) return z[i++]; ok = false; return 0; };
        while (i < z.size() && ok)
        {
            unsigned x = get();
            if (x != m) { r.push_back((unsigned char)x); continue; }
            unsigned k = get();
            if (k <= 2) { r.insert(r.end(), k + 1, m); continue; }
            if (k & 0x80) k = (k & 0x7f) * 256 + get();
            unsigned y = get();
            r.insert(r.end(), k + 1, (unsigned char)y);
        }
        return r;
    }
    void rle(Src& s, pbt::Ctx& c)
    {
        std::string d;
        Bytes b = content(s, d, s.chance(0.02));
        c.describe("parts" + d);
        size_t bound = b.size() + (b.size() + 255) / 256 + 1;
        Bytes z(bound + 64, 0xCD);
        int n = CompressionRLE::RLE_Compress(b.data(), z.data(), (unsigned)b.size());
        c.check(n >= 0 && (size_t)n <= bound, "rle-size", std::to_string(b.size()) + " bytes compressed to " + std::to_string(n));
        for (size_t i = bound; i < z.size(); i++) c.check(z[i] == 0xCD, "rle-overrun", "written behind the documented size");
        c.check((n == 0) == b.empty(), "rle-empty", "size " + std::to_string(n));
        z.resize(n);
        bool ok;
        Bytes g = rleDecode(z, ok);
        c.check(ok && g == b, "rle-format", "compressed data does not encode the input: " + diff(g, b));
        Bytes o(b.size() + 64, 0xEF);
        CompressionRLE::RLE_Uncompress(z.data(), o.data(), (unsigned)n);
        c.check(std::equal(b.begin(), b.end(), o.begin()), "rle-roundtrip", "uncompressed data differs from the input");
        for (size_t i = b.size(); i < o.size(); i++) c.check(o[i] == 0xEF, "rle-behind", "more data uncompressed than compressed");
        // long runs pay off
        size_t runs = 1;
        for (size_t i = 1; i < b.size(); i++) runs += b[i] != b[i - 1];
        if (!b.empty()) c.check((size_t)n <= 1 + 4 * (runs + b.size() / 32768), "rle-runs", std::to_string(runs) + " runs need " + std::to_string(n) + " bytes");
        c.nontrivial(b.size() > 10 && (size_t)n != b.size() + 1);
    }
    // any valid encoding can be uncompressed
    void rleAny(Src& s, pbt::Ctx& c)
    {
        Bytes z{(unsigned char)s.draw(256)}, want;
        int k = (int)s.integer(1, 30);
        std::string d;
        for (int i = 0; i < k; i++)
        {
            unsigned char x = (unsigned char)(s.chance(0.3) ? z[0] : s.draw(256));
            int len = (int)(s.weighted({4, 3, 2, 2, 1}) == 0 ? 1 : s.pick(std::vector<int>{2, 3, 4, 5, 127, 128, 129, 130, 255, 256, 257, 258, 32767, 32768, (int)s.draw(32768) + 1}));
            want.insert(want.end(), (size_t)len, x);
            d += " " + std::to_string(len) + "x" + std::to_string(x);
            if (x == z[0] && len <= 3) { z.push_back(x); z.push_back((unsigned char)(len - 1)); }
            else if (len <= 3) z.insert(z.end(), (size_t)len, x);
            else
            {
                z.push_back(z[0]);
                int q = len - 1;
                if (q >= 128) z.push_back((unsigned char)((q >> 8) | 0x80));
                z.push_back((unsigned char)(q & 255));
                z.push_back(x);
            }
        }
        c.describe(d);
        Bytes o(want.size() + 32, 0xEF);
        CompressionRLE::RLE_Uncompress(z.data(), o.data(), (unsigned)z.size());
        o.resize(want.size());
        c.check(o == want, "rle-any", "uncompressed data: " + diff(o, want));
        c.nontrivial();
    }
    void binary(Src& s, pbt::Ctx& c)
    {
        std::string fn = pbt::scratch() + "/data.bin";
        struct Item { int kind; std::string str; std::vector<float> f; int i; M4 m; };
        std::vector<Item> items;
        std::vector<size_t> ends;
        std::string d;
        {
            std::ofstream o(fn.c_str(), std::ios::binary);
            int n = (int)s.integer(1, 10);
            for (int k = 0; k < n; k++)
            {
                Item it;
                it.kind = (int)s.draw(4);
                if (it.kind == 0)
                {
                    size_t len = s.chance(0.2) ? 0 : s.chance(0.1) ? s.draw(5000) : s.draw(30);
                    unsigned char seed = (unsigned char)s.draw(256);
                    for (size_t q = 0; q < len; q++) it.str += (char)(1 + (seed + q * 37) % 255);
                    FileIO::writeString(o, it.str);
                    d += " string" + std::to_string(len);
                }
                else if (it.kind == 1)
                {
                    size_t len = s.draw(20);
                    for (size_t q = 0; q < len; q++) it.f.push_back((float)s.real(-1e6, 1e6));
                    FileIO::write<int32_t>(o, (int)len);
                    FileIO::writeArray<float>(o, it.f.data(), (int)len);
                    d += " array" + std::to_string(len);
                }
                else if (it.kind == 2)
                {
                    it.i = (int)(s.draw(0x80000000ull)) * (s.chance(0.5) ? -1 : 1);
                    FileIO::write<int32_t>(o, it.i);
                    FileIO::write<double>(o, it.i * 0.37);
                    d += " number";
                }
                else
                {
                    it.m = pose(s, 1000);
                    FileIO::writeMatrix4f(o, f4(it.m));
                    d += " matrix";
                }
                items.push_back(it);
                ends.push_back((size_t)o.tellp());
            }
        }
        size_t size = ends.back();
        if (s.chance(0.4))
        {
            size_t cut = s.draw(size);
            c.check(truncate(fn.c_str(), (off_t)cut) == 0, "harness", "truncate");
            size = cut;
            d += " cut at " + std::to_string(cut);
        }
        c.describe(d);
        std::ifstream f(fn.c_str(), std::ios::binary);
        for (size_t k = 0; k < items.size(); k++)
        {
            const Item& it = items[k];
            bool thrown = false, ok = true;
            try
            {
                if (it.kind == 0)
                {
                    std::string g = "before";
                    ok = FileIO::readString(g, f);
                    if (ends[k] <= size) c.check(g == it.str, "string", "a string of " + std::to_string(it.str.size()) + " characters was read as " + std::to_string(g.size()));
                }
                else if (it.kind == 1)
                {
                    int len = FileIO::read<int32_t>(f);
                    c.check(len == (int)it.f.size(), "length", "array length " + std::to_string(len));
                    std::vector<float> g((size_t)len);
                    FileIO::readArray<float>(g.data(), len, f);
                    if (ends[k] <= size) c.check(g == it.f, "array", "array differs");
                }
                else if (it.kind == 2)
                {
                    int i = FileIO::read<int32_t>(f);
                    double x = FileIO::read<double>(f);
                    c.check(i == it.i && x == it.i * 0.37, "number", "number differs");
                }
                else
                {
                    Eigen::Matrix4f m;
                    ok = FileIO::readMatrix4f(m, f);
                    if (ends[k] <= size) c.check(ok && m == f4(it.m), "matrix", "matrix differs");
                }
            }
            catch (VirtualRobotException&) { thrown = true; }
            if (ends[k] > size)
            {
                c.check(thrown || !ok, "truncated", "reading behind the end of the file succeeded");
                c.label("truncated");
                break;
            }
            c.check(!thrown && ok, "reading", "reading item " + std::to_string(k) + " failed");
        }
        c.nontrivial(items.size() > 1);
    }
    void points(Src& s, pbt::Ctx& c)
    {
        std::string fn = pbt::scratch() + "/points.pts";
        char sep = s.pick(std::vector<char>{' ', ',', ';', '\n'});
        int n = (int)s.draw(12) + (s.chance(0.9) ? 1 : 0);
        std::vector<Eigen::Vector3f> want;
        {
            std::ofstream o(fn.c_str());
            o.precision(9);
            int end = (int)s.draw(4);
            for (int k = 0; k < n; k++)
            {
                Eigen::Vector3f p((float)s.real(-100, 100), (float)s.real(-100, 100), (float)s.real(-100, 100));
                want.push_back(p);
                o << p(0) << sep << (s.chance(0.2) ? " " : "") << p(1) << sep << p(2);
                if (k < n - 1 || end > 0) o << "\n";
                if (k == n - 1 && end > 1) o << " \n";
            }
            c.describe(std::to_string(n) + " points, separator '" + std::string(sep == '\n' ? "newline" : std::string(1, sep)) + "', end " + std::to_string(end));
        }
        auto got = FileIO::readPts(fn, sep);
        c.check(got.size() == want.size(), "points-count", std::to_string(got.size()) + " points instead of " + std::to_string(want.size()));
        for (size_t i = 0; i < want.size(); i++) c.check(got[i] == want[i], "points", "point " + std::to_string(i));
        c.nontrivial(n > 1);
    }
}
int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P15";
    S.rule = "bzip2: more than 100 bytes; damaged: refused; rle: more than 10 bytes with a run or a marker; files: at least two items";
    S.init = []
    {
        initVR("P15");
        void* h = dlopen("libbz2.so.1.0", RTLD_NOW);
        sysComp = h ? (Comp)dlsym(h, "BZ2_bzBuffToBuffCompress") : nullptr;
        sysDecomp = h ? (Decomp)dlsym(h, "BZ2_bzBuffToBuffDecompress") : nullptr;
        if (!sysComp || !sysDecomp) { fprintf(stderr, "libbz2 not found\n"); exit(3); }
    };
    S.add("bzip2", 20000, 100000, bzipSmall);
    S.add("bzip2-large", 300, 2000, bzipBig, 60);
    S.add("damaged", 15000, 100000, damaged);
    S.add("rle", 30000, 200000, rle);
    S.add("rle-any", 15000, 100000, rleAny);
    S.add("binary", 12000, 50000, binary);
    S.add("points", 3000, 30000, points);
    return pbt::run(argc, argv, S);
}

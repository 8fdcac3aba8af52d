// Accounts for what each operation takes and gives back: memory and descriptors, with any request for memory refused.
// probe_leaks GLYPHS DATAS INFOS WORDS RULES IMAGE... -- OTHER_FILE...
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <iostream>
#include <map>
#include <new>
#include <malloc.h>

#include "work.hpp"

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

static long live_blocks, live_bytes, requests, refuse_at, refused, overrun;
// behind each block, up to its size in its last bytes, a pattern that must still be there when it is given back
enum { behind = 24 };
static void* took(void* p, size_t n)
{
    if (!p) return p;
    size_t const u = malloc_usable_size(p);
    ++live_blocks;
    live_bytes += u;
    std::memset((char*)p + n, 0xf5, u - 8 - n);
    std::memcpy((char*)p + u - 8, &n, 8);
    return p;
}
static void gave(void* p)
{
    if (!p) return;
    size_t const u = malloc_usable_size(p);
    size_t n;
    std::memcpy(&n, (char*)p + u - 8, 8);
    if (n > u - 8) ++overrun;
    else for (; n < u - 8; ++n) if (((unsigned char*)p)[n] != 0xf5) { ++overrun; break; }
    --live_blocks;
    live_bytes -= u;
}
static size_t room(size_t n) { return n > size_t(-1) - behind ? n : n + behind; }
static bool refuse()
{
    if (++requests != refuse_at) return false;
    ++refused;
    errno = ENOMEM;
    return true;
}

extern "C" {
void* malloc(size_t n) { return refuse() ? nullptr : took(__libc_malloc(room(n)), n); }
void* calloc(size_t a, size_t b)
{
    if (refuse()) return nullptr;
    if (b && a > size_t(-1) / 2 / b) { errno = ENOMEM; return nullptr; }
    return took(__libc_calloc(room(a * b), 1), a * b);
}
void* realloc(void* p, size_t n)
{
    if (refuse()) return nullptr;
    size_t o = 0;
    if (p) {
        std::memcpy(&o, (char*)p + malloc_usable_size(p) - 8, 8);
        gave(p);
    }
    void* q = __libc_realloc(p, room(n));
    if (!q) { took(p, o); return q; }
    return took(q, n);
}
void* memalign(size_t a, size_t n) { return refuse() ? nullptr : took(__libc_memalign(a, room(n)), n); }
void* aligned_alloc(size_t a, size_t n) { return refuse() ? nullptr : took(__libc_memalign(a, room(n)), n); }
int posix_memalign(void** p, size_t a, size_t n)
{
    if (refuse()) return ENOMEM;
    *p = took(__libc_memalign(a, room(n)), n);
    return *p ? 0 : ENOMEM;
}
void free(void* p) { gave(p); __libc_free(p); }
}

static int descriptors()
{
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (d && readdir(d)) ++n;
    if (d) closedir(d);
    return n;
}

static long step(unsigned long n, unsigned k) { return n <= k ? 1 : long(n / k); }

int main(int ac, char** av)
{
    if (ac < 7) return 3;
    std::vector<char*> args;
    std::vector<std::string> others;
    bool rest = false;
    for (int i = 1; i < ac; ++i) {
        if (!rest && !std::strcmp(av[i], "--")) { rest = true; continue; }
        if (rest) others.push_back(av[i]); else args.push_back(av[i]);
    }
    args.push_back(nullptr);
    unsigned const limit = std::getenv("LIMIT") ? std::atoi(std::getenv("LIMIT")) : 60;

    unsigned long ops = 0, ended_by_exception = 0, injected = 0, reused = 0, blocks = 0;
    auto report = [&](char const* kind, std::string const& op, std::string const& what) {
        std::cout << "BAD " << kind << ' ' << op << ": " << what << "\n";
    };
    // the outcome of an operation, or of its exception
    auto outcome = [&](auto& f) -> std::string {
        try { return f(); }
        catch (std::bad_alloc const&) { ++ended_by_exception; return "!memory"; }
        catch (std::exception const&) { ++ended_by_exception; return "!"; }
    };
    // an operation that makes and destroys everything it uses
    auto closed = [&](std::string const& name, auto f) {
        (void)outcome(f);                   // what the libraries keep for good
        long n0;
        {
            int const d0 = descriptors();
            long const b0 = live_blocks, y0 = live_bytes;
            refuse_at = 0; requests = 0;
            outcome(f);
            n0 = requests;
            ++ops;
            blocks += n0;
            if (live_blocks != b0 || live_bytes != y0)
                report("leak", name, std::to_string(live_blocks - b0) + " blocks, " + std::to_string(live_bytes - y0) + " bytes are not given back");
            if (descriptors() != d0) report("descriptor", name, std::to_string(descriptors() - d0) + " files stay open");
        }
        for (long k = 1; k <= n0; k += step(n0, limit)) {
            int const d0 = descriptors();
            long const b0 = live_blocks;
            requests = 0; refused = 0; refuse_at = k;
            outcome(f);
            refuse_at = 0;
            injected += refused;
            ++ops;
            if (live_blocks != b0)
                report("leak", name, std::to_string(live_blocks - b0) + " blocks are not given back when memory request " + std::to_string(k) + " of " + std::to_string(n0) + " is refused");
            if (descriptors() != d0) report("descriptor", name, "files stay open when memory request " + std::to_string(k) + " is refused");
        }
    };

    for (auto& p : others) {
        std::string const n = p.substr(p.rfind('/') + 1);
        char const* const f = p.c_str();
        closed("image " + n, [&] { return std::to_string(image_from_file(f).area()); });
        closed("glyphs " + n, [&] { return std::to_string(utils::load_from_file<ocr2::Glyphs>(f).size()); });
        closed("features " + n, [&] { return std::to_string(utils::load_from_file<PpOcrDatas>(f).size()); });
        closed("learnt " + n, [&] { return std::to_string(utils::load_from_file<loader2::Glyphs>(f).size()); });
        closed("dictionary " + n, [&] { (void)utils::load_from_file<spell::Dictionary>(f); return std::string(); });
        closed("lines " + n, [&] { return std::to_string(utils::load_from_file<ocr2::WWordsLines>(f).size()); });
        closed("rules " + n, [&] { return std::to_string(utils::load_from_file<ocr2::Replacements>(f).size()); });
    }
    closed("database", [&] { Shared s(args.data()); return std::string(); });

    Shared const sh(args.data());
    unsigned const tasks = sh.paths.size() * Worker::KINDS;
    std::vector<std::string> want(tasks);
    for (unsigned t = 0; t < tasks; ++t) {
        want[t] = Worker(sh, 0, false).task(t);
        closed("task " + std::to_string(t), [&] { return Worker(sh, 0, false).task(t); });
        closed("two tasks from " + std::to_string(t), [&] { Worker w(sh, 0, false); w.task(t); return w.task((t + 5) % tasks); });
    }
    // the same state after tasks that ended by an exception
    for (unsigned t = 0; t < tasks; ++t) {
        Worker w(sh, 0, false);
        requests = 0;
        { Worker v(sh, 0, false); requests = 0; v.task(t); }
        long const n0 = requests;
        for (long k = 1; k <= n0; k += step(n0, limit)) {
            w.cache.clear();
            requests = 0; refused = 0; refuse_at = k;
            auto f = [&] { return w.task(t); };
            outcome(f);
            refuse_at = 0;
            injected += refused;
            w.cache.clear();
            unsigned const u = (t + k) % 2 ? t : (t + k) % tasks;
            auto g = [&] { return w.task(u); };
            ++reused;
            ++ops;
            std::string const got = outcome(g);
            if (got != want[u]) {
                report("reuse", "task " + std::to_string(u), "another result with a state whose task " + std::to_string(t) + " ended when memory request " + std::to_string(k) + " of " + std::to_string(n0) + " was refused");
                std::cout << "alone:\n" << want[u] << "\nwith that state:\n" << got << "\n";
                break;
            }
        }
    }
    // one bitmap after another with the same state, with each request of the second one refused
    {
        struct Bits { Image img; std::string want; };
        auto reco = [&](Worker& w, Image const& img) {
            std::ostringstream out;
            Image const& i = w.ctx.img(img.bounds(), [&](Pixel* p) { std::memcpy(p, img.data(), img.area()); });
            auto const l = ocr2::compute_image(PpOcrSimpleDatas{}, PpOcrComplexDatas{}, PpOcrExclusiveDatas{}, w.p1, w.p2, sh.datas,
                sh.ordered, sh.by_words, sh.glyphs, sh.id_views, i, w.ctx.img90(), w.dctx, 0.5);
            for (ocr2::View const& v : l) out << sh.glyphs.get_word(v) << '/' << v.font << ' ';
            out << std::string(i.data(), i.area()) << '|' << std::string(w.ctx.img90().data(), i.area());
            return out.str();
        };
        std::vector<Bits> bits;
        for (Image const& pic : sh.images) {
            unsigned x = 0;
            for (int i = 0; i < 3; ++i) {
                auto const b = make_box_character(pic, {x, 0}, pic.bounds());
                if (!b) break;
                bits.push_back({pic.section(b.index(), b.bounds()), ""});
                x = b.x() + b.width();
            }
            Bounds const some{std::min(pic.width(), 60u), std::min(pic.height(), 40u)};
            bits.push_back({pic.section(Index{0, 0}, some), ""});
        }
        for (Bits& b : bits) { Worker w(sh, 0, false); b.want = reco(w, b.img); }
        for (std::size_t n = 0; n < bits.size() * bits.size() && n < limit / 5; ++n) {
            Bits const& first = bits[n % bits.size()];
            Bits const& second = bits[n / bits.size()];
            long n0 = 1;
            for (long k = 0; k <= n0; ++k) {
                Worker w(sh, 0, false);
                reco(w, first.img);
                requests = 0; refused = 0; refuse_at = k;
                auto f = [&] { return reco(w, second.img); };
                std::string const with = outcome(f);
                refuse_at = 0;
                if (!k) {
                    n0 = requests;
                    if (with != second.want) report("reuse", "bitmap", "another result after another bitmap");
                }
                injected += refused;
                ++ops;
                ++reused;
                for (Bits const* b : {&second, &first}) {
                    auto g = [&] { return reco(w, b->img); };
                    if (outcome(g) != b->want) {
                        report("reuse", "bitmap", "another result with a state whose bitmap of " + std::to_string(second.img.area()) + " pixels ended when memory request "
                            + std::to_string(k) + " of " + std::to_string(n0) + " was refused");
                        k = n0;
                        break;
                    }
                }
            }
        }
    }
    // a state that is used again and again keeps what its largest input needed, no more
    {
        Worker w(sh, 0, false);
        auto all = [&] {
            for (unsigned t = 0; t < tasks; ++t) {
                w.task(t);
                w.cache.clear();
                w.log = std::vector<Stage>();
            }
            return live_bytes;
        };
        all();
        long const b1 = all();
        for (int i = 0; i < 20; ++i) {
            ++ops;
            long const b2 = all();
            if (b2 != b1) { report("growth", "all tasks again", std::to_string(b2 - b1) + " bytes more are kept after the same tasks"); break; }
        }
    }
    if (overrun) report("overrun", "memory", std::to_string(overrun) + " blocks were written behind their end");
    std::cout << "ops " << ops << " exceptions " << ended_by_exception << " refused " << injected << " reused " << reused << " requests " << blocks << "\n@end\n";
}

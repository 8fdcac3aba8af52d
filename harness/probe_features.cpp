#include "common.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/image/image.hpp"
#include "ppocr/utils/read_file.hpp"

using namespace ppocr;
using namespace probe;
using loader2::PolicyLoader;

namespace {

Image read_image(std::istream& in)
{
    unsigned w, h; std::string s;
    in >> w >> h >> s;
    PtrImageData d(new Pixel[s.size()]);
    std::memcpy(d.get(), s.data(), s.size());
    return Image({w, h}, std::move(d));
}

template<class T> void put(std::ostream& out, T const& v) { out << v; }
void put(std::ostream& out, strategies::alternations::alternations_type const& a)
{ out << int(a.start_contains_letter) << ':' << a.count; }
template<class T, std::size_t N> void put(std::ostream& out, std::array<T, N> const& a)
{ for (std::size_t i = 0; i < N; ++i) { if (i) out << ','; put(out, a[i]); } }
template<class T> void put(std::ostream& out, std::vector<T> const& a)
{ out << '['; for (std::size_t i = 0; i < a.size(); ++i) { if (i) out << ','; out << a[i]; } out << ']'; }

template<class S, PolicyLoader P> using St = loader2::Strategy<S, P>;

#define ALL2(X) X(dzdensity) X(hdirection) X(hdirection2) X(hgravity) X(hgravity2) \
    X(dvdirection) X(dvdirection2) X(dvgravity) X(dvgravity2) X(hbar)
#define ALL1(X) X(proportionality) X(density) X(alternations) X(zone) X(proportionality_zone)

template<class F> void for_each_strategy(F f)
{
#define DO(n) f(#n, St<strategies::n, PolicyLoader::img>()); f(#n "90", St<strategies::n, PolicyLoader::img90>());
    ALL2(DO)
#undef DO
#define DO(n) f(#n, St<strategies::n, PolicyLoader::img>());
    ALL1(DO)
#undef DO
}

void dump(std::ostream& out, PpOcrDatas const& d, std::size_t i)
{
    for_each_strategy([&](char const* name, auto s) {
        out << name << '='; put(out, d.template get<decltype(s)>()[i]); out << ' ';
    });
    out << '\n';
}

// the way the recogniser computes features: shared contexts, one reset per character
template<class Ctx>
void dump_ctx(std::ostream& out, Image const& img, Image const& img90, Ctx& ctx, bool reversed)
{
    ctx.reset();
    std::vector<std::pair<std::string, std::function<std::string()>>> fs;
    for_each_strategy([&](char const* name, auto s) {
        using S = decltype(s);
        fs.emplace_back(name, [&]{
            std::ostringstream os; put(os, S::load(img, img90, ctx)); return os.str();
        });
    });
    std::map<std::string, std::string> r;
    std::size_t n = fs.size();
    for (std::size_t i = 0; i < n; ++i) { auto& f = fs[reversed ? n - 1 - i : i]; r[f.first] = f.second(); }
    for (auto& f : fs) out << f.first << '=' << r[f.first] << ' ';
    out << '\n';
}

} // namespace

int main()
{
    std::map<std::string, Handler> h;
    // fresh state per bitmap
    h["f"] = [](std::istringstream& in, std::ostream& out) {
        Image img = read_image(in);
        PpOcrDatas d; d.load(img);
        dump(out, d, 0);
    };
    // one bulk load of a sequence, then shared contexts over the same sequence (two evaluation orders)
    h["seq"] = [](std::istringstream& in, std::ostream& out) {
        unsigned n; in >> n;
        std::vector<Image> imgs;
        for (unsigned i = 0; i < n; ++i) imgs.push_back(read_image(in));
        PpOcrDatas d;
        for (auto& i : imgs) d.load(i);
        out << "size " << d.size() << '\n';
        for (unsigned i = 0; i < n; ++i) dump(out, d, i);
        PpOcrDataCtxs ctx;
        for (auto& i : imgs) { Image r = i.rotate90(); dump_ctx(out, i, r, ctx, false); }
        for (auto& i : imgs) { Image r = i.rotate90(); dump_ctx(out, i, r, ctx, true); }
        for (auto it = imgs.rbegin(); it != imgs.rend(); ++it) {
            Image r = it->rotate90(); dump_ctx(out, *it, r, ctx, false);
        }
        // text round trip of the feature table
        std::stringstream s1; s1 << d;
        PpOcrDatas d2; s1 >> d2;
        out << "eof " << s1.eof() << " size " << d2.size() << '\n';
        std::ostringstream s2; s2 << d2;
        out << "same " << (s1.str() == s2.str()) << '\n';
        if (d2.size() == n) for (unsigned i = 0; i < n; ++i) dump(out, d2, i);
        // ordering and equality of table rows
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) out << d.eq(i, j);
        out << '\n';
    };
    // similarity of every pair, of bitmaps or of the rows of a stored table
    auto sims = [](PpOcrDatas const& d, std::size_t n, std::ostream& out) {
        for_each_strategy([&](char const* name, auto s) {
            using S = decltype(s);
            auto& data = d.template get<S>();
            out << name << ' ' << data.count_posibilities() << '\n';
            for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
                auto const& v = data[j];
                char buf[64];
                std::snprintf(buf, sizeof buf, "%.9g %.9g ", data.dist_with(i, v),
                    S::relationship_type::dist(data[i], v));
                out << buf;
                for (unsigned dd : {0u, 1u, 5u, 10u, 20u, 50u, 51u, 75u, 99u, 100u})
                    out << data.in_dist_with(i, v, dd);
                out << '\n';
            }
        });
    };
    h["sim"] = [=](std::istringstream& in, std::ostream& out) {
        unsigned n; in >> n;
        PpOcrDatas d;
        for (unsigned i = 0; i < n; ++i) d.load(read_image(in));
        sims(d, n, out);
    };
    h["simt"] = [=](std::istringstream& in, std::ostream& out) {
        std::string t; in >> t;
        std::istringstream is(unhex(t));
        PpOcrDatas d; is >> d;
        sims(d, d.size(), out);
    };
    // load a stored feature table, report it and save it again
    h["tab"] = [](std::istringstream& in, std::ostream& out) {
        std::string t; in >> t;
        std::istringstream is(unhex(t));
        PpOcrDatas d; is >> d;
        out << "eof " << is.eof() << " size " << d.size() << '\n';
        for (std::size_t i = 0; i < d.size(); ++i) dump(out, d, i);
        std::ostringstream os; os << d;
        out << hex(os.str()) << '\n';
    };
    // a feature table of any content, read the way the tools do, then used
    h["file"] = [=](std::istringstream& in, std::ostream& out) {
        std::string t; in >> t;
        auto d = utils::load_from_file<PpOcrDatas>(db_path(t));
        out << "loaded " << d.size() << '\n';
        std::size_t const n = std::min<std::size_t>(d.size(), 12);
        for (std::size_t i = 0; i < n; ++i) dump(out, d, i);
        sims(d, n, out);
        std::ostringstream os; os << d;
        out << "saved " << hex(os.str()) << '\n';
    };
    // similarity over raw values (all values a stored table may hold)
    h["interval"] = [](std::istringstream& in, std::ostream& out) {
        unsigned a, b, d; in >> a >> b >> d;
        using R1 = strategies::hdirection2::relationship_type;
        using R2 = strategies::hdirection::relationship_type;
        char buf[128];
        std::snprintf(buf, sizeof buf, "%.9g %d %u %.9g %d %u\n", R1::dist(a <= 100 ? a : 100, b <= 100 ? b : 100),
            R1::in_dist(a, b, d), R1::count(), R2::dist(a, b), R2::in_dist(a, b, d), R2::count());
        out << buf;
    };
    h["pz"] = [](std::istringstream& in, std::ostream& out) {
        using R = strategies::proportionality_zone::relationship_type;
        auto rd = [&] { unsigned n; in >> n; std::vector<unsigned> v(n); for (auto& x : v) in >> x; return v; };
        auto a = rd(), b = rd(); unsigned d; in >> d;
        char buf[128];
        std::snprintf(buf, sizeof buf, "%.9g %.9g %d %u\n", R::dist(a, b), R::dist(b, a), R::in_dist(a, b, d), R::compute(a, b));
        out << buf;
    };
    return run(h);
}

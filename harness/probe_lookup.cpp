// Lookup tables of the recogniser, coordinates, boxes, small iterators.
#include "common.hpp"
#include <algorithm>
#include <cmath>
#include <iterator>
#include "ppocr/defined_loader.hpp"
#include "ppocr/box_char/box.hpp"
#include "ppocr/image/image.hpp"
#include "ppocr/math/almost_equal.hpp"
#include "ppocr/ocr2/cache.hpp"
#include "ppocr/ocr2/data_indexes_by_words.hpp"
#include "ppocr/ocr2/data_indexes_ordered.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/insert_views.hpp"
#include "ppocr/ocr2/sort_probabilities.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/utils/enum_io.hpp"
#include "ppocr/utils/integer_iterator.hpp"
#include "ppocr/utils/range_iterator.hpp"

using namespace ppocr;
using namespace probe;

namespace {

template<class> struct first_of;
template<template<class...> class Tpl, class T, class... Ts> struct first_of<Tpl<T, Ts...>> { using type = T; };
using First = first_of<PpOcrDatas>::type;

template<class R>
void show(R const& r, std::ostream& out)
{
    std::size_t n = 0;
    out << "= ";
    for (auto x : r) {
        out << x << ' ';
        if (!(r[n] == x) || !(r.begin()[n] == x)) out << "?at ";
        ++n;
    }
    if (static_cast<std::size_t>(r.size()) != n || r.empty() != !n) out << "?size ";
    if (n) {
        auto e = r.begin();
        e += static_cast<std::ptrdiff_t>(n - 1);
        if (!(r.front() == *r.begin()) || !(r.back() == *e)) out << "?ends ";
    }
    out << '\n';
}

ocr2::Glyphs glyphs_of(std::istream& in)
{
    // words and fonts of each glyph: w,f;w,f ... or _
    std::string t; in >> t;
    auto text = unhex(t);
    std::istringstream is(text);
    ocr2::Glyphs g;
    is >> g;
    if (!is.eof()) throw std::runtime_error("glyphs");
    return g;
}

Image image_of(std::istream& in)
{
    unsigned w, h; std::string s;
    in >> w >> h >> s;
    PtrImageData d(new Pixel[s.size()]);
    std::copy(s.begin(), s.end(), d.get());
    return Image(Bounds(w, h), std::move(d));
}

void show(ocr2::Probabilities const& p, std::ostream& out)
{
    char b[64];
    out << p.size() << (p.empty() ? "e" : "") << ':';
    for (auto& x : p) { snprintf(b, sizeof b, " %u/%.17g", x.i, x.prob); out << b; }
    out << '\n';
}

template<class T>
void integers(std::istream& in, std::ostream& out)
{
    long long a, b, d;
    in >> a >> b >> d;
    using It = integer_iterator<T>;
    It x{T(a)}, y{T(b)};
    out << +*x << ' ' << +*y << ' ' << (x - y) << ' ' << (y - x) << ' ' << (x == y) << (x != y) << (x < y) << (x <= y) << (x <= x) << (y <= x) << (y < x);
    out << ' ' << +*(x + d) << ' ' << +*((x + d) - d);
    It z = x;
    z += d; out << ' ' << +*z;
    z -= d; out << ' ' << +*z;
    out << ' ' << +*++z << ' ' << +*z << '\n';
}

template<class E>
void enums(std::string const& text, std::ostream& out)
{
    std::istringstream is(text);
    E e = E(77);
    is >> utils::read_enum(e);
    out << bool(is) << ' ';
    utils::write_enum(out, e) << ' ';
    out << utils::write_enum(e) << '\n';
    // a stream that has already failed changes nothing
    E f = E(55);
    std::istringstream none("");
    none.get();
    utils::read_enum(none, f);
    if (f != E(55) || none) out << "?failed\n";
}

template<class T>
void coordinates(std::string const& text, T x, std::ostream& out)
{
    std::istringstream is(text);
    is >> x;
    std::string rest;
    bool ok = bool(is);
    is.clear();
    std::getline(is, rest);
    std::ostringstream o;
    o << x;
    out << ok << ' ' << o.str() << '|' << (ok ? rest : "") << '\n';
    T y = T();
    std::istringstream again(o.str());
    again >> y;
    if (!again || !(x == y)) out << "?again\n";
}

enum class EI : int {};
enum class EU : unsigned {};
enum class ES : short {};
enum class EL : long long {};

struct Pick { int const* table; int const& operator()(int const& i) const { return table[i]; } };

template<class F>
void almost(std::istream& in, std::ostream& out)
{
    std::string s; long k; int ulp;
    in >> s >> k >> ulp;
    F x = std::strtod(s.c_str(), nullptr), y = x;
    for (long i = 0; i < std::labs(k); ++i) y = std::nextafter(y, k > 0 ? std::numeric_limits<F>::infinity() : -std::numeric_limits<F>::infinity());
    out << almost_equal(x, y, ulp) << almost_equal(y, x, ulp) << almost_equal(-x, -y, ulp) << almost_equal(x, x, 1) << '\n';
}

}

int main()
{
    std::map<std::string, Handler> h;
    h["range"] = [](std::istringstream& in, std::ostream& out) {
        unsigned n; in >> n;
        std::vector<std::pair<unsigned, unsigned>> q(n);
        for (auto& x : q) in >> x.first >> x.second;
        std::vector<unsigned> v;
        for (unsigned x; in >> x;) v.push_back(x);
        ocr2::IndexesOrdered ix(v), moved(std::move(ix));
        loader2::Data<First> const data(v);
        ocr2::DataIndexesOrdered<First> const ord(data);
        for (auto& x : q) {
            show(ord.get_range(data, x.first, x.second), out);
            show(ocr2::range_bounds(v, moved, x.first > x.second ? x.first - x.second : 0u,
                unsigned(std::min(0xffffffffull, x.first + 0ull + x.second))), out);
        }
    };
    h["signed"] = [](std::istringstream& in, std::ostream& out) {
        int a, b; in >> a >> b;
        std::vector<int> v;
        for (int x; in >> x;) v.push_back(x);
        ocr2::IndexesOrdered const ix(v);
        show(ocr2::range_bounds(v, ix, a, b), out);
    };
    h["glyphs"] = [](std::istringstream& in, std::ostream& out) {
        auto g = glyphs_of(in);
        ocr2::DataIndexesByWords const made(g);
        auto const ids = ocr2::get_views_indexes_ordered(g);
        out << g.size() << ' ' << ids.size() << '\n';
        for (std::size_t i = 0; i < g.size(); ++i) {
            for (auto x : made[i]) out << x << ' ';
            out << "| " << ids[i] << '\n';
        }
    };
    h["prob"] = [](std::istringstream& in, std::ostream& out) {
        std::size_t n, m; double limit; in >> n >> limit;
        std::vector<unsigned> ids(n);
        for (auto& x : ids) in >> x;
        in >> m;
        ocr2::Probabilities p(m), c(m), e(m), q(0u);
        for (std::size_t k = 0; k < m; ++k) {
            unsigned i; double x; in >> i >> x;
            if (k % 3 == 0) p.emplace_back(i, x);
            else if (k % 3 == 1) p.push_back({i, x});
            else { p.emplace_back(i); (p.end() - 1)->prob = x; }
        }
        if (m && (&p.front() != p.begin() || &p.back() != p.end() - 1 || &p[m - 1] != &p.back())) out << "?ends\n";
        ocr2::sort_by_views(p, ids);
        show(p, out);
        ocr2::unique_copy_by_views(c, p, ids);
        ocr2::unique_by_views(p, ids);
        show(p, out);
        show(c, out);
        ocr2::sort_by_prop(p);
        show(p, out);
        auto g = glyphs_of(in);
        ocr2::view_ref_list l;
        ocr2::insert_views(l, p, g, limit);
        out << "= ";
        for (auto& v : l) {
            // the views are those of the database itself
            std::size_t at = 0;
            for (; at < g.size(); ++at) if (!g[at].empty() && !std::less<>{}(&v.get(), &g[at].front()) && std::less<>{}(&v.get(), &g[at].front() + g[at].size())) break;
            out << at << '.' << (at < g.size() ? &v.get() - &g[at].front() : -1) << ' ';
        }
        out << '\n';
        q.swap(p); swap(e, q); swap(p, q);
        show(e, out);
        e.clear();
        show(e, out);
    };
    h["cache"] = [](std::istringstream& in, std::ostream& out) {
        unsigned n; in >> n;
        ocr2::image_cache_type_t cache;
        std::vector<Image> images;
        std::vector<ocr2::View> views(n);
        for (unsigned i = 0; i < n; ++i) {
            auto img = image_of(in);
            auto it = cache.find(img);
            if (it == cache.end()) {
                cache.emplace(img.clone(), ocr2::view_ref_list{views[i]});
                out << "new ";
            }
            else {
                out << (&it->second[0].get() - &views[0]) << ' ';
            }
        }
        out << cache.size() << '\n';
    };
    h["index"] = [](std::istringstream& in, std::ostream& out) { std::string t; in >> t; coordinates<Index>(unhex(t), Index(7, 9), out); };
    h["bounds"] = [](std::istringstream& in, std::ostream& out) { std::string t; in >> t; coordinates<Bounds>(unhex(t), Bounds(7, 9), out); };
    h["box"] = [](std::istringstream& in, std::ostream& out) { std::string t; in >> t; coordinates<Box>(unhex(t), Box(Index(7, 9), Bounds(3, 4)), out); };
    h["boxes"] = [](std::istringstream& in, std::ostream& out) {
        unsigned x, y, w, h, x2, y2, w2, h2;
        in >> x >> y >> w >> h >> x2 >> y2 >> w2 >> h2;
        Box const a{{x, y}, {w, h}}, b{{x2, y2}, {w2, h2}}, c{Bounds(w, h)}, e;
        out << a.x() << ' ' << a.y() << ' ' << a.width() << ' ' << a.height() << ' ' << bool(a) << ' ' << (a == b) << (a != b) << (a == a) << (b == a) << (e == e) << bool(e) << ' '
            << (a.index() == b.index()) << (a.bounds() == b.bounds()) << ' ' << c.x() << c.y() << ' ' << c.width() << ' ' << c.height() << ' ' << a.left() << ' ' << a.top();
        if (a) out << ' ' << a.right() << ' ' << a.bottom();
        out << ' ' << !!a.bounds().contains(b.index()) << ' ' << a.bounds().area() << '\n';
    };
    h["int-i"] = [](std::istringstream& in, std::ostream& out) { integers<int>(in, out); };
    h["int-u"] = [](std::istringstream& in, std::ostream& out) { integers<unsigned>(in, out); };
    h["int-c"] = [](std::istringstream& in, std::ostream& out) { integers<unsigned char>(in, out); };
    h["int-l"] = [](std::istringstream& in, std::ostream& out) { integers<long long>(in, out); };
    h["span"] = [](std::istringstream& in, std::ostream& out) {
        unsigned a, b; in >> a >> b;
        using It = integer_iterator<unsigned>;
        std::vector<unsigned> const v(It{a}, It{b});
        out << "= ";
        for (auto x : v) out << x << ' ';
        out << '\n';
    };
    h["enum-i"] = [](std::istringstream& in, std::ostream& out) { std::string t; in >> t; enums<EI>(unhex(t), out); };
    h["enum-u"] = [](std::istringstream& in, std::ostream& out) { std::string t; in >> t; enums<EU>(unhex(t), out); };
    h["enum-s"] = [](std::istringstream& in, std::ostream& out) { std::string t; in >> t; enums<ES>(unhex(t), out); };
    h["enum-l"] = [](std::istringstream& in, std::ostream& out) { std::string t; in >> t; enums<EL>(unhex(t), out); };
    h["almost-d"] = [](std::istringstream& in, std::ostream& out) { almost<double>(in, out); };
    h["almost-f"] = [](std::istringstream& in, std::ostream& out) { almost<float>(in, out); };
    h["scan"] = [](std::istringstream& in, std::ostream& out) {
        unsigned x, y, w, hh; in >> x >> y >> w >> hh;
        auto img = image_of(in);
        auto one = [&](auto const& r) {
            auto b = r.begin(), e = r.end();
            out << r.size() << ' ' << (e - b) << ' ' << (b - e) << ' ';
            std::ptrdiff_t k = 0;
            for (auto it = r.begin(); it != e; ++it, ++k) {
                out << *it;
                if (it - b != k || b - it != -k || (it < e) != true || it.base() != b.base() + k || it < it || it < b || it != it || !(it == it) || it == e) out << "?place";
            }
            // the alternations of the row
            auto it = r.begin();
            while (it != e && rng::next_alternation(it, e)) out << ' ' << (it - b);
            out << ' ' << rng::any(r) << rng::all(r) << rng::none(r) << '\n';
        };
        one(hrange(img, {x, y}, w));
        one(hrange(img, {x, y}, Bounds(w, hh)));
    };
    h["proxy"] = [](std::istringstream& in, std::ostream& out) {
        std::size_t n; in >> n;
        std::vector<int> table(n), v;
        for (auto& x : table) in >> x;
        for (int x; in >> x;) v.push_back(x);
        int const* p = v.data();
        show(range_iterator<int const*>(p, p + v.size()), out);
        show(range_iterator<int const*, Pick>(p, p + v.size(), Pick{table.data()}), out);
        show(range_iterator<std::vector<int>::const_iterator, Pick>(v.begin(), v.end(), Pick{table.data()}), out);
    };
    return run(h);
}

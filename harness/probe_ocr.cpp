// Recognition stages: databases, candidates, filters, text assembly, replacements.
#include "common.hpp"
#include <set>

#include "ppocr/image/image.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/utils/read_file.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/ocr2/probabilities.hpp"
#include "ppocr/ocr2/image_context.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/words_infos.hpp"
#include "ppocr/ocr2/ambiguous.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/cache.hpp"
#include "ppocr/ocr2/replacement.hpp"

using namespace ppocr;
using namespace probe;

namespace {

template<class... Ts> struct first_of;
template<template<class...> class L, class T, class... Ts> struct first_of<L<T, Ts...>> { using type = T; };
using First = typename first_of<PpOcrDatas>::type;

template<class T> T load(std::string const& arg)
{
    return utils::load_from_file<T>(db_path(arg));
}

Image read_image(std::istream& in)
{
    unsigned w, h; std::string s;
    in >> w >> h >> s;
    PtrImageData d(new Pixel[s.size()]);
    std::memcpy(d.get(), s.data(), s.size());
    return Image({w, h}, std::move(d));
}

std::string word(ocr2::Glyphs const& g, ocr2::View const& v)
{
    auto& s = g.get_word(v);
    return std::string(s.begin(), s.end());
}

struct Recogniser
{
    ocr2::Glyphs const& glyphs;
    PpOcrDatas const& datas;
    ocr2::DataIndexesByWords by_words;
    std::vector<unsigned> id_views;
    ocr2::DataIndexesOrdered<First> ordered;
    ocr2::Probabilities p1, p2;
    ocr2::ImageContext ctx;
    PpOcrDataCtxs dctx;

    Recogniser(ocr2::Glyphs const& g, PpOcrDatas const& d)
    : glyphs(g), datas(d), by_words(g), id_views(ocr2::get_views_indexes_ordered(g)), ordered(d)
    , p1(g.size()), p2(g.size()) {}

    ocr2::view_ref_list operator()(Image const& img)
    {
        Image const& w = ctx.img(img.bounds(), [&](Pixel* p) { std::memcpy(p, img.data(), img.area()); });
        return ocr2::compute_image(PpOcrSimpleDatas{}, PpOcrComplexDatas{}, PpOcrExclusiveDatas{}, p1, p2,
            datas, ordered, by_words, glyphs, id_views, w, ctx.img90(), dctx, 0.5);
    }
};

void put(std::ostream& out, ocr2::Glyphs const& g, ocr2::view_ref_list const& l)
{
    out << "c ";
    for (ocr2::View const& v : l) out << hex(word(g, v)) << '/' << v.font << ' ';
    out << '\n';
}

// which label has which font identity
void fonts(std::ostream& out, ocr2::Glyphs const& g)
{
    out << "fonts";
    for (auto& views : g) for (auto& v : views) out << ' ' << v.font;
    out << '\n';
}

// candidate lists "g.v,g.v;...": references to the labels of the database
std::vector<ocr2::view_ref_list> cands(ocr2::Glyphs const& g, std::string const& s)
{
    std::vector<ocr2::view_ref_list> r;
    if (s == "_") return r;
    std::istringstream in(s);
    std::string one;
    while (std::getline(in, one, ';')) {
        r.emplace_back();
        if (one == "-") continue;
        std::istringstream i2(one);
        unsigned a, b; char c;
        while (i2 >> a >> c >> b) {
            r.back().push_back(std::cref(g[a][b]));
            if (!(i2 >> c)) break;
        }
    }
    return r;
}

} // namespace

int main()
{
    std::map<std::string, Handler> h;
    // glyph collection of the learning tools: load, report, save again
    h["lglyphs"] = [](std::istringstream& in, std::ostream& out) {
        std::string t; in >> t;
        std::istringstream is(unhex(t));
        loader2::Glyphs g;
        is >> g;
        out << "n " << g.size() << " eof " << is.eof() << '\n';
        for (auto& x : g) {
            out << x.img.width() << ' ' << x.img.height() << ' ' << std::string(x.img.data(), x.img.area()) << ' ' << x.views.size() << ' ';
            // the announced size is the size of the pixels
            if (x.img.width() && x.img.height()) { volatile char last = x.img.data()[std::size_t(x.img.width()) * x.img.height() - 1]; (void)last; }
            for (auto& v : x.views) out << hex(v.word) << '/' << hex(v.font) << '/' << v.info_line << ' ';
            out << '\n';
        }
        std::ostringstream os;
        os << g;
        out << hex(os.str()) << '\n';
        std::istringstream is2(os.str());
        loader2::Glyphs g2;
        is2 >> g2;
        out << "equal " << (g.size() == g2.size() && std::equal(g.begin(), g.end(), g2.begin())) << '\n';
    };
    // recognition database: labels, lookups, line infos
    h["words"] = [](std::istringstream& in, std::ostream& out) {
        std::string t, li; in >> t >> li;
        auto g = load<ocr2::Glyphs>(t);
        out << "n " << g.size() << '\n';
        for (auto& views : g) {
            for (auto& v : views) out << v.word << '/' << v.font << '/' << hex(word(g, v)) << ' ';
            out << '\n';
        }
        ocr2::WordsInfos wi(g, load<ocr2::WWordsLines>(li));
        std::unique_ptr<ocr2::Glyphs> nothing(new ocr2::Glyphs);    // no database loaded yet
        std::string p;
        while (in >> p) {
            auto s = unhex(p);
            if (nothing->word_index_of(s) != ocr2::Glyphs::no_index) out << "found in an empty database\n";
            auto i = g.word_index_of(s);
            if (i == ocr2::Glyphs::no_index) { out << "no\n"; continue; }
            out << i;
            ocr2::View v{i, 0};
            out << ' ' << hex(word(g, v));
            if (auto* q = wi.get(i)) out << ' ' << q->lines.ascentline << q->lines.capline << q->lines.meanline << q->lines.baseline;
            out << '\n';
        }
        if (wi.get(~0u)) out << "info of no word\n";
    };
    // candidates of a sequence of bitmaps recognised with the same state
    h["rec"] = [](std::istringstream& in, std::ostream& out) {
        std::string tg, td; unsigned n; in >> tg >> td >> n;
        auto d = load<PpOcrDatas>(td);
        auto g = load<ocr2::Glyphs>(tg);
        if (g.size() != d.size()) { out << "sizes " << g.size() << ' ' << d.size() << '\n'; return; }
        Recogniser r(g, d);
        fonts(out, g);
        for (unsigned i = 0; i < n; ++i) {
            Image img = read_image(in);
            put(out, g, r(img));
        }
    };
    // every stored bitmap of a shipped-size database (features recomputed from the bitmaps), in the
    // given order, against the labels it was stored with: reports the ones not recognised
    h["own"] = [](std::istringstream& in, std::ostream& out) {
        std::string path; unsigned mode, from, step; in >> path >> mode >> from >> step;
        std::ifstream f(path);
        loader2::Glyphs lg; f >> lg;
        PpOcrDatas d;
        for (auto& x : lg) d.load(x.img);
        auto g = utils::load_from_file<ocr2::Glyphs>(path);
        Recogniser r(g, d);
        unsigned n = 0, labels = 0, bad = 0;
        std::size_t const sz = lg.size();
        for (std::size_t k = from; k < sz; k += step) {
            std::size_t i = mode == 0 ? k : sz - 1 - k;
            auto l = r(lg[i].img);
            ++n;
            labels += l.size();
            std::set<std::string> got;
            for (ocr2::View const& v : l) got.insert(word(g, v));
            for (auto& v : lg[i].views) if (!got.count(v.word) && bad++ < 3)
                out << "lost " << i << ' ' << hex(v.word) << '\n';
            if (mode == 2) {
                auto l2 = r(lg[i].img);
                bool same = l.size() == l2.size();
                for (std::size_t q = 0; same && q < l.size(); ++q) same = &l[q].get() == &l2[q].get();
                if (!same && bad++ < 3) out << "unstable " << i << '\n';
            }
        }
        out << "recognised " << n << " labels " << labels << " bad " << bad << " of " << sz << '\n';
    };
    h["lines"] = [](std::istringstream& in, std::ostream& out) {
        std::string tg, li, cs; unsigned n; in >> tg >> li >> cs >> n;
        auto g = load<ocr2::Glyphs>(tg);
        ocr2::WordsInfos wi(g, load<ocr2::WWordsLines>(li));
        auto c = cands(g, cs);
        std::vector<Box> boxes;
        boxes.reserve(n);
        for (unsigned i = 0; i < n; ++i) {
            unsigned x, y, w, hh; in >> x >> y >> w >> hh;
            boxes.push_back(Box(Index(x, y), Bounds(w, hh)));
        }
        boxes.shrink_to_fit();
        ocr2::ambiguous_t amb(c.begin(), c.end());
        ocr2::filter_by_lines(amb, wi, boxes);
        fonts(out, g);
        out << amb.size() << '\n';
        for (auto& l : c) put(out, g, l);
    };
    h["font"] = [](std::istringstream& in, std::ostream& out) {
        std::string tg, cs; in >> tg >> cs;
        auto g = load<ocr2::Glyphs>(tg);
        auto c = cands(g, cs);
        ocr2::ambiguous_t amb(c.begin(), c.end());
        fonts(out, g);
        out << ocr2::filter_by_font(amb) << '\n';
        for (auto& l : c) put(out, g, l);
    };
    // text assembly; the dictionary is built from words or loaded from a file
    h["text"] = [](std::istringstream& in, std::ostream& out) {
        std::string tg, cs, pre; unsigned nw, ns; in >> tg >> cs >> pre >> nw;
        std::vector<std::string> words(nw);
        for (auto& w : words) { in >> w; w = unhex(w); }
        in >> ns;
        std::vector<unsigned> sp(ns);
        for (auto& s : sp) in >> s;
        auto g = load<ocr2::Glyphs>(tg);
        auto c = cands(g, cs);
        ocr2::ambiguous_t amb(c.begin(), c.end());
        spell::Dictionary dict;
        if (nw) dict = spell::Dictionary(words);
        std::string res = unhex(pre);
        unsigned cnt = ocr2::disambiguous_with_dict(amb, g, dict, sp.cbegin(), res);
        out << cnt << ' ' << hex(res) << '\n';
    };
    h["repl"] = [](std::istringstream& in, std::ostream& out) {
        std::string r, t; in >> r;
        std::istringstream is(unhex(r));
        ocr2::Replacements rs;
        is >> rs;
        out << rs.size() << '\n';
        for (auto& x : rs) out << hex(x.pattern) << ' ' << hex(x.replace) << '\n';
        while (in >> t) {
            auto s = unhex(t);
            ocr2::replace_words(s, rs);
            out << hex(s) << '\n';
        }
    };
    // rules given directly (patterns and replacements of any bytes)
    h["rules"] = [](std::istringstream& in, std::ostream& out) {
        unsigned n; in >> n;
        ocr2::Replacements rs;
        for (unsigned i = 0; i < n; ++i) {
            std::string a, b; in >> a >> b;
            rs.push_back({unhex(a), unhex(b)});
        }
        std::string t;
        while (in >> t) {
            auto s = unhex(t);
            ocr2::replace_words(s, rs);
            out << hex(s) << '\n';
        }
    };
    return run(h);
}

// What a program does with the library: a loaded database, and workers that decode, segment, recognise, learn, spell.
#pragma once
#include <algorithm>
#include <atomic>
#include <fstream>
#include <random>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>

#include "ppocr/image/image.hpp"
#include "ppocr/image/image_from_file.hpp"
#include "ppocr/box_char/make_box_character.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/utils/read_file.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/ocr2/probabilities.hpp"
#include "ppocr/ocr2/image_context.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/words_infos.hpp"
#include "ppocr/ocr2/ambiguous.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/cache.hpp"
#include "ppocr/ocr2/replacement.hpp"

using namespace ppocr;

template<class... Ts> struct first_of;
template<template<class...> class L, class T, class... Ts> struct first_of<L<T, Ts...>> { using type = T; };
using First = typename first_of<PpOcrDatas>::type;

struct Shared
{
    std::string glyphs_path;
    std::vector<std::string> files;
    std::vector<std::string> words;
    PpOcrDatas const datas;
    ocr2::Glyphs const glyphs;
    ocr2::WordsInfos const infos;
    ocr2::DataIndexesByWords const by_words;
    std::vector<unsigned> const id_views;
    ocr2::DataIndexesOrdered<First> const ordered;
    spell::Dictionary const dict;
    ocr2::Replacements rules;
    std::vector<std::string> paths;
    std::vector<Image> images;

    static std::vector<std::string> lines(char const* p)
    {
        std::ifstream f(p);
        std::vector<std::string> r;
        for (std::string s; std::getline(f, s);) r.push_back(s);
        return r;
    }

    Shared(char** av)
    : glyphs_path(av[0]), files(av, av + 5), words(lines(av[3]))
    , datas(utils::load_from_file<PpOcrDatas>(av[1])), glyphs(utils::load_from_file<ocr2::Glyphs>(av[0]))
    , infos(glyphs, utils::load_from_file<ocr2::WWordsLines>(av[2])), by_words(glyphs)
    , id_views(ocr2::get_views_indexes_ordered(glyphs)), ordered(datas), dict(words)
    {
        utils::read_file(rules, av[4]);
        for (char** p = av + 5; *p; ++p) {
            paths.push_back(*p);
            images.push_back(image_from_file(*p));
        }
    }
};

// when which thread was in which stage: tickets are relaxed, so they order nothing
std::atomic<unsigned long> ticket{0};
struct Stage { unsigned what; unsigned long in, out; };
enum { DECODE, SEGMENT, RECOGNISE, LINES, FONT, TEXT, RULES, LEARN, FEATURES, BUILD, LOOKUP, LOAD, WRITE, NSTAGES };

struct Worker
{
    Shared const& sh;
    std::mt19937 rnd;
    bool jitter;
    std::vector<Stage> log;
    ocr2::Probabilities p1, p2;
    ocr2::ImageContext ctx;
    PpOcrDataCtxs dctx;
    ocr2::image_cache_type_t cache;

    Worker(Shared const& s, unsigned seed, bool jitter) : sh(s), rnd(seed), jitter(jitter), p1(s.glyphs.size()), p2(s.glyphs.size()) {}

    template<class F> void stage(unsigned what, F f)
    {
        if (jitter) switch (rnd() % 8) {
            case 0: std::this_thread::yield(); break;
            case 1: usleep(rnd() % 300); break;
        }
        unsigned long in = ticket.fetch_add(1, std::memory_order_relaxed);
        f();
        log.push_back({what, in, ticket.fetch_add(1, std::memory_order_relaxed)});
    }

    // everything the recognition tool does with one image, from its file or from the shared picture
    std::string recognise(unsigned n, bool decode)
    {
        Image own;
        if (decode) stage(DECODE, [&] { own = image_from_file(sh.paths[n].c_str()); });
        Image const& img = decode ? own : sh.images[n];
        std::vector<Box> boxes;
        std::vector<ocr2::view_ref_list> cands;
        std::vector<unsigned> spaces;
        std::ostringstream out;
        unsigned x = 0, i = 0;
        while (1) {
            Box b;
            stage(SEGMENT, [&] { b = make_box_character(img, {x, 0}, img.bounds()); });
            if (!b) break;
            if (x + 4 < b.x()) spaces.push_back(i);
            ++i;
            Image const& w = ctx.img(b.bounds(), [&](Pixel* p) { section(img, p, b.index(), b.bounds()); });
            auto it = cache.find(w);
            if (it == cache.end()) {
                ocr2::view_ref_list l;
                stage(RECOGNISE, [&] {
                    l = ocr2::compute_image(PpOcrSimpleDatas{}, PpOcrComplexDatas{}, PpOcrExclusiveDatas{}, p1, p2, sh.datas,
                        sh.ordered, sh.by_words, sh.glyphs, sh.id_views, w, ctx.img90(), dctx, 0.5);
                });
                it = cache.emplace(w.clone(), std::move(l)).first;
            }
            cands.push_back(it->second);
            for (ocr2::View const& v : it->second) out << sh.glyphs.get_word(v) << '/' << v.font << ' ';
            out << b.x() << ' ' << b.y() << ' ' << b.width() << ' ' << b.height() << '\n';
            boxes.push_back(b);
            x = b.x() + b.width();
        }
        ocr2::ambiguous_t amb(cands.begin(), cands.end());
        stage(LINES, [&] { ocr2::filter_by_lines(amb, sh.infos, boxes); });
        stage(FONT, [&] { out << ocr2::filter_by_font(amb) << '\n'; });
        for (auto& l : cands) { for (ocr2::View const& v : l) out << sh.glyphs.get_word(v) << ' '; out << '\n'; }
        spaces.push_back(amb.size());
        std::string text;
        stage(TEXT, [&] { out << ocr2::disambiguous_with_dict(amb, sh.glyphs, sh.dict, spaces.cbegin(), text) << '\n'; });
        out << text << '\n';
        stage(RULES, [&] { ocr2::replace_words(text, sh.rules); });
        out << text << '\n';
        return out.str();
    }

    // the learning side: bitmaps of an image as glyphs, saved and read back, and their features
    std::string learn(unsigned n)
    {
        Image const& img = sh.images[n];
        std::ostringstream os, fs;
        PpOcrDatas d;
        unsigned x = 0;
        stage(LEARN, [&] {
            while (auto const b = make_box_character(img, {x, 0}, img.bounds())) {
                os << loader2::Glyph{img.section(b.index(), b.bounds()), {{"w", "f", n}}};
                x = b.x() + b.width();
            }
        });
        stage(FEATURES, [&] {
            std::istringstream is(os.str());
            loader2::Glyphs g;
            is >> g;
            for (auto& q : g) d.load(q.img);
            fs << d;
        });
        return os.str() + fs.str();
    }

    // dictionary: own one built, saved, loaded; the shared one asked
    std::string spell(unsigned n)
    {
        std::ostringstream out;
        std::vector<std::string> some;
        for (unsigned i = n % 3; i < sh.words.size(); i += 3) some.push_back(sh.words[i]);
        stage(BUILD, [&] {
            spell::Dictionary d(some), e;
            std::ostringstream os;
            os << d;
            std::istringstream is(os.str());
            is >> e;
            out << e;
        });
        stage(LOOKUP, [&] {
            for (unsigned i = n % 7; i < sh.words.size(); i += 7) {
                std::vector<std::vector<std::string>> c{{sh.words[i]}};
                std::string o;
                spell::WordDisambiguouser w;
                out << w(sh.dict, c.begin(), c.end(), o) << o << '\n';
                auto k = sh.glyphs.word_index_of(sh.words[i]);
                out << (k == ocr2::Glyphs::no_index ? -1L : long(k)) << '\n';
            }
        });
        return out.str();
    }

    // a database of its own, loaded from the same files, asked and written; shared pictures compared and shown
    std::string load(unsigned n)
    {
        std::ostringstream out;
        stage(LOAD, [&] {
            auto const d = utils::load_from_file<PpOcrDatas>(sh.files[1].c_str());
            auto const g = utils::load_from_file<ocr2::Glyphs>(sh.files[0].c_str());
            auto const m = utils::load_from_file<loader2::Glyphs>(sh.files[0].c_str());
            auto const l = utils::load_from_file<ocr2::WWordsLines>(sh.files[2].c_str());
            auto const r = utils::load_from_file<ocr2::Replacements>(sh.files[4].c_str());
            ocr2::WordsInfos const infos(g, l);
            ocr2::DataIndexesByWords const by(g);
            auto const ids = ocr2::get_views_indexes_ordered(g);
            ocr2::DataIndexesOrdered<First> const ordered(d);
            for (auto& x : l) out << x.sv() << ' ' << x.wlines.baseline << x.wlines.meanline << '\n';
            for (auto& x : r) out << x.pattern << ' ' << x.replace << '\n';
            for (std::size_t i = 0; i < g.size(); ++i) {
                for (auto& v : g[i]) {
                    auto k = infos.get(v.word);
                    out << g.get_word(v) << v.font << (k ? int(k->lines.baseline) : -1) << ' ';
                }
                for (auto j : by[i]) out << j << ' ';
                auto const range = ordered.get_range(d, unsigned(i), 9);
                for (auto it = range.begin(); it != range.end(); ++it) out << *it << ' ';
                out << (ids[i] < g.size()) << d.eq(i, n % g.size()) << '\n';
            }
            out << m << d;
        });
        stage(WRITE, [&] {
            for (auto& i : sh.images) out << image_compare(i, sh.images[n]) << (i == sh.images[n]);
            out << sh.images[n].rotate90() << sh.images[n].clone() << sh.datas << sh.dict;
        });
        return out.str();
    }

    enum { KINDS = 5 };

    std::string task(unsigned t)
    {
        unsigned const n = t / KINDS;
        switch (t % KINDS) {
            case 4: return load(n);
            case 0: return recognise(n, false);
            case 1: return recognise(n, true);
            case 2: return learn(n);
        }
        return spell(n);
    }
};

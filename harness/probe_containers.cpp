// Tries, reordering and UTF-8 iterators.
#include "common.hpp"
#include <algorithm>
#include <cstdint>
#include "ppocr/container/trie.hpp"
#include "ppocr/utils/reindex.hpp"
#include "ppocr/utils/utf.hpp"

using namespace ppocr;
using namespace probe;

namespace {

template<class Seq>
std::vector<Seq> sequences(std::istream& in)
{
    unsigned n; in >> n;
    std::vector<Seq> v;
    for (; n--;) {
        std::string s; in >> s;
        Seq q;
        if (s[0] == 'h') {
            for (unsigned char c : unhex(s.substr(1))) q.push_back(static_cast<typename Seq::value_type>(c));
        } else {
            std::istringstream is(s);
            long long x;
            while (is >> x) { q.push_back(static_cast<typename Seq::value_type>(x)); is.ignore(1); }
        }
        v.push_back(std::move(q));
    }
    return v;
}

// every node in order: depth, value, mark, number of children, and where the asked values are among the children
template<class T, class Node, class Q>
void dump(Node const& level, Q const& qs, unsigned depth, std::ostream& out, std::size_t& nodes)
{
    out << "[" << level.size() << (level.empty() ? "e" : "");
    for (auto& q : qs) out << ' ' << (level.lower_bound(q) - level.begin());
    out << "]";
    for (auto& n : level) {
        ++nodes;
        out << ' ' << depth << ':' << +static_cast<long long>(n.get()) << (n.is_terminal() ? "!" : ".") << n.size() << (n.empty() ? "e" : "");
        auto const& kids = n.childrens();
        if (kids.begin() != n.begin() || kids.end() != n.end() || kids.size() != n.size()) out << "?children";
        for (auto& q : qs) if (n.lower_bound(q) != kids.lower_bound(q)) out << "?bound";
        dump<T>(kids, qs, depth + 1, out, nodes);
    }
}

template<class Seq>
void trie(std::istream& in, std::ostream& out)
{
    using T = typename Seq::value_type;
    auto seqs = sequences<Seq>(in);
    std::vector<T> qs;
    for (auto& q : sequences<std::vector<T>>(in)) qs.insert(qs.end(), q.begin(), q.end());
    container::trie<T> t(seqs.begin(), seqs.end());
    seqs.clear();
    seqs.shrink_to_fit();
    std::size_t n = 0, n2 = 0;
    std::ostringstream a;
    dump<T>(t, qs, 0, a, n);
    out << a.str() << '\n';
    container::flat_trie<T> f(t);
    std::ostringstream b;
    dump<T>(f.childrens(), qs, 0, b, n2);
    out << "flat " << (a.str() == b.str() ? "same" : b.str()) << " nodes " << n << ' ' << n2 << ' ' << f.all().size() << '\n';
    // other objects with the same nodes; the first one is gone when they are used
    std::vector<typename container::flat_trie<T>::node_type> nodes;
    for (std::size_t i = 0; i < f.all().size(); ++i)
        nodes.emplace_back(f[i].get(), f[i].relative_pos(), f[i].size(), f[i].is_terminal());
    container::flat_trie<T> copy(f), by_ref(nodes), by_it(nodes.begin(), nodes.end()), by_move(std::move(nodes)), moved(std::move(f)), assigned;
    f = container::flat_trie<T>();
    t = container::trie<T>();
    assigned = by_ref;
    out << "again";
    for (auto* p : {&copy, &by_ref, &by_it, &by_move, &moved, &assigned}) {
        std::ostringstream c;
        std::size_t k = 0;
        dump<T>(p->childrens(), qs, 0, c, k);
        out << ' ' << (c.str() == a.str());
    }
    out << '\n';
}

struct MoveOnly
{
    std::unique_ptr<std::string> p;
    MoveOnly() = default;
};

template<class Index, class Make, class Show>
void reorder(std::vector<unsigned long> const& ix, std::ostream& out, Make make, Show show)
{
    std::vector<Index> indexes(ix.begin(), ix.end());
    std::vector<decltype(make(0ul))> cont;
    for (std::size_t i = 0; i < ix.size(); ++i) cont.push_back(make(i));
    utils::reindex(indexes, cont);
    out << "order ";
    for (auto& x : cont) out << show(x) << ' ';
    out << '\n';
}

template<class It>
void walk_text(std::string const& s, std::ostream& out)
{
    // exact room: a step past the end is a step out of the block
    std::unique_ptr<uint8_t[]> p(new uint8_t[s.size() + 1]);
    std::memcpy(p.get(), s.data(), s.size());
    p[s.size()] = 0;
    It it(p.get());
    std::size_t steps = 0;
    while (*it) {
        if (*it != it.code()) out << "?code ";
        out << *it << '@' << (it.pos() - p.get()) << ' ';
        if (it.pos() > p.get() + s.size()) { out << "?beyond"; break; }
        if (++steps > s.size()) { out << "?endless"; break; }
        ++it;
    }
    out << "end@" << (it.pos() - p.get()) << '\n';
}

}

int main()
{
    std::map<std::string, Handler> h;
    h["trie-char"] = [](std::istringstream& in, std::ostream& out) { trie<std::string>(in, out); };
    h["trie-uchar"] = [](std::istringstream& in, std::ostream& out) { trie<std::vector<unsigned char>>(in, out); };
    h["trie-schar"] = [](std::istringstream& in, std::ostream& out) { trie<std::vector<signed char>>(in, out); };
    h["trie-short"] = [](std::istringstream& in, std::ostream& out) { trie<std::vector<short>>(in, out); };
    h["trie-char16"] = [](std::istringstream& in, std::ostream& out) { trie<std::u16string>(in, out); };
    h["trie-int"] = [](std::istringstream& in, std::ostream& out) { trie<std::vector<int>>(in, out); };
    h["trie-unsigned"] = [](std::istringstream& in, std::ostream& out) { trie<std::vector<unsigned>>(in, out); };
    h["reindex"] = [](std::istringstream& in, std::ostream& out) {
        std::string type; in >> type;
        std::vector<unsigned long> ix;
        for (unsigned long i; in >> i;) ix.push_back(i);
        auto s = [](std::size_t i) { return std::string(i % 40, 'q') + std::to_string(i); };
        auto m = [&](std::size_t i) { MoveOnly x; x.p.reset(new std::string(s(i))); return x; };
        auto sm = [](MoveOnly const& x) { return x.p ? *x.p : std::string("(gone)"); };
        auto n = [](std::size_t i) { return i * 3 + 1; };
        auto id = [](auto const& x) { return x; };
        if (type == "u-string") reorder<unsigned>(ix, out, s, id);
        else if (type == "z-move") reorder<std::size_t>(ix, out, m, sm);
        else if (type == "u-move") reorder<unsigned>(ix, out, m, sm);
        else if (type == "z-number") reorder<std::size_t>(ix, out, n, id);
        else if (type == "i-number") reorder<int>(ix, out, n, id);
        else if (type == "c-number") reorder<unsigned char>(ix, out, n, id);
        else throw std::runtime_error("type");
    };
    h["utf"] = [](std::istringstream& in, std::ostream& out) {
        std::string t; in >> t;
        auto s = unhex(t);
        walk_text<ppocr::utf::UTF8toUnicodeIterator>(s, out);
        walk_text<ppocr::utf::UTF8Iterator>(s, out);
        ppocr::utf::UTF8Iterator a(s.c_str());
        ppocr::utf::UTF8toUnicodeIterator b(s.c_str());
        out << *a << ' ' << *b << '\n';
    };
    return run(h);
}

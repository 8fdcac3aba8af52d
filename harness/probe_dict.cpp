// Dictionaries: construction, persistence, exact membership, disambiguation.
#include "common.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/utils/read_file.hpp"

using namespace ppocr;
using namespace probe;

namespace {

using Cands = std::vector<std::vector<std::string>>;

bool solve(spell::Dictionary const& d, Cands const& c, std::string& out)
{
    spell::WordDisambiguouser w;
    return w(d, c.begin(), c.end(), out);
}

// a word is found when the only candidate of one position spells it; asked both as a whole and
// letter by letter
std::string found(spell::Dictionary const& d, std::string const& w, std::vector<std::string> const& letters)
{
    std::string o;
    bool const a = solve(d, Cands{{w}}, o);
    std::string r = a ? "1" : "0";
    r += (o == (a ? w : std::string())) ? '=' : '!';
    Cands c;
    // (very long words by several letters: the search is as deep as the positions)
    std::size_t const step = letters.size() / 2000 + 1;
    for (std::size_t i = 0; i < letters.size(); ++i) {
        if (i % step) c.back()[0] += letters[i];
        else c.push_back({letters[i]});
    }
    o = "pre";
    bool const b = solve(d, c, o);
    r += b ? '1' : '0';
    r += (o == "pre" + (b ? w : std::string())) ? '=' : '!';
    return r;
}

std::vector<std::string> letters_of(std::string const& w)
{
    std::vector<std::string> r;
    for (std::size_t i = 0; i < w.size();) {
        std::size_t k = i + 1;
        while (k < w.size() && (static_cast<unsigned char>(w[k]) & 0xC0) == 0x80) ++k;
        r.push_back(w.substr(i, k - i));
        i = k;
    }
    return r;
}

std::vector<std::string> list(std::istream& in)
{
    unsigned n; in >> n;
    std::vector<std::string> v(n);
    for (auto& s : v) { in >> s; s = unhex(s); }
    return v;
}

void ask(spell::Dictionary const& d, std::vector<std::string> const& q, std::ostream& out)
{
    for (auto& w : q) out << found(d, w, letters_of(w)) << ' ';
    out << '\n';
}

} // namespace

int main()
{
    std::map<std::string, Handler> h;
    // build, query, save, load, query, save
    h["dict"] = [](std::istringstream& in, std::ostream& out) {
        auto words = list(in);
        auto q = list(in);
        spell::Dictionary d(words);
        out << "empty " << d.empty() << '\n';
        ask(d, q, out);
        std::ostringstream os;
        os << d;
        out << hex(os.str()) << '\n';
        std::istringstream is(os.str());
        spell::Dictionary e;
        is >> e;
        out << "eof " << is.eof() << " empty " << e.empty() << '\n';
        ask(e, q, out);
        std::ostringstream os2;
        os2 << e;
        out << "same " << (os2.str() == os.str());
        // read into a dictionary that holds other words: these are replaced; the formatting of the stream stays
        spell::Dictionary f(std::vector<std::string>{"other", "words", "zz"});
        std::istringstream is2(os.str());
        if (words.size() % 2) is2.unsetf(std::ios::skipws);
        is2.setf(std::ios::showpoint);
        auto const flags = is2.flags();
        is2 >> f;
        std::ostringstream os3;
        os3 << f;
        out << " over " << (os3.str() == os.str()) << " flags " << (is2.flags() == flags) << '\n';
    };
    // a stored dictionary: queries
    h["load"] = [](std::istringstream& in, std::ostream& out) {
        std::string t; in >> t;
        spell::Dictionary d;
        if (t[0] == '@') utils::read_file(d, t.c_str() + 1);
        else { std::istringstream is(unhex(t)); is >> d; out << "eof " << is.eof() << '\n'; }
        out << "empty " << d.empty() << '\n';
        ask(d, list(in), out);
        std::ostringstream os;
        os << d;
        out << hex(os.str().size() > 4000 ? std::to_string(std::hash<std::string>()(os.str())) : os.str()) << '\n';
    };
    // a dictionary file of any content, read the way the tools do: queries, saved again
    h["file"] = [](std::istringstream& in, std::ostream& out) {
        std::string t; in >> t;
        auto q = list(in);
        spell::Dictionary d;
        utils::read_file(d, db_path(t));
        out << "loaded " << d.empty() << '\n';
        for (auto& w : q) { std::string o; out << solve(d, Cands{{w}}, o); }
        out << '\n';
        Cands c;
        for (auto& w : q) if (c.size() < 4 && !w.empty()) c.push_back(q);
        std::string o;
        out << solve(d, c, o) << ' ' << hex(o) << '\n';
        std::ostringstream os;
        os << d;
        out << hex(os.str()) << '\n';
    };
    // disambiguation: words; then problems "prefix npos {ncand cand...}"
    h["amb"] = [](std::istringstream& in, std::ostream& out) {
        auto words = list(in);
        spell::Dictionary d(words);
        unsigned n; in >> n;
        for (unsigned i = 0; i < n; ++i) {
            std::string pre; unsigned np; in >> pre >> np;
            Cands c(np);
            for (auto& l : c) l = list(in);
            std::string o = unhex(pre);
            bool r = solve(d, c, o);
            out << r << ' ' << hex(o) << '\n';
        }
        if (words.empty()) { spell::Dictionary e; Cands c{{"a"}}; std::string o = "q"; out << solve(e, c, o) << hex(o) << '\n'; }
    };
    return run(h);
}

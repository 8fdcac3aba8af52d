#include "common.hpp"
#include "ppocr/image/image.hpp"
#include "ppocr/image/image_from_file.hpp"
#include "ppocr/image/image_from_string.hpp"
#include "ppocr/utils/image_compare.hpp"
#include "ppocr/box_char/make_box_character.hpp"
#include <cerrno>
#include <unistd.h>

using namespace ppocr;
using namespace probe;

// ---- fault injection on read(2): linked with -Wl,--wrap=read -----------------------------
namespace {
    struct Plan { bool on = false; std::string ops; std::size_t pos = 0; unsigned long calls = 0; } plan;
}
extern "C" ssize_t __real_read(int fd, void* buf, size_t n);
extern "C" ssize_t __wrap_read(int fd, void* buf, size_t n);
// ops: 'f' full read; 's' one byte; 'h' half; 'e' EIO; 'i' EINTR; '0' premature end of file (sticky)
extern "C" ssize_t __wrap_read(int fd, void* buf, size_t n)
{
    if (!plan.on) return __real_read(fd, buf, n);
    ++plan.calls;
    char op = plan.pos < plan.ops.size() ? plan.ops[plan.pos] : 'f';
    if (op != '0') ++plan.pos;
    switch (op) {
        case 's': return __real_read(fd, buf, n ? 1 : 0);
        case 'h': return __real_read(fd, buf, n > 1 ? n / 2 : n);
        case 'e': errno = EIO; return -1;
        case 'i': errno = EINTR; return -1;
        case '0': return 0;
        default: return __real_read(fd, buf, n);
    }
}

static Image read_image(std::istream& in)
{
    unsigned w, h; std::string s;
    in >> w >> h >> s;
    // exact-size buffer: any access outside the picture is out of the heap block
    PtrImageData d(new Pixel[s.size()]);
    std::memcpy(d.get(), s.data(), s.size());
    return Image({w, h}, std::move(d));
}

static void put(std::ostream& out, Image const& i)
{
    out << i.width() << ' ' << i.height() << ' ' << std::string(i.data(), i.data_end()) << '\n';
}

int main()
{
    std::map<std::string, Handler> h;
    h["load"] = [](std::istringstream& in, std::ostream& out) {
        std::string path, lum, ops; in >> path >> lum >> ops;
        path = unhex(path);
        plan = Plan{ops != "-" && !ops.empty(), ops, 0, 0};
        errno = 0;
        struct Off { ~Off() { plan.on = false; } } off;
        try {
            Image i = (lum == "-") ? image_from_file(path.c_str())
                                   : image_from_file(path.c_str(), unsigned(std::stoul(lum)));
            plan.on = false;
            out << "ok "; put(out, i);
        } catch (std::runtime_error const& e) {
            out << "err " << hex(e.what()) << '\n';
        }
        out << "reads " << plan.calls << '\n';
    };
    h["boxes"] = [](std::istringstream& in, std::ostream& out) {
        Image img = read_image(in);
        Bounds const bounds = img.bounds();
        unsigned x = 0, n = 0;
        for (;;) {
            Box const b = make_box_character(img, {x, 0}, bounds);
            if (!b) { out << "end\n"; break; }
            out << "box " << b.x() << ' ' << b.y() << ' ' << b.width() << ' ' << b.height() << '\n';
            if (b.x() + b.width() > img.width() || b.y() + b.height() > img.height()) {
                out << "outside\n"; break;
            }
            put(out, img.section(b.index(), b.bounds()));
            x = b.x() + b.width();
            if (++n > img.width() + 1) { out << "runaway\n"; break; }
        }
    };
    h["geom"] = [](std::istringstream& in, std::ostream& out) {
        Image img = read_image(in);
        unsigned x, y, w, hh; in >> x >> y >> w >> hh;
        Image const before = img.clone();
        put(out, img.rotate90());
        put(out, img.rotate90().rotate90().rotate90().rotate90());
        put(out, img.section({x, y}, {w, hh}));
        Image c = img.clone();
        put(out, c);
        out << (c.data() != img.data()) << (c == img) << !(c != img) << (before == img) << '\n';
        std::ostringstream os; os << img; out << hex(os.str()) << '\n';
        out << img[{x, y}] << '\n';
        for (bool b : hrange(img, {0, y}, img.width())) out << (b ? 'x' : '-');
        out << '\n';
        for (bool b : hrange(img, {x, y}, {w, hh})) out << (b ? 'x' : '-');
        out << '\n';
        auto r = hrange(img, {x, y}, {w, hh});
        out << rng::any(r) << rng::all(r) << rng::none(r) << '\n';
        auto it = r.begin(); auto last = r.end(); unsigned n = 0;
        while (rng::next_alternation(it, last)) ++n;
        out << n << '\n';
        std::string s(img.data(), img.data_end());
        put(out, image_from_string(img.bounds(), s.c_str()));
        { std::stringstream ss; ss << Index(x, y) << ' ' << Bounds(w, hh);
          Index i2; Bounds b2; ss >> i2 >> b2;
          out << (i2 == Index(x, y)) << (b2 == Bounds(w, hh)) << '\n'; }
    };
    h["cmp"] = [](std::istringstream& in, std::ostream& out) {
        Image a = read_image(in), b = read_image(in);
        int ab = image_compare(a, b), ba = image_compare(b, a);
        out << (ab < 0 ? -1 : ab > 0) << ' ' << (ba < 0 ? -1 : ba > 0) << ' '
            << (a == b) << (b == a) << (a != b) << image_less()(a, b) << image_less()(b, a) << '\n';
    };
    return run(h);
}

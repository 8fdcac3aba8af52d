// Several threads, each with its own recognition state, sharing one loaded database for reading.
// probe_threads SEED THREADS ROUNDS GLYPHS DATAS INFOS WORDS RULES IMAGE...
#include <atomic>
#include <set>
#include <sstream>
#include <thread>
#include <iostream>
#include <cstring>
#include <unistd.h>

#include "work.hpp"

int main(int ac, char** av)
{
    if (ac < 10) return 3;
    unsigned const seed = std::atoi(av[1]), threads = std::atoi(av[2]), rounds = std::atoi(av[3]);
    Shared const sh(av + 4);
    unsigned const tasks = sh.paths.size() * Worker::KINDS;
    struct Report { std::vector<Stage> log; std::vector<std::pair<unsigned, std::string>> got; };
    std::vector<Report> reports(threads);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> ts;
    for (unsigned k = 0; k < threads; ++k) ts.emplace_back([&, k] {
        Worker w(sh, seed * 1000 + k, true);
        std::vector<unsigned> order;
        for (unsigned r = 0; r < rounds; ++r) for (unsigned t = 0; t < tasks; ++t) order.push_back(t);
        std::shuffle(order.begin(), order.end(), w.rnd);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
        for (unsigned t : order) {
            reports[k].got.emplace_back(t, w.task(t));
        }
        reports[k].log = std::move(w.log);
    });
    for (auto& t : ts) t.join();
    // each task alone, with a database nobody else has used
    Shared const alone(av + 4);
    std::vector<std::string> want(tasks);
    for (unsigned t = 0; t < tasks; ++t) want[t] = Worker(alone, 0, false).task(t);
    unsigned long done = 0, stages = 0, overlaps = 0;
    std::set<std::pair<unsigned, unsigned>> pairs;
    for (unsigned k = 0; k < threads; ++k) {
        done += reports[k].got.size();
        stages += reports[k].log.size();
        for (unsigned j = k + 1; j < threads; ++j) {
            std::size_t b = 0;
            auto& B = reports[j].log;
            for (auto& a : reports[k].log) {
                while (b < B.size() && B[b].out < a.in) ++b;
                for (std::size_t i = b; i < B.size() && B[i].in < a.out; ++i) {
                    ++overlaps;
                    pairs.insert(std::minmax(a.what, B[i].what));
                }
            }
        }
        for (auto& b : reports[k].got) if (b.second != want[b.first]) {
            std::cout << "DIFFERS thread " << k << " task " << b.first << "\nalone:\n" << want[b.first] << "\nwith others:\n" << b.second << "\n";
            break;
        }
    }
    std::cout << "done " << done << " stages " << stages << " overlaps " << overlaps << " pairs " << pairs.size() << " chars";
    unsigned long chars = 0;
    for (auto& s : want) chars += std::count(s.begin(), s.end(), '\n');
    std::cout << ' ' << chars << "\n@end\n";
}

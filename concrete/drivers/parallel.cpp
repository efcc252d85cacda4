#include <pyclustering/parallel/parallel.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <iostream>
#include <mutex>
#include <numeric>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
using namespace pyclustering::parallel;

/* the number of processors that std::thread::hardware_concurrency() sees */
extern "C" int get_nprocs() { const char * e = getenv("PCV_CPUS"); return e ? atoi(e) : 8; }

static std::mutex lock;
static std::vector<long long> calls;
static int delay;
static void note(long long i) {
    if (delay) std::this_thread::sleep_for(std::chrono::microseconds((i * 7919 % 5 + 5) % 5 * delay));
    std::lock_guard<std::mutex> g(lock);
    calls.push_back(i);
}

template <class T> static void loop(long long b, long long e, long long s, long long t) {
    if (t) parallel_for((T) b, (T) e, (T) s, [](const T i) { note((long long) i); }, (std::size_t) t);
    else parallel_for((T) b, (T) e, (T) s, [](const T i) { note((long long) i); });
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::ostringstream o;
        char op, type; long long b, e, s, t;
        in >> op >> type >> b >> e >> s >> t >> delay;
        { std::lock_guard<std::mutex> g(lock); calls.clear(); }
        alarm(20);
        try {
            if (op == 'F') {
                if (type == 'z') loop<std::size_t>(b, e, s, t);
                else if (type == 'l') loop<long>(b, e, s, t);
                else if (type == 'i') loop<int>(b, e, s, t);
                else loop<unsigned>(b, e, s, t);
            }
            else if (op == 'P') parallel_for((std::size_t) b, (std::size_t) e, [](const std::size_t i) { note(i); });
            else if (op == 'N') parallel_for((std::size_t) b, (std::size_t) e, [e](const std::size_t i) {
                parallel_for((std::size_t) 0, (std::size_t) e, [e, i](const std::size_t j) { note(i * e + j); });
            });
            else {
                std::vector<long long> v(e - b);
                std::iota(v.begin(), v.end(), b);
                std::deque<long long> q(v.begin(), v.end());
                auto f = [](long long i) { note(i); };
                if (type == 'd') parallel_for_each(q.begin(), q.end(), f, (std::size_t) t);
                else if (t) parallel_for_each(v.begin(), v.end(), f, (std::size_t) t);
                else parallel_for_each(v, f);
            }
        } catch (const std::exception & x) { o << "EXCEPTION "; }
        {
            std::lock_guard<std::mutex> g(lock);
            for (auto i : calls) o << i << " ";
        }
        std::cout << o.str() << std::endl;
    }
}

#include <pyclustering/cluster/silhouette_ksearch.hpp>
#include <pyclustering/cluster/elbow.hpp>
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
using namespace pyclustering;
using namespace pyclustering::clst;

static dataset read_data(std::istream & in) {
    size_t n, d; in >> n >> d;
    dataset r(n, point(d));
    for (auto & p : r) for (auto & x : p) { std::string s; in >> s; x = strtod(s.c_str(), nullptr); }
    return r;
}
static std::mutex lock;
static std::vector<size_t> amounts;
struct first_points {
    size_t k;
    first_points(size_t k_, long long) : k(k_) { }
    void initialize(const dataset & data, dataset & centers) const {
        { std::lock_guard<std::mutex> g(lock); amounts.push_back(k); }
        centers = dataset(data.begin(), data.begin() + k);
    }
};
struct prescribed : silhouette_ksearch_allocator {
    std::map<size_t, cluster_sequence> m;
    void allocate(const std::size_t k, const dataset & d, cluster_sequence & c) override { allocate(k, d, 0, c); }
    void allocate(const std::size_t k, const dataset &, const long long, cluster_sequence & c) override { amounts.push_back(k); c = m[k]; }
};
static void show(std::ostream & o, double x) { char b[64]; snprintf(b, 64, "%.17g ", x); o << b; }

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op; in >> op;
        std::ostringstream o;
        amounts.clear();
        if (op == "E") {
            size_t kmin, kmax, step; in >> kmin >> kmax >> step;
            dataset data = read_data(in);
            elbow_data r;
            elbow<first_points>(kmin, kmax, step, 5).process(data, r);
            std::sort(amounts.begin(), amounts.end());
            for (auto a : amounts) o << a << " ";
            o << "\t" << r.get_amount() << "\t";
            for (double w : r.get_wce()) show(o, w);
        }
        else {
            size_t kmin, kmax; in >> kmin >> kmax;
            dataset data = read_data(in);
            auto a = std::make_shared<prescribed>();
            size_t groups; in >> groups;
            while (groups--) {
                size_t k, n; in >> k >> n;
                cluster_sequence c(n);
                for (auto & x : c) { size_t s; in >> s; x.resize(s); for (auto & i : x) in >> i; }
                a->m[k] = c;
            }
            silhouette_ksearch_data r;
            silhouette_ksearch(kmin, kmax, a, 5).process(data, r);
            for (auto k : amounts) o << k << " ";
            o << "\t" << r.get_amount() << "\t"; show(o, r.get_score()); o << "\t";
            for (double w : r.scores()) show(o, w);
        }
        std::cout << o.str() << std::endl;
    }
}

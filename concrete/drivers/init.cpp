#include <pyclustering/cluster/kmeans_plus_plus.hpp>
#include <pyclustering/cluster/random_center_initializer.hpp>
#include <pyclustering/cluster/pam_build.hpp>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
using namespace pyclustering;
using namespace pyclustering::clst;
using namespace pyclustering::utils::metric;

static void show(std::ostream & o, const dataset & c) { for (auto & p : c) { for (double x : p) { char b[64]; snprintf(b, 64, "%.17g ", x); o << b; } o << "; "; } }

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::ostringstream o;
        std::string op; in >> op;
        size_t amount, n, d, m; long candidates, seed; in >> amount >> candidates >> seed >> n >> d;
        dataset data(n, point(d));
        for (auto & p : data) for (auto & x : p) { std::string s; in >> s; x = strtod(s.c_str(), nullptr); }
        in >> m;
        index_sequence subset(m);
        for (auto & x : subset) in >> x;
        size_t cand = candidates < 0 ? kmeans_plus_plus::FARTHEST_CENTER_CANDIDATE : candidates;
        try {
            if (op == "K") {
                kmeans_plus_plus k(amount, cand, seed);
                dataset c;
                for (int i = 0; i < 2; i++) {
                    if (m) k.initialize(data, subset, c); else k.initialize(data, c);
                    o << (i ? "\t" : ""); show(o, c);
                }
                index_sequence idx;
                k.initialize(data, idx);
                o << "\t"; for (auto i : idx) o << i << " ";
            }
            else if (op == "R") {
                random_center_initializer r(amount, seed);
                dataset c;
                for (int i = 0; i < 2; i++) { r.initialize(data, c); o << (i ? "\t" : ""); show(o, c); }
            }
        } catch (const std::exception & e) { o.str(""); o << "EXCEPTION"; }
        std::cout << o.str() << std::endl;
    }
}

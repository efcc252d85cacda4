#include <pyclustering/nnet/sync.hpp>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
using namespace pyclustering;
using namespace pyclustering::nnet;

/* input: states n tolerance iteration phases...; output: ensembles | order per state | local order and correlation */
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::ostringstream o;
        o.precision(17);
        size_t s, n, it; double tol;
        in >> s >> n >> tol >> it;
        sync_dynamic d;
        for (size_t i = 0; i < s; i++) {
            sync_network_state st;
            st.m_time = (double) i;
            st.m_phase.resize(n);
            for (auto & x : st.m_phase) in >> x;
            d.push_back(st);
        }
        ensemble_data<sync_ensemble> e;
        d.allocate_sync_ensembles(tol, it, e);
        for (auto & c : e) { for (auto x : c) o << x << " "; o << ";"; }
        std::vector<double> ord;
        d.calculate_order_parameter(0, s, ord);
        o << "|";
        for (auto x : ord) o << x << " ";
        std::cout << o.str() << std::endl;
    }
}

#include <pyclustering/container/adjacency_bit_matrix.hpp>
#include <pyclustering/container/adjacency_connector.hpp>
#include <pyclustering/container/adjacency_factory.hpp>
#include <pyclustering/container/adjacency_list.hpp>
#include <pyclustering/container/adjacency_matrix.hpp>
#include <pyclustering/container/adjacency_weight_list.hpp>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
using namespace pyclustering;
using namespace pyclustering::container;

/* input: representation structure n width height (0 0: square) operations: s i j, e i j, w i j x; output: has matrix, neighbour lists, weights */
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::ostringstream o;
        int rep, structure; size_t n, w, h;
        in >> rep >> structure >> n >> w >> h;
        std::shared_ptr<adjacency_collection> a;
        std::shared_ptr<adjacency_weight_collection> wa;
        connection_t t = (connection_t) structure;
        connection_t first = (w || h) ? connection_t::CONNECTION_NONE : t;
        try {
            if (rep < 3) a = adjacency_unweight_factory::create_collection(n, (adjacency_unweight_t) rep, first);
            else a = wa = adjacency_weight_factory::create_collection(n, (adjacency_weight_t) (rep - 3), first, []() { return 2.0; });
            if (w || h) { adjacency_connector<adjacency_collection> c; c.create_grid_structure(t, w, h, *a); }
        } catch (const std::exception &) { std::cout << "EXCEPTION" << std::endl; continue; }
        std::string op;
        while (in >> op) {
            size_t i, j; in >> i >> j;
            if (op == "s") a->set_connection(i, j);
            else if (op == "e") a->erase_connection(i, j);
            else { double x; in >> x; if (wa) wa->set_connection_weight(i, j, x); }
        }
        o << a->size() << "\t";
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) o << (a->has_connection(i, j) ? "1" : "0");
        o << "\t";
        for (size_t i = 0; i < n; i++) { std::vector<size_t> r = { 7, 7, 7 }; a->get_neighbors(i, r); for (auto x : r) o << x << " "; o << "; "; }
        o << "\t";
        if (wa) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { char b[64]; snprintf(b, 64, "%.17g ", wa->get_connection_weight(i, j)); o << b; }
        std::cout << o.str() << std::endl;
    }
}

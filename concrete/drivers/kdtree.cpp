#include <pyclustering/container/kdtree.hpp>
#include <pyclustering/container/kdtree_balanced.hpp>
#include <pyclustering/container/kdtree_searcher.hpp>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
using namespace pyclustering;
using namespace pyclustering::container;

static size_t dim;
static point read_point(std::istream & in) { point p(dim); for (auto & x : p) { std::string s; in >> s; x = strtod(s.c_str(), nullptr); } return p; }
static void show(std::ostream & o, const kdnode::ptr & n) {
    if (!n) { o << " ."; return; }
    o << " ( ";
    for (double x : n->get_data()) { char b[64]; snprintf(b, 64, "%.17g ", x); o << b; }
    o << (long) n->get_payload() << " " << n->get_discriminator() << " ";
    bool ok = (!n->get_left() || n->get_left()->get_parent() == n) && (!n->get_right() || n->get_right()->get_parent() == n);
    o << (ok ? 1 : 0);
    show(o, n->get_left()); show(o, n->get_right());
    o << " )";
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        size_t n; int variant;
        in >> variant >> dim >> n;
        dataset data; std::vector<void *> pay;
        for (size_t i = 0; i < n; i++) { data.push_back(read_point(in)); long p; in >> p; pay.push_back((void *) p); }
        kdtree tree; kdtree_balanced bal;
        if (variant == 0) bal = kdtree_balanced(data, pay); else if (n) tree = kdtree(data, pay);
        kdtree_balanced & t = variant == 0 ? bal : tree;
        std::ostringstream o;
        std::string op;
        while (in >> op) {
            if (op == "I") { point p = read_point(in); long q; in >> q; auto r = tree.insert(p, (void *) q); o << "I " << (long) r->get_payload() << "\t"; }
            else if (op == "R") { tree.remove(read_point(in)); o << "R\t"; }
            else if (op == "P") { point p = read_point(in); long q; in >> q; tree.remove(p, (const void *) q); o << "P\t"; }
            else if (op == "F") { auto r = t.find_node(read_point(in)); o << "F " << (r ? (long) r->get_payload() : -1) << "\t"; }
            else if (op == "G") { point p = read_point(in); long q; in >> q; auto r = t.find_node(p, (const void *) q); o << "G " << (r ? (long) r->get_payload() : -1) << "\t"; }
            else if (op == "N" || op == "Q" || op == "U") {
                point p = read_point(in); double rad; std::string s; in >> s; rad = strtod(s.c_str(), nullptr);
                o << op;
                if (t.get_root()) {
                    kdtree_searcher sr(p, t.get_root(), rad);
                    if (op == "N") { auto r = sr.find_nearest_node(); o << " " << (r ? (long) r->get_payload() : -1); }
                    else if (op == "Q") { std::vector<double> d; std::vector<kdnode::ptr> ns; sr.find_nearest_nodes(d, ns); for (size_t i = 0; i < ns.size(); i++) { char b[64]; snprintf(b, 64, " %ld %.17g", (long) ns[i]->get_payload(), d[i]); o << b; } }
                    else sr.find_nearest([&o](const kdnode::ptr & nd, const double d) { char b[64]; snprintf(b, 64, " %ld %.17g", (long) nd->get_payload(), d); o << b; });
                }
                o << "\t";
            }
            else if (op == "D") { o << "D " << t.get_size(); show(o, t.get_root()); o << "\t"; }
        }
        std::cout << o.str() << std::endl;
    }
}

#include <pyclustering/interface/pyclustering_package.hpp>
#include <deque>
#include <list>
#include <set>
#include <string>
#include <vector>
/* unpacks a package with the library's code, describes what has arrived in a text of its own and packs the data again */
static std::string text;
template <class T> static void say(const std::vector<T> & v) {
    text += "[";
    for (auto & x : v) { char b[64]; if (std::is_same<T, double>::value || std::is_same<T, float>::value) snprintf(b, 64, "%.17g,", (double) x); else if (std::is_unsigned<T>::value) snprintf(b, 64, "%llu,", (unsigned long long) x); else snprintf(b, 64, "%lld,", (long long) x); text += b; }
    text += "]";
}
template <class T> static pyclustering_package * one(const pyclustering_package * p, int form) {
    text.clear();
    std::vector<T> v;
    p->extract(v);
    say(v);
    if (form == 1) { std::deque<T> d(v.begin(), v.end()); return create_package(&d); }
    if (form == 2) { std::list<T> d(v.begin(), v.end()); return create_package(&d); }
    return create_package(&v);
}
template <class T> static pyclustering_package * two(const pyclustering_package * p, int form) {
    text.clear();
    std::vector<std::vector<T>> v;
    p->extract(v);
    text += "[";
    for (auto & r : v) { say(r); text += ","; }
    text += "]";
    if (form == 1) { std::vector<std::vector<T> *> q; for (auto & r : v) q.push_back(&r); return create_package(&q); }
    if (form == 2) {
        pyclustering_package * r = create_package_container(v.size());
        for (std::size_t i = 0; i < v.size(); i++) ((pyclustering_package **) r->data)[i] = create_package(&v[i]);
        return r;
    }
    return create_package(&v);
}
template <class T> static double at(const pyclustering_package * p, std::size_t i, std::size_t j, int d) { return (double) (d == 2 ? p->at<T>(i, j) : p->at<T>(i)); }
#define ALL(c, call) switch (c) { case 'i': return call(int); case 'u': return call(unsigned int); case 'f': return call(float); case 'd': return call(double); case 'l': return call(long); default: return call(std::size_t); }
extern "C" pyclustering_package * echo(const pyclustering_package * p, char type, int dim, int form) {
#define E(T) (dim == 2 ? two<T>(p, form) : one<T>(p, form))
    ALL(type, E)
}
extern "C" double element(const pyclustering_package * p, char type, int dim, std::size_t i, std::size_t j) {
#define A(T) at<T>(p, i, j, dim)
    ALL(type, A)
}
extern "C" pyclustering_package * filled(char type, std::size_t n, double x) {
#define F(T) create_package<T>(n, (T) x)
    ALL(type, F)
}
extern "C" pyclustering_package * message(const char * s) { return create_package(s); }
extern "C" const char * described() { return text.c_str(); }
extern "C" void release(pyclustering_package * p) { delete p; }

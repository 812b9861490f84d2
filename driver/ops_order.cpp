// Elements as keys of ordered containers: comparison operators, std::set, std::map, std::sort.
#include "drv.hpp"
#include <algorithm>
#include <set>
using namespace drv;

template<class T> static string order(Req& r) {
    size_t n = r.num();
    vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(parse<T>(r.next()));
    const vector<T> c = v;
    string m; bool agree = true;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        const T &a = c[i], &b = c[j];
        auto o = a <=> b;
        char x = o < 0 ? '<' : o > 0 ? '>' : o == 0 ? '=' : '?';
        m += x;
        agree = agree && (a < b) == (x == '<') && (a > b) == (x == '>') && (a <= b) == (x == '<' || x == '=') && (a >= b) == (x == '>' || x == '=');
        agree = agree && (a == b) == (x == '=') && (a != b) == (x != '=');
    }
    // std::map in the order given; every key must be found again, with the value stored first
    std::map<T, size_t> mp; for (size_t i = 0; i < n; i++) mp.emplace(c[i], i);
    string found, seq;
    for (size_t i = 0; i < n; i++) { auto it = mp.find(c[i]); found += it == mp.end() ? string("-") : std::to_string(it->second); found += ','; }
    for (auto& e : mp) seq += std::to_string(e.second) + ",";
    std::set<T> st(c.rbegin(), c.rend());
    bool sameSeq = st.size() == mp.size();
    { auto a = st.begin(); for (auto b = mp.begin(); sameSeq && b != mp.end(); ++a, ++b) sameSeq = !memcmp((const void*)&*a, (const void*)&b->first, sizeof(T)); }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    bool sorted = v.size() == mp.size();
    { auto a = v.begin(); for (auto b = mp.begin(); sorted && b != mp.end(); ++a, ++b) sorted = !memcmp((const void*)&*a, (const void*)&b->first, sizeof(T)); }
    // removing every second key leaves exactly the others
    bool erased = true; size_t k = 0; std::set<T> rest;
    for (auto& e : mp) { if (k++ & 1) { if (st.erase(e.first) != 1) erased = false; } else rest.insert(e.first); }
    erased = erased && st.size() == rest.size();
    for (auto& e : rest) erased = erased && st.count(e) == 1;
    return m + " " + found + " " + seq + (agree ? "" : " operators-disagree") + (sameSeq ? "" : " set-differs-from-map") + (sorted ? "" : " sort-differs-from-map") + (erased ? "" : " erase-wrong");
}
OP("order") { string t = r.next();
    if (t == "fp") return order<fp>(r);
    if (t == "fp2") return order<fp2>(r);
    if (t == "g1") return order<g1>(r);
    if (t == "g2") return order<g2>(r);
    throw BadRequest("type"); } ENDOP

// Runs the cases of other properties for what the sanitizers say about them. Whether their results are right is
// decided by those properties; here a case that fails its oracle just ends.
#pragma once
#include "engine.h"
#include "gen.h"

namespace x02 {

using pbt::Case;
using pbt::Property;
using pbt::Source;
using pbt::Sub;

inline void add(std::vector<Sub>& subs, Property p, const std::string& sub, int quick, int thorough, std::function<void(Case&)> after = nullptr) {
    for (auto& s : p.subs) if (s.name == sub) {
        Sub r = s; r.name = p.id + "-" + sub; r.quick = quick; r.thorough = thorough; r.hang_is_violation = false;
        auto fn = s.fn;
        r.fn = [fn, after](Source& src, Case& c) {
            try { fn(src, c); } catch (const pbt::Failure&) { c.label("ended by the oracle of the other property"); }
            catch (const pbt::Skip&) { c.label("outside the domain of the other property"); }
            catch (...) { c.label("ended by an exception"); }
            c.nontrivial(); if (after) after(c);
        };
        subs.push_back(r); return;
    }
    throw std::logic_error("no sub-check " + sub + " of " + p.id);
}

} // namespace x02

namespace pbt {
Property define_G01(); Property define_G04(); Property define_G05(); Property define_G06(); Property define_G07(); Property define_G08(); Property define_G09(); Property define_G10(); Property define_G11();
Property define_H01(); Property define_H04(); Property define_H05(); Property define_H06(); Property define_H07(); Property define_H08(); Property define_H09(); Property define_H10();
Property define_C01(); Property define_C01_hyper(); Property define_C02(); Property define_C03(); Property define_C04(); Property define_C05(); Property define_C06(); Property define_C07();
}

namespace x02 {

inline std::vector<Sub> libraryCalls(double f) {
    using namespace pbt;
    std::vector<Sub> s; auto k = [&](double x) { return std::max(1, int(x * f)); };
    add(s, define_G01(), "small", k(1500), k(60000)); add(s, define_G01(), "large", k(10), k(300));
    add(s, define_G04(), "simple", k(1000), k(40000)); add(s, define_G04(), "clique", k(200), k(8000)); add(s, define_G04(), "many", k(4), k(60));
    add(s, define_G05(), "history", k(60), k(2000)); add(s, define_G05(), "reuse", k(200), k(6000)); add(s, define_G05(), "seeds", k(100), k(3000));
    add(s, define_G06(), "small", k(2000), k(60000)); add(s, define_G07(), "small", k(2000), k(60000)); add(s, define_G08(), "formula", k(4000), k(200000)); add(s, define_G09(), "scaling", k(10000), k(500000)); add(s, define_G10(), "round-trip", k(2000), k(80000)); add(s, define_G10(), "unopenable", k(100), k(2000));
    add(s, define_H01(), "small", k(1500), k(60000)); add(s, define_H01(), "large", k(10), k(300));
    add(s, define_H04(), "simple", k(1000), k(40000)); add(s, define_H04(), "many", k(4), k(60));
    add(s, define_H05(), "history", k(60), k(2000)); add(s, define_H05(), "reuse", k(200), k(6000)); add(s, define_H05(), "seeds", k(100), k(3000));
    add(s, define_H06(), "small", k(3000), k(60000)); add(s, define_H07(), "small", k(3000), k(60000)); add(s, define_H08(), "formula", k(40000), k(1000000)); add(s, define_H09(), "warm", k(40000), k(1000000)); add(s, define_H09(), "cold", k(3000), k(100000));
    return s;
}

} // namespace x02

// bring a model to the state the search works on
#pragma once
#include "common.h"
inline option::Option base_option(H &h, bool presolve) {
    option::Option o;
    o.preprocess.is_enabled_presolve = presolve;
    o.neighborhood.is_enabled_precedence_move = true; o.neighborhood.is_enabled_variable_bound_move = true;
    o.neighborhood.is_enabled_trinomial_exclusive_nor_move = true; o.neighborhood.is_enabled_soft_selection_move = true;
    return o;
}
inline option::selection_mode::SelectionMode sel_mode(int k) {
    using namespace option::selection_mode;
    return k == 0 ? Off : k == 1 ? Defined : k == 2 ? Smaller : k == 3 ? Larger : Independent;
}
// instances with a planted exactly-one group so that selections exist
inline void plant_selection(H &h, Inst &in, int k) {
    int b = in.n(); RE e; e.k = -1;
    for (int i = 0; i < k; i++) { in.add(0, 1, false, i == 0); e.c[b + i] = 1; }
    in.cons.push_back(RC{e, Sense::Equal});
}

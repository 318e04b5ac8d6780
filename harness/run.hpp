#pragma once
#include "model.hpp"
struct Result {
    bool fail = false, inconclusive = false, vacuous = false;
    Fail f;
    map<string, i64> stat;
    i64 fuse_ops = 0, inj_hits = 0, inj_fired = 0;
    int sessions = 0;
};
struct PropSpec {
    string id;
    unsigned mask;
    vector<std::pair<string, int>> profs;
    string rule;
};
const PropSpec* prop_spec(const string& id);
bool nontrivial(const string& prop, const Case& c, const Result& r);
Result run_case(const Case& c, const PropSpec& p, const string& base, Shm* shm);

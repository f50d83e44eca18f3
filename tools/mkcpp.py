"""seedcpp(id, prop, needs, breaks, edits, cpp): a seed whose demonstration is a C++ program over /repo/include"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import seed
SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cd /repo
g++ -std=c++17 -O1 %s -I/repo/include "$here/demo.cpp" -o "$tmp/demo" -lpthread || exit 3
%stimeout 200 %s"$tmp/demo"
"""
HEAD = """#include <memory>
#include <cstdio>
#include <cstdlib>
#include "find_embedding/find_embedding.hpp"
using namespace find_embedding;
struct Quiet : LocalInteraction {
    void displayOutputImpl(int, const std::string &) const override {}
    void displayErrorImpl(int, const std::string &) const override {}
    bool cancelledImpl() const override { return false; }
};
typedef embedding_problem<fixed_handler_none, domain_handler_universe, output_handler<false>> EP;
typedef embedding_problem<fixed_handler_hival, domain_handler_universe, output_handler<false>> EPF;
static std::vector<std::vector<int>> complete(int n) {
    std::vector<std::vector<int>> r(n);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            if (i != j) r[i].push_back(j);
    return r;
}
static std::vector<std::vector<int>> grid(int n, bool diag = false) {
    std::vector<std::vector<int>> r(n * n);
    auto e = [&](int a, int b) { r[a].push_back(b); r[b].push_back(a); };
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            if (i + 1 < n) e(i * n + j, i * n + n + j);
            if (j + 1 < n) e(i * n + j, i * n + j + 1);
            if (diag && i + 1 < n && j + 1 < n) e(i * n + j, i * n + n + j + 1);
        }
    return r;
}
static optional_parameters params(int seed) {
    optional_parameters p;
    p.localInteractionPtr.reset(new Quiet);
    p.seed(seed);
    return p;
}
#define FAIL(...) do { std::printf(__VA_ARGS__); std::printf("\\n"); std::exit(1); } while (0)
"""


def seedcpp(id, prop, needs, breaks, edits, cpp, tsan=False, head=True, flags=""):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write((HEAD if head else "") + cpp)
    sh = SH % (("-g -fsanitize=thread" if tsan else "") + flags, "TSAN_OPTIONS=exitcode=66 " if tsan else "",
               "setarch -R " if tsan else "")
    seed(id, prop, needs, breaks, edits, None, sh=sh)

// State recorder for the VVFLOW_MONITOR observation points.
// Writes one binary record per observed phase to $VVMON_TRACE; the offline
// checkers in /verif/lib/vv/trace.py read it.  It only reads the state.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <set>
#include <map>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <time.h>

namespace vvmon {

struct Rec {
    std::vector<double> buf;
    void d(double v) { buf.push_back(v); }
    void v(const TVec& a) { d(a.x); d(a.y); }
    void v3(const TVec3D& a) { d(a.r.x); d(a.r.y); d(a.o); }
};

inline FILE* out() {
    static FILE* f = nullptr;
    static bool init = false;
    if (!init) {
        init = true;
        const char* p = getenv("VVMON_TRACE");
        if (p && *p) f = fopen(p, "ab");
    }
    return f;
}

inline const std::set<std::string>& phases() {
    static std::set<std::string> ph;
    static bool init = false;
    if (!init) {
        init = true;
        const char* p = getenv("VVMON_PHASES");
        std::string s = p ? p : "", cur;
        for (char c : s + ",") {
            if (c == ',') { if (cur.size()) ph.insert(cur); cur.clear(); }
            else cur += c;
        }
    }
    return ph;
}

inline void list(Rec& r, const std::vector<TObj>& li) {
    for (const TObj& o : li) { r.v(o.r); r.d(o.g); r.v(o.v); r.d(o._1_eps); }
}

inline double collision_code(Space& S, const void* c) {
    if (!c) return -1;
    int i = 0;
    for (auto& b : S.BodyList) {
        const void* p[] = {&b->kspring.r.x, &b->kspring.r.y, &b->kspring.o,
            &b->force_holder.r.x, &b->force_holder.r.y, &b->force_holder.o};
        for (int k = 0; k < 6; k++) if (p[k] == c) return i*10 + k;
        i++;
    }
    return -2;
}

// Partition monitor: every vortex lies in exactly one leaf, and for every leaf
// near and far nodes together cover every vortex exactly once.
inline void tree_rec(Rec& r, Space& S, TSortedTree& tr) {
    std::vector<double> rows;
    size_t nv = S.VortexList.size();
    const TObj* base = S.VortexList.data();
    auto& bn = tr.getBottomNodes();
    std::vector<int> owner(nv, 0);
    long bad = 0, leaves = 0, pairs = 0, farpairs = 0, foreign = 0;
    double maxcm = 0;
    for (auto n : bn) {
        leaves++;
        for (TObj* o = n->vRange.first; o < n->vRange.last; o++) {
            long k = o - base;
            if (k < 0 || k >= (long)nv) { foreign++; continue; }
            owner[k]++;
        }
        std::vector<int> cover(nv, 0);
        auto add = [&](TSortedNode* m) {
            for (TObj* o = m->vRange.first; o < m->vRange.last; o++) {
                long k = o - base;
                if (k < 0 || k >= (long)nv) { foreign++; continue; }
                cover[k]++;
            }
        };
        for (auto m : *n->NearNodes) { add(m); pairs++; }
        for (auto m : *n->FarNodes) {
            add(m); farpairs++;
        }
        for (size_t k = 0; k < nv; k++) if (cover[k] != 1) bad++;
    }
    long badowner = 0;
    for (size_t k = 0; k < nv; k++) if (owner[k] != 1) badowner++;
    r.d(leaves); r.d(pairs); r.d(farpairs); r.d(bad); r.d(badowner); r.d(foreign); r.d(maxcm);
}

// The leaves with their near leaves and far clusters.
inline void leaf_rec(Rec& r, Space& S, TSortedTree& tr) {
    std::map<const TSortedNode*, int> no;
    std::map<const TObj*, std::pair<int,int>> seg;
    auto& bn = tr.getBottomNodes();
    for (auto n : bn) { int k = no.size(); no[n] = k; }
    int bi = 0;
    for (auto& b : S.BodyList) {
        int k = 0;
        for (auto& a : b->alist) seg[&a] = {bi, k++};
        bi++;
    }
    r.d(bn.size());
    for (auto n : bn) {
        r.d(n->x); r.d(n->y); r.d(n->w); r.d(n->h);
        r.d(n->vRange.size() ? n->vRange.first - S.VortexList.data() : 0); r.d(n->vRange.size());
        r.d(n->sRange.size() ? n->sRange.first - S.StreakList.data() : 0); r.d(n->sRange.size());
        r.d(n->hRange.size() ? n->hRange.first - S.HeatList.data() : 0); r.d(n->hRange.size());
        r.d(n->bllist.size());
        for (auto o : n->bllist) {
            auto it = seg.find(o);
            if (it == seg.end()) { r.d(-1); r.d(-1); continue; }
            r.d(it->second.first); r.d(it->second.second);
        }
        r.d(n->NearNodes->size());
        for (auto m : *n->NearNodes) r.d(no.count(m) ? no[m] : -1);
        r.d(n->FarNodes->size());
        for (auto m : *n->FarNodes) {
            r.v(m->CMp.r); r.d(m->CMp.g); r.v(m->CMm.r); r.d(m->CMm.g);
        }
    }
}

inline void observe(const char* phase, Space& S, TSortedTree& tr, const void* collision) {
    static long step = -1;
    static std::map<std::string, long> seen;
    if (!strcmp(phase, "begin")) step++;
    if (const char* k = getenv("VVMON_KILL")) {
        // "<step>:<phase>": die without any cleanup at this point
        std::string s = std::to_string(step) + ":" + phase;
        if (s == k) { if (out()) fflush(out()); kill(getpid(), SIGKILL); }
    }
    FILE* f = out();
    if (!f) return;
    auto& ph = phases();
    if (!ph.empty() && !ph.count(phase)) return;

    Rec r;
    r.d(step);
    r.d(S.time.value); r.d(S.time.timescale);
    r.d(S.dt.value); r.d(S.dt.timescale);
    r.d(S.dt_save.value); r.d(S.dt_save.timescale);
    r.d(S.dt_streak.value); r.d(S.dt_streak.timescale);
    r.d(S.finish); r.d(S.re); r.d(S.pr); r.d(S.inf_g);
    r.v(S.inf_speed()); r.v(S.inf_marker); r.v(S.gravity);
    r.d(collision_code(S, collision));
    bool tree = getenv("VVMON_TREE") && (!strcmp(phase, "eps") || !strcmp(phase, "tree1"));
    r.d(tree);
    if (tree) tree_rec(r, S, tr);
    r.d(S.BodyList.size());
    r.d(S.VortexList.size()); r.d(S.HeatList.size()); r.d(S.SourceList.size());
    r.d(S.StreakSourceList.size()); r.d(S.StreakList.size());
    for (auto& b : S.BodyList) {
        auto root = b->root_body.lock();
        r.d(root ? S.get_body_index(root.get()) : -1);
        r.v3(b->holder); r.v3(b->dpos); r.v3(b->kspring); r.v3(b->damping);
        r.v3(b->speed_slae); r.v3(b->speed_slae_prev);
        r.v3(b->collision_min); r.v3(b->collision_max); r.d(b->bounce);
        r.d(b->density); r.d(b->special_segment_no);
        r.d(b->boundary_condition == bc_t::kutta);
        r.d((int)b->heat_condition);
        r.v3(b->friction); r.v3(b->friction_prev);
        r.v3(b->force_hydro); r.v3(b->force_holder); r.v3(b->fdt_dead); r.d(b->g_dead);
        r.v3(b->speed(S.time)); r.d(b->force_o.eval(S.time));
        r.d(b->get_slip()); r.d(b->get_slen()); r.d(b->get_area()); r.v(b->get_cofm());
        r.d(b->get_moi_cofm()); r.d(b->get_moi_axis());
        r.d(b->alist.size());
        for (auto& a : b->alist) {
            r.v(a.corner); r.v(a.r); r.v(a.dl);
            r.d(a.g); r.d(a.gsum); r.d(a.fric); r.d(a.hsum); r.d(a.slip); r.d(a._1_eps);
            r.d(a.Cp); r.d(a.Fr); r.d(a.heat_const);
        }
    }
    list(r, S.VortexList); list(r, S.HeatList); list(r, S.SourceList);
    list(r, S.StreakSourceList); list(r, S.StreakList);
    const char* te = getenv("VVMON_TREE");
    bool leaves = te && *te == '2' && (!strcmp(phase, "tree1") || !strcmp(phase, "tree2"));
    if (leaves) leaf_rec(r, S, tr); else r.d(0);
    char ph8[8] = {0}; strncpy(ph8, phase, 8);
    uint64_t n = r.buf.size();
    fwrite("VVM1", 1, 4, f);
    fwrite(ph8, 1, 8, f);
    fwrite(&n, 8, 1, f);
    fwrite(r.buf.data(), 8, n, f);
    fflush(f);
}

} // namespace

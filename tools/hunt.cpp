// Looks for instances on which a wrong decision of the search shows: simulates the
// depth-first search (Dfs.tla) with a mistake that is made only under a narrow condition, on
// random instances, and prints, for every such mistake, small instances whose result
// becomes wrong.  gen_hard.py makes spec/hard.json out of that.
//
//   hunt SEED SECONDS MAX_TREE LO HI
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <numeric>
#include <random>
#include <string>
#include <vector>
using namespace std;

struct Inst {
    int n;
    vector<unsigned> nb;
    vector<vector<int>> layers;
    vector<vector<int>> dependents;
    vector<unsigned> deps;
    unsigned ord = 0;
};
struct Node {
    vector<int> ms;
    vector<unsigned char> cnt;
    unsigned M, held;
    int mem, cur, blocked, sub, size;
};
struct Cand { int depth, m, b, cur, mem, step, kind, from, sub; };

// (family, feature, value): a mistake made at candidates with that value of that feature
struct Mistake { int family, feature, value, value2; };
enum { LONGER, TIGHTER, SKIP, LONGER2, PLUS, MINUS, FAMILIES };
enum { DEPTH, MEASURABLE, BLOCKED, REMAINING, STEP, CUR, FROM, DEPTH_BLOCKED, DEPTH_MEASURABLE,
       MEASURABLE_BLOCKED, FROM_SUB, DEPTH_STEP, STEP_BLOCKED, MEM, MANY_BLOCKED, MANY_MEASURABLE,
       MANY_REMAINING, DEEP, BIG_STEP, MANY_CUR, MANY_MEM, FEATURES };

static int feature(const Cand &c, int f) {
    switch (f) {
    case DEPTH: return c.depth;
    case MEASURABLE: return c.m;
    case BLOCKED: return c.b;
    case REMAINING: return c.m + c.b;
    case STEP: return c.step;
    case CUR: return c.cur;
    case FROM: return c.from;
    case DEPTH_BLOCKED: return c.depth * 32 + c.b;
    case DEPTH_MEASURABLE: return c.depth * 32 + c.m;
    case MEASURABLE_BLOCKED: return c.m * 32 + c.b;
    case FROM_SUB: return c.from <= 5 ? c.from * 64 + c.sub : -1;
    case DEPTH_STEP: return c.depth * 32 + c.step;
    case STEP_BLOCKED: return c.step * 32 + c.b;
    case MEM: return c.mem;
    // at least
    case MANY_BLOCKED: return c.b;
    case MANY_MEASURABLE: return c.m;
    case MANY_REMAINING: return c.m + c.b;
    case DEEP: return c.depth;
    case BIG_STEP: return c.step;
    case MANY_CUR: return c.cur;
    case MANY_MEM: return c.mem;
    }
    return -1;
}

static bool hits(const Mistake &x, const Cand &c) {
    int v = feature(c, x.feature);
    return x.feature >= MANY_BLOCKED ? v >= x.value : v == x.value;
}

static const vector<vector<unsigned>> &subsets(int m) {
    static map<int, vector<vector<unsigned>>> all;
    auto &r = all[m];
    if (r.empty()) {
        // what is left out, in the order of a power set; without everything
        r.resize(1);
        for (int k = 0; k < m; k++) {
            vector<int> idx(k);
            iota(idx.begin(), idx.end(), 0);
            while (true) {
                unsigned s = 0;
                for (int i : idx) s |= 1u << i;
                r[0].push_back(s);
                int i = k - 1;
                while (i >= 0 && idx[i] == m - k + i) i--;
                if (i < 0) break;
                idx[i]++;
                for (int j = i + 1; j < k; j++) idx[j] = idx[j - 1] + 1;
            }
        }
    }
    return r;
}

struct Search {
    const Inst &I;
    long limit, steps = 0;
    const Mistake *mistake;
    vector<map<int, int>> *seen;  // features that occur, if wanted
    vector<int> best;
    map<int, int> res;
    bool over = false;
    Search(const Inst &i, long l, const Mistake *x) : I(i), limit(l), mistake(x), seen(0) {
        best.assign(I.n + 4, 1000);
    }
    void go(const Node &nd, int depth) {
        if (over) return;
        int m = nd.ms.size();
        if (m == 0) {
            best[depth] = nd.mem;
            for (int t = depth + 1; t <= I.n; t++) best[t] = min(best[t], nd.mem);
            res[depth] = nd.mem;
            return;
        }
        int j = 0;
        for (unsigned left : subsets(m)[0]) {
            int sub = j++;
            if (++steps > limit) { over = true; return; }
            Node ch;
            unsigned S = 0;
            ch.cnt = nd.cnt;
            ch.blocked = nd.blocked;
            vector<int> step;
            for (int i = 0; i < m; i++)
                if (left >> i & 1) ch.ms.push_back(nd.ms[i]);
                else step.push_back(nd.ms[i]), S |= 1u << nd.ms[i];
            for (int v : step)
                for (int w : I.dependents[v])
                    if (--ch.cnt[w] == 0) ch.ms.push_back(w), ch.blocked--;
            unsigned reach = 0;
            for (int v : step) reach |= I.nb[v];
            unsigned held = (nd.held | S | reach) & ~nd.M;
            ch.M = nd.M | S;
            ch.held = held & ~S;
            ch.mem = max(nd.mem, __builtin_popcount(held));
            ch.cur = __builtin_popcount(ch.held);
            int len = ch.ms.empty() ? depth + 1 : ch.blocked ? depth + 3 : depth + 2;
            Cand c{depth, (int)ch.ms.size(), ch.blocked, ch.cur, ch.mem, (int)step.size(), 0, m, sub};
            bool wrong = mistake && hits(*mistake, c);
            if (seen)
                for (int f = 0; f < FEATURES; f++) (*seen)[f][feature(c, f)]++;
            if (wrong && mistake->family == SKIP) continue;
            if (wrong && mistake->family == LONGER2) len = min(len + 2, I.n);
            if (wrong && mistake->family == PLUS) ch.mem++;
            if (wrong && mistake->family == MINUS) ch.mem--;
            if (wrong && mistake->family == LONGER) len = min(len + 1, I.n);
            int mem = ch.mem + (wrong && mistake->family == TIGHTER);
            if (mem >= best[min(len, I.n)]) continue;
            go(ch, depth + 1);
            if (over) return;
        }
    }
    vector<pair<int, int>> run() {
        Node root;
        root.cnt.assign(I.n, 0);
        root.blocked = 0;
        for (int v = 0; v < I.n; v++)
            if (I.ord >> v & 1) {
                root.cnt[v] = __builtin_popcount(I.deps[v]);
                root.blocked += root.cnt[v] > 0;
            }
        root.ms = I.layers[0];
        root.M = root.held = 0;
        root.mem = root.cur = 0;
        go(root, 0);
        vector<pair<int, int>> out;
        int least = 1000;
        for (auto &p : res)
            if (p.second < least) out.push_back(p), least = p.second;
        return out;
    }
};

static mt19937_64 rng;
static int rnd(int a, int b) { return a + rng() % (b - a + 1); }
static double uni() { return (rng() >> 11) * 0x1p-53; }

static Inst random_inst(int lo, int hi) {
    Inst I;
    int n = I.n = rnd(lo, hi);
    I.nb.assign(n, 0);
    double dens[] = {.15, .25, .35, .5};
    double d = dens[rnd(0, 3)];
    int shape = rnd(0, 4);
    vector<int> perm(n);
    iota(perm.begin(), perm.end(), 0);
    shuffle(perm.begin(), perm.end(), rng);
    auto edge = [&](int a, int b) { if (a != b) I.nb[a] |= 1u << b, I.nb[b] |= 1u << a; };
    if (shape <= 1) {
        for (int a = 0; a < n; a++)
            for (int b = 0; b < a; b++)
                if (uni() < d) edge(a, b);
    } else if (shape == 2) {  // a tree and a bit
        for (int a = 1; a < n; a++) edge(perm[a], perm[rnd(max(0, a - 3), a - 1)]);
        for (int k = rnd(0, 2); k > 0; k--) edge(rnd(0, n - 1), rnd(0, n - 1));
    } else if (shape == 3) {  // a line and a bit
        for (int a = 1; a < n; a++) edge(perm[a], perm[a - 1]);
        for (int k = rnd(0, 3); k > 0; k--) edge(rnd(0, n - 1), rnd(0, n - 1));
    } else {  // hubs
        int h = rnd(1, 3);
        for (int a = h; a < n; a++)
            for (int b = 0; b < h; b++)
                if (uni() < .6) edge(perm[a], perm[b]);
    }
    shuffle(perm.begin(), perm.end(), rng);
    int k = uni() < .12 && n > 4 ? rnd(n - 3, n - 1) : n;
    vector<int> nodes(perm.begin(), perm.begin() + k);
    int depth = rnd(1, max(2, k / 2 + 2));
    I.deps.assign(n, 0);
    vector<int> lay(n, 0);
    double dd = (double[]){.05, .15, .3, .6}[rnd(0, 3)];
    vector<vector<int>> by(1);
    vector<int> want(k);
    for (int i = 0; i < k; i++) want[i] = rnd(0, depth - 1);
    sort(want.begin(), want.end());
    for (int i = 0; i < k; i++) {
        int v = nodes[i];
        if (want[i] > 0) {
            for (int j = 0; j < i; j++)
                if (want[j] < want[i] && uni() < dd) I.deps[v] |= 1u << nodes[j];
            if (!I.deps[v] && uni() < .9)
                for (int j = 0; j < i; j++)
                    if (want[j] < want[i] && uni() < .5) { I.deps[v] |= 1u << nodes[j]; break; }
        }
        int l = 0;
        for (int j = 0; j < n; j++)
            if (I.deps[v] >> j & 1) l = max(l, lay[j] + 1);
        lay[v] = l;
        if ((int)by.size() <= l) by.resize(l + 1);
        by[l].push_back(v);
        I.ord |= 1u << v;
    }
    for (auto &l : by) shuffle(l.begin(), l.end(), rng);
    I.layers = by;
    I.dependents.resize(n);
    for (int v = 0; v < n; v++)
        for (auto &l : by)
            for (int w : l)
                if (I.deps[w] >> v & 1) I.dependents[v].push_back(w);
    return I;
}

static string json(const Inst &I) {
    string s = "{\"adj\":[";
    for (int v = 0; v < I.n; v++) {
        s += v ? ",[" : "[";
        bool first = true;
        for (int w = 0; w < I.n; w++)
            if (I.nb[v] >> w & 1) s += (first ? "" : ",") + to_string(w), first = false;
        s += "]";
    }
    s += "],\"order\":[";
    for (size_t l = 0; l < I.layers.size(); l++) {
        s += l ? ",[" : "[";
        bool f = true;
        for (int v : I.layers[l]) {
            s += string(f ? "" : ",") + "[" + to_string(v) + ",[";
            f = false;
            bool g = true;
            for (int w = 0; w < I.n; w++)
                if (I.deps[v] >> w & 1) s += (g ? "" : ",") + to_string(w), g = false;
            s += "]]";
        }
        s += "]";
    }
    return s + "]}";
}

int main(int argc, char **argv) {
    rng.seed(atoll(argv[1]));
    double secs = atof(argv[2]);
    long cap = atol(argv[3]);
    int lo = atoi(argv[4]), hi = atoi(argv[5]);
    auto start = chrono::steady_clock::now();
    map<vector<int>, long> found;  // mistake -> steps of the smallest search
    while (chrono::duration<double>(chrono::steady_clock::now() - start).count() < secs) {
        Inst I = random_inst(lo, hi);
        if (I.layers[0].size() > 12) continue;
        vector<map<int, int>> seen(FEATURES);
        Search s(I, cap, 0);
        s.seen = &seen;
        auto right = s.run();
        if (s.over || right.size() < 2 || s.steps < 30) continue;
        string out;
        for (int fam = 0; fam < FAMILIES; fam++)
            for (int f = 0; f < FEATURES; f++) {
                for (auto &p : seen[f]) {
                    if (p.first < 0 || p.first == 0 && f >= MANY_BLOCKED) continue;
                    Mistake x{fam, f, p.first, 0};
                    vector<int> key{fam, f, p.first};
                    auto it = found.find(key);
                    if (it != found.end() && it->second <= s.steps * 5 / 4) continue;
                    // (fewer branches may mean more steps)
                    Search t(I, cap * 4, &x);
                    auto r = t.run();
                    if (t.over || r == right) continue;
                    found[key] = s.steps;
                    out += (out.empty() ? "" : ",") + ("[" + to_string(fam) + "," + to_string(f) +
                           "," + to_string(p.first) + "]");
                }
            }
        if (!out.empty())
            printf("{\"steps\":%ld,\"mistakes\":[%s],\"inst\":%s}\n", s.steps, out.c_str(),
                   json(I).c_str());
    }
}

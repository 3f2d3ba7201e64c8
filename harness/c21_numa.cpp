// C21: placement of workers over hardware nodes, with a modelled hwloc (HW=1) or without hwloc (HW=0).
#include "vp.h"
#ifndef HW
#define HW 1
#endif
#ifndef NWRK
#define NWRK 3
#endif
#if HW
// the queries that walk real cpusets are replaced by a model: a "bitmap" names one leaf of a symbolic topology
#define hwloc_distrib hwloc_distrib_unused
#define hwloc_get_obj_covering_cpuset hwloc_covering_unused
#include <hwloc.h>
#undef hwloc_distrib
#undef hwloc_get_obj_covering_cpuset
#define hwloc_distrib vp_distrib
#define hwloc_get_obj_covering_cpuset vp_covering
static int vp_distrib(hwloc_topology_t, hwloc_obj_t *roots, unsigned n_roots, hwloc_cpuset_t *set, unsigned n, int, unsigned long);
static hwloc_obj_t vp_covering(hwloc_topology_t, hwloc_const_cpuset_t);
#define LF_USE_HWLOC
#endif
#include "libfork/core.hpp"
#include "libfork/schedule/ext/numa.hpp"
#include <cerrno>
#include "rbtree.h"

#if HW
enum { ROOT, PKG0, PKG1, L3, CORE0, CORE1, CORE2, PU0, PU1, PU2, PU3, NOBJ };
static hwloc_obj objs[NOBJ]; static hwloc_obj *kids[NOBJ][3];
struct hwloc_bitmap_s { int leaf; };
struct hwloc_topology { int x; };
static int fail = 0, npkg = 2, topos = 0, bitmaps = 0; static bool flat = false, memroot = false, deep = false;
static int leaf_of[8]; static unsigned want_roots = 0; static bool seq = false;
static void link(int p, int c) { objs[c].parent = &objs[p]; objs[c].depth = objs[p].depth + 1; kids[p][objs[p].arity++] = &objs[c]; }
static void mk(int i, hwloc_obj_type_t t) { objs[i].type = t; objs[i].children = kids[i]; objs[i].gp_index = 100 + i; objs[i].arity = 0; }
// machine -> 2 packages; package 1 has a cache level when `deep`; three cores, core 0 with two PUs
static void build() {
  mk(ROOT, HWLOC_OBJ_MACHINE); mk(PKG0, HWLOC_OBJ_PACKAGE); mk(PKG1, HWLOC_OBJ_PACKAGE); mk(L3, HWLOC_OBJ_L3CACHE);
  mk(CORE0, HWLOC_OBJ_CORE); mk(CORE1, HWLOC_OBJ_CORE); mk(CORE2, HWLOC_OBJ_CORE);
  for (int i = PU0; i <= PU3; ++i) mk(i, HWLOC_OBJ_PU);
  objs[ROOT].depth = 0; link(ROOT, PKG0); link(ROOT, PKG1);
  link(PKG0, CORE0); link(PKG0, CORE1);
  if (deep) { link(PKG1, L3); link(L3, CORE2); } else link(PKG1, CORE2);
  link(CORE0, PU0); link(CORE0, PU1); link(CORE1, PU2); link(CORE2, PU3);
  objs[PKG0].next_cousin = objs[PKG0].next_sibling = &objs[PKG1]; objs[PKG1].prev_cousin = objs[PKG1].prev_sibling = &objs[PKG0];
  if (memroot) objs[ROOT].memory_arity = 1; else { objs[PKG0].memory_arity = 1; objs[PKG1].memory_arity = 1; }
}
extern "C" {
int hwloc_topology_init(hwloc_topology_t *t) { if (fail == 1) return -1; *t = new hwloc_topology{7}; ++topos; return 0; }
int hwloc_topology_load(hwloc_topology_t) { return fail == 2 ? -1 : 0; }
void hwloc_topology_destroy(hwloc_topology_t t) { --topos; delete t; }
void hwloc_bitmap_free(hwloc_bitmap_t b) { if (b) { --bitmaps; delete b; } }
int hwloc_bitmap_singlify(hwloc_bitmap_t b) { vp_assert(b != nullptr, "a set"); return fail == 5 ? -1 : 0; }
int hwloc_set_cpubind(hwloc_topology_t, hwloc_const_cpuset_t, int) { if (fail == 6) { errno = ENOSYS; return -1; } if (fail == 7) { errno = EXDEV; return -1; } return 0; }
int hwloc_get_type_depth(hwloc_topology_t, hwloc_obj_type_t t) { vp_assert(t == HWLOC_OBJ_PACKAGE, "packages"); return 1; }
hwloc_obj_t hwloc_get_obj_by_depth(hwloc_topology_t, int d, unsigned i) { if (d == 0) return i == 0 ? &objs[ROOT] : nullptr; if (d == 1) return i < 2 ? &objs[PKG0 + i] : nullptr; return nullptr; }
}
static int vp_distrib(hwloc_topology_t, hwloc_obj_t *roots, unsigned n_roots, hwloc_cpuset_t *set, unsigned n, int until, unsigned long) {
  if (fail == 3) return -1;
  vp_assert(n == NWRK, "exactly n placements are requested");
  if (seq) vp_assert(n_roots == (NWRK > 2 ? 2u : 1u) && roots[0] == &objs[PKG0] && (NWRK <= 2 || roots[1] == &objs[PKG1]), "sequential: as few packages as needed, in order");
  else vp_assert(n_roots == 1 && roots[0] == &objs[ROOT], "fan: the whole machine");
  for (unsigned i = 0; i < n; ++i) { if (fail == 4 && i == n - 1) { set[i] = nullptr; continue; } leaf_of[i] = PU0 + vp_choice(4); set[i] = new hwloc_bitmap_s{leaf_of[i]}; ++bitmaps; }
  return 0;
}
static hwloc_obj_t vp_covering(hwloc_topology_t, hwloc_const_cpuset_t b) { return &objs[b->leaf]; }
static int pkg(int l) { return l == PU3 ? 1 : 0; }
static int depth(int l) { return l == PU3 && deep ? 4 : 3; }
static int distance(int a, int b) {
  if (a == b) return 0;
  int c; // depth of the deepest common ancestor
  if (pkg(a) != pkg(b)) c = 0; else if (a <= PU1 && b <= PU1) c = 2; else c = 1;
  int x = depth(a) - c, y = depth(b) - c; return x > y ? x : y;
}
#endif
struct Item { int id; };
extern "C" void vp_main() {
  auto live = vp_live();
#if HW
  deep = VP_BOOL("cache level"); memroot = VP_BOOL("memory at the root"); seq = VP_BOOL("sequential"); build();
#if defined FAIL
  fail = vp_choice(8);
#endif
#endif
  {
    std::vector<std::shared_ptr<Item>> data; data.reserve(NWRK);
    for (int i = 0; i < NWRK; ++i) data.push_back(std::make_shared<Item>(i));
    bool threw = false;
    try {
      lf::numa_topology topo;
#if HW
      vp_assert(bool(topo), "a topology is found");
      auto nodes = topo.distribute(data, seq ? lf::numa_strategy::seq : lf::numa_strategy::fan);
      vp_assert(topos == 1 && bitmaps == NWRK, "each worker owns a set of processing units");
#else
      vp_assert(!topo, "without hwloc the topology is empty");
      auto nodes = topo.distribute(data, VP_BOOL("sequential") ? lf::numa_strategy::seq : lf::numa_strategy::fan);
#endif
      vp_assert(nodes.size() == NWRK, "exactly n placements");
      for (int i = 0; i < NWRK; ++i) {
        auto const &nb = nodes[i].neighbors;
        vp_assert(nb.size() >= 1 && nb[0].size() == 1 && nb[0][0] == data[i], "a worker's view has itself first");
        int seen[NWRK] = {}; int last = -1;
        for (size_t g = 1; g < nb.size(); ++g) {
          vp_assert(nb[g].size() > 0, "no empty group");
          int dg = -1;
          for (auto const &p : nb[g]) {
            int j = p->id; seen[j]++;
#if HW
            int d = distance(leaf_of[i], leaf_of[j]);
#else
            int d = 1;
#endif
            if (dg < 0) { dg = d; vp_assert(d > last, "groups by increasing distance"); last = d; }
            vp_assert(d == dg, "equal distance within a group");
          }
        }
        for (int j = 0; j < NWRK; ++j) vp_assert(seen[j] == (j != i), "every other worker exactly once, never itself");
        if (nb.size() > 2) vp_reach("two distances");
#if HW
        vp_assert(nodes[i].cpup && nodes[i].cpup->leaf == leaf_of[i] && bool(nodes[i].topo), "handle i is placement i");
        for (int j = 0; j < NWRK; ++j)
          vp_assert((nodes[i].numa == nodes[j].numa) == (memroot || pkg(leaf_of[i]) == pkg(leaf_of[j])), "node numbers tell the nodes apart");
        vp_assert(nodes[i].numa < 2 && (i > 0 || nodes[i].numa == 0), "node numbers are dense");
#endif
        nodes[i].bind();
      }
    } catch (std::exception const &) { threw = true; vp_reach("failure reported"); }
#if HW
    vp_assert(threw == (fail != 0), "failures, and only failures, are reported");
#else
    vp_assert(!threw, "no failure");
#endif
    for (auto &d : data) vp_assert(d.use_count() == 1, "views are released");
  }
#if HW
  vp_assert(topos == 0 && bitmaps == 0, "topology and sets are released");
#endif
  vp_assert(vp_live() == live, "no leak");
  vp_reach("end");
}

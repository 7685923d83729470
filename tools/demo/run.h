// runs the NimbleSM executable on a deck in the current (scratch) directory and reads back an exodus file
#pragma once
#include <exodusII.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>
inline std::string repo() { return getenv("REPO"); }
inline void copy_mesh(const char* rel, const char* to)
{
  std::ifstream a(repo() + "/" + rel, std::ios::binary);
  std::ofstream b(to, std::ios::binary);
  b << a.rdbuf();
}
inline int run_deck(const std::string& deck, const char* flags = "")
{
  std::ofstream("deck.in") << deck;
  std::string cmd = "OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMP_NUM_THREADS=1 timeout 100 " + repo() + "/_build/src/NimbleSM " + flags + " deck.in > run.log 2>&1";
  return system(cmd.c_str());
}
struct Exo
{
  int                 id, nn, ne, nb, nsteps;
  std::vector<double> t;
  std::map<std::string, int> nv, ev;
  std::vector<ex_entity_id>  blocks;
  Exo(const char* f)
  {
    int   cw = 8, iw = 0;
    float v;
    id = ex_open(f, EX_READ, &cw, &iw, &v);
    if (id < 0) { printf("no output %s\n", f); exit(3); }
    nn     = ex_inquire_int(id, EX_INQ_NODES);
    ne     = ex_inquire_int(id, EX_INQ_ELEM);
    nb     = ex_inquire_int(id, EX_INQ_ELEM_BLK);
    nsteps = ex_inquire_int(id, EX_INQ_TIME);
    t.resize(nsteps);
    ex_get_all_times(id, t.data());
    blocks.resize(nb);
    int ids[100];
    if (ex_int64_status(id) & EX_IDS_INT64_API) ex_get_ids(id, EX_ELEM_BLOCK, blocks.data());
    else { ex_get_ids(id, EX_ELEM_BLOCK, ids); for (int i = 0; i < nb; i++) blocks[i] = ids[i]; }
    names(EX_NODAL, nv);
    names(EX_ELEM_BLOCK, ev);
  }
  void names(ex_entity_type ty, std::map<std::string, int>& m)
  {
    int n = 0;
    ex_get_variable_param(id, ty, &n);
    for (int i = 1; i <= n; i++) { char b[300]; ex_get_variable_name(id, ty, i, b); m[b] = i; }
  }
  std::vector<double> nodal(const std::string& n, int step)  // step from 1
  {
    std::vector<double> r(nn, NAN);
    if (nv.count(n)) ex_get_var(id, step, EX_NODAL, nv[n], 1, nn, r.data());
    return r;
  }
  std::vector<double> elem(const std::string& n, int block, int step)
  {
    ex_block b; memset(&b, 0, sizeof b); b.id = block; b.type = EX_ELEM_BLOCK;
    ex_get_block_param(id, &b);
    std::vector<double> r(b.num_entry, NAN);
    if (ev.count(n)) ex_get_var(id, step, EX_ELEM_BLOCK, ev[n], block, b.num_entry, r.data());
    return r;
  }
  std::vector<std::vector<double>> coord()
  {
    std::vector<std::vector<double>> c(3, std::vector<double>(nn));
    ex_get_coord(id, c[0].data(), c[1].data(), c[2].data());
    return c;
  }
};
inline int bad(const char* what, double got, double want) { printf("%s: got %.15g, required %.15g\n", what, got, want); return 1; }
inline bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }

#pragma once
#include "full_mix.h"

namespace fw {
/// A place in the template document.
struct Slot {
  std::string kind;      // opt sel var dot optdot optempty local
  std::string mark;      // text searched for
  int cur = 0;           // cursor, from the start of mark
  int a = 0, b = 0;      // range of the name, from the start of mark
  int ha = 0, hb = 0;    // range the hover refers to
  std::vector<std::string> path; // with IDIDID
  bool completes = true;
};
struct Layout {
  std::string text; // with IDIDID
  std::vector<Slot> slots;
  std::vector<std::string> inlay; // names under "with pkgs"
};
Layout genLayout(uint64_t seed);
std::string fillId(std::string s, const std::string &id);
struct EvalOpts {
  int minOps = 4, maxOps = 25, maxDocs = 2;
  double pConf = 0.06, pDoc = 0.2, pLocal = 0, pKill = 0, pWait = 0.25,
         pFormat = 0, pResolve = 0.1, pBurst = 0.15;
};
void genEval(Plan &P, Gen &G, const EvalOpts &O);
void setupEval(const Plan &P);
bool runEvalOp(const std::vector<std::string> &w);
void evalAnswer(Ask &a, Worker &w);
void judgeEval(Req &r);
/// "@pkgs", the option set's name, or "" while unknown.
std::string setName(const Worker &w);
std::string genEvalConf(Gen &G);
} // namespace fw

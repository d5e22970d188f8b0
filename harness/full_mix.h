#pragma once
#include "full_world.h"
#include <cstring>

namespace fw {
struct MixOpts {
  int minOps = 4, maxOps = 30;
  double pConf = 0.07, pKill = 0.02, pDoc = 0.3, pWait = 0.2, pFormat = 0.1,
         pEval = 0.45, pFaults = 0.4;
};
void genMix(Plan &P, Gen &G, const MixOpts &O);
bool runMixOp(const std::vector<std::string> &w);
void setupMix(const Plan &P);
void mixReply(Req &r);
std::string specText(const std::string &spec, const std::string &cur);
std::pair<int, int> somePos(const std::string &t, uint64_t seed);
json::Value pkgInfo(const std::string &tok, int variant);
json::Value optInfo(const std::string &tok, int variant);
json::Value location(const std::string &file, int line);
void plausible(Ask &a, Worker &w);
const std::vector<std::string> &localKinds();
const std::vector<std::string> &evalKinds();
std::string genFmt(Gen &G);
std::string genConfWords(Gen &G);
Conf parseConf(const std::vector<std::string> &w, size_t from);
std::string genHow(Gen &G, double bad);
} // namespace fw

#include "full_world.h"
using namespace fw;
namespace {
void gen(Plan &P, Gen &G) {
  P.set("capConfig", 1);
  P.ops = {"init", "initialized", "o", "sync", "q symbols", "q hover","q format", "settle", "end shutdown"};
}
void setup(const Plan &P) {
  start(P, 1);
  W->onOp = [](const std::vector<std::string> &w) {
    if (w[0] == "o") W->open(0, "{ pkgs, ... }: with pkgs; [ hello ]\n", 1);
    if (w[0] == "q") W->ask(w[1], 0, 0, 30);
    return true;
  };
}
Register r("smoke", gen, setup);
}

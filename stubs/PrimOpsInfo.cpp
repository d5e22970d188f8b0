// Stand-in for the table that libnixf's build generates from the Nix library
// (libnixf/src/Basic/PrimOpsInfoGen.cpp), which is not available here.
#include <nixf/Sema/PrimOpInfo.h>
static nixf::PrimOpInfo P(std::vector<std::string> Args) {
  nixf::PrimOpInfo I;
  I.Arity = Args.size();
  I.Args = std::move(Args);
  I.Doc = "doc";
  I.Internal = false;
  return I;
}
std::map<std::string, nixf::PrimOpInfo> nixf::PrimOpsInfo = {
    {"abort", P({"s"})},        {"baseNameOf", P({"x"})},
    {"break", P({"v"})},        
    {"derivationStrict", P({"a"})},
    {"dirOf", P({"s"})},        
    {"fetchGit", P({"args"})},  {"fetchTarball", P({"args"})},
    {"fetchTree", P({"args"})}, {"fromTOML", P({"e"})},
    {"import", P({"path"})},    {"isNull", P({"e"})},
    {"map", P({"f", "list"})},  
    {"placeholder", P({"o"})},  {"removeAttrs", P({"set", "list"})},
    {"scopedImport", P({"s", "p"})}, {"throw", P({"s"})},
    {"toString", P({"e"})},     
    {"__add", P({"a", "b"})},   {"__attrNames", P({"set"})},
    {"__concatLists", P({"lists"})}, 
    {"__filter", P({"f", "list"})}, {"__head", P({"list"})},
    {"__length", P({"e"})},     {"__readFile", P({"path"})},
    {"__storePath", P({"path"})}, {"__toJSON", P({"e"})},
};

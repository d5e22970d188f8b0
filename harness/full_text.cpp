// Documents: generated Nix programs and edits of them.
#include "full_world.h"

namespace fw {
namespace {
struct NixGen {
  Gen g;
  std::string out;
  std::vector<std::string> names{"foo", "bar", "x", "cfg"};
  int budget;
  NixGen(uint64_t seed, int n) : g(seed * 1315423911u + 17), budget(n) {}
  std::string ident() {
    static const std::vector<std::string> v = {
        "a", "b", "c", "foo", "bar", "x", "y", "cfg", "name", "lib'", "n-1"};
    return g.pick(v);
  }
  std::string var() {
    if (!names.empty() && g.chance(0.7))
      return g.pick(names);
    static const std::vector<std::string> v = {
        "pkgs", "lib", "config", "undefinedVar", "map", "true", "null",
        "builtins", "toString", "__currentSystem", "import"};
    return g.pick(v);
  }
  std::string str() {
    static const std::vector<std::string> v = {
        "\"\"", "\"s\"", "\"h\xc3\xa9llo\"", "\"\xf0\x9f\x98\x80 u\"",
        "\"a\\nb\"", "''\n      ind\n    ''", "\"{\\\"a\\\": 1}\"",
        "https://example.org/x"};
    if (g.chance(0.25))
      return "\"p ${" + expr(3) + "} q\"";
    if (g.chance(0.1))
      return "''\n  l1 ${" + var() + "}\n  l2\n''";
    return g.pick(v);
  }
  std::string path() {
    static const std::vector<std::string> v = {
        "./a.nix", "./sub", "../w/a.nix", "./missing.nix", "./.",
        "<nixpkgs>", "/w/sub/x.nix", "./d/e/../f.nix"};
    return g.pick(v);
  }
  std::string attrpath() {
    std::string s = g.chance(0.1) ? "\"q r\"" : g.chance(0.06)
                        ? "${" + var() + "}"
                        : ident();
    while (g.chance(0.3))
      s += "." + ident();
    return s;
  }
  std::string binding(int d) {
    if (g.chance(0.12))
      return "inherit " + var() + (g.chance(0.5) ? " " + ident() : "") + ";";
    if (g.chance(0.08))
      return "inherit (" + expr(d + 1) + ") " + ident() + " " + ident() + ";";
    return attrpath() + " = " + expr(d + 1) + ";";
  }
  std::string binds(int d, int n) {
    std::string s;
    for (int i = 0; i < n; ++i) {
      if (g.chance(0.1))
        s += "# c\xc3\xb6mment " + ident() + "\n";
      s += std::string((size_t)d * 2, ' ') + binding(d);
      s += g.chance(0.9) ? "\n" : " ";
    }
    return s;
  }
  std::string formals() {
    std::string s = "{ ";
    int n = (int)g.range(0, 4);
    for (int i = 0; i < n; ++i) {
      std::string id = g.chance(0.4) ? (g.chance(0.5) ? "pkgs" : "lib") : ident();
      names.push_back(id);
      s += id + (g.chance(0.2) ? " ? " + expr(5) : "") + ", ";
    }
    if (g.chance(0.8))
      s += "... ";
    else if (n)
      s = s.substr(0, s.size() - 2) + " ";
    s += "}";
    if (g.chance(0.15))
      s += "@args";
    return s;
  }
  std::string expr(int d) {
    if (--budget < 0 || d > 5) {
      return g.chance(0.5) ? var() : std::to_string(g.range(0, 99));
    }
    switch (g.range(0, 22)) {
    case 0:
    case 1:
      return "{\n" + binds(d + 1, (int)g.range(0, 4)) + "}";
    case 2:
      return "rec { " + binds(d + 1, (int)g.range(1, 3)) + " }";
    case 3:
    case 4: {
      size_t k = names.size();
      int n = (int)g.range(1, 4);
      std::string s = "let\n";
      for (int i = 0; i < n; ++i) {
        std::string id = ident();
        names.push_back(id);
        s += "  " + id + " = " + expr(d + 1) + ";\n";
      }
      s += "in\n" + expr(d + 1);
      names.resize(k);
      return s;
    }
    case 5:
      return "[ " + expr(d + 2) + " (" + expr(d + 2) + ") " + var() + " ]";
    case 6:
      return "with pkgs; [ hello git " + ident() + " ]";
    case 7:
      return "with " + var() + "; " + expr(d + 1);
    case 8:
      return "lib." + ident() + (g.chance(0.5) ? "." + ident() : "");
    case 9:
      return "pkgs." + ident();
    case 10:
      return var() + "." + attrpath() + (g.chance(0.3) ? " or " + var() : "");
    case 11:
      return "if " + expr(d + 1) + " then " + expr(d + 1) + " else " +
             expr(d + 1);
    case 12: {
      size_t k = names.size();
      std::string f = formals();
      std::string s = "(" + f + ": " + expr(d + 1) + ")";
      names.resize(k);
      return s;
    }
    case 13: {
      size_t k = names.size();
      std::string id = ident();
      names.push_back(id);
      std::string s = "(" + id + ": " + expr(d + 1) + ")";
      names.resize(k);
      return s;
    }
    case 14:
      return "(" + var() + " " + expr(d + 2) + ")";
    case 15:
      return "(" + expr(d + 1) + (g.chance(0.5) ? " + " : " == ") +
             expr(d + 1) + ")";
    case 16:
      return "assert " + var() + "; " + expr(d + 1);
    case 17:
      return path();
    case 18:
    case 19:
      return str();
    case 20:
      return "(" + var() + " ? " + attrpath() + ")";
    default:
      return var();
    }
  }
  std::string top() {
    std::string s;
    if (g.chance(0.5))
      s += formals() + ":\n";
    if (g.chance(0.4)) {
      s += "let\n";
      int n = (int)g.range(1, 4);
      for (int i = 0; i < n; ++i) {
        std::string id = ident();
        names.push_back(id);
        s += "  " + id + " = " + expr(2) + ";\n";
      }
      s += "in\n";
    }
    s += "{\n" + binds(1, (int)g.range(2, 7)) + "}\n";
    return s;
  }
};
} // namespace
std::string genNix(uint64_t seed, int budget) {
  NixGen n(seed, budget);
  std::string s = n.top();
  if (s.size() > 6000) {
    size_t n = 6000;
    while (((unsigned char)s[n] & 0xc0) == 0x80)
      n--;
    s.resize(n);
  }
  return s;
}
std::string mutateNix(const std::string &s, uint64_t seed) {
  Gen g(seed * 2654435761u + 3);
  static const std::vector<std::string> toks = {
      " ", "\n", ";", "{", "}", "(", ")", "[", "]", "=", ".", ",", ":", "@",
      "\"", "''", "${", "let ", " in ", "rec ", "with pkgs; ", "inherit ",
      "if ", " then ", " else ", "assert ", "or ", "...", "?", "//", "++",
      "# c\n", "/* ", "*/", "./a.nix", "foo", "x = 1; ", "a.b.c = 2; ",
      "\xf0\x9f\x98\x80", "\xc3\xa9", "null", "-", "!", "<", "~/"};
  auto cut = [&](size_t p) {
    while (p > 0 && p < s.size() && ((unsigned char)s[p] & 0xc0) == 0x80)
      p--;
    return p;
  };
  size_t p = cut((size_t)g.range(0, (int64_t)s.size()));
  size_t q = cut(std::min(s.size(), p + (size_t)g.range(0, 30)));
  if (q < p)
    q = p;
  switch (g.range(0, 9)) {
  case 0:
    return s.substr(0, p) + s.substr(q); // delete a piece
  case 1:
  case 2:
    return s.substr(0, p) + g.pick(toks) + s.substr(p);
  case 3:
    return s.substr(0, p); // cut the end off
  case 4:
    return "# \xe6\xbc\xa2 header\n" + s; // everything moves
  case 5: { // duplicate a line
    size_t a = s.rfind('\n', p == 0 ? 0 : p - 1);
    a = a == s.npos ? 0 : a + 1;
    size_t b = s.find('\n', a);
    b = b == s.npos ? s.size() : b + 1;
    return s.substr(0, b) + s.substr(a, b - a) + s.substr(b);
  }
  case 6: { // rename the identifier here
    size_t a = p, b = p;
    auto id = [&](size_t i) { return i < s.size() && isalpha((unsigned char)s[i]); };
    while (a > 0 && id(a - 1))
      a--;
    while (id(b))
      b++;
    return s.substr(0, a) + "renamed" + s.substr(b);
  }
  case 7: { // move a line to the end
    size_t a = s.rfind('\n', p == 0 ? 0 : p - 1);
    a = a == s.npos ? 0 : a + 1;
    size_t b = s.find('\n', a);
    b = b == s.npos ? s.size() : b + 1;
    return s.substr(0, a) + s.substr(b) + s.substr(a, b - a);
  }
  case 8:
    return s.substr(0, p) + "\n\n" + s.substr(p);
  default:
    return s.substr(0, p) + genNix(g.next(), 6) + s.substr(q);
  }
}
} // namespace fw

#include "common.h"
#include <llvm/Support/raw_ostream.h>

namespace hs {
std::string dump(const json::Value &v) {
  std::string s;
  llvm::raw_string_ostream o(s);
  o << v;
  return o.str();
}
json::Value parseJson(const std::string &s, bool *bad) {
  auto e = json::parse(s);
  if (bad)
    *bad = !e;
  if (!e) {
    llvm::consumeError(e.takeError());
    return nullptr;
  }
  return *e;
}
std::string genText(uint64_t seed, int bytes, bool ascii) {
  Gen g(seed ^ 0xabcdef);
  std::string s;
  static const std::vector<std::string> odd = {
      "\n", "\r\n", "\"", "\\", "\t", "é", "漢", "😀", "\x01", "{", "}",
      "Content-Length: 5\r\n\r\n", "```", "\xef\xbf\xbd", "\x7f", " "};
  while ((int)s.size() < bytes) {
    if (!ascii && g.chance(0.15))
      s += g.pick(odd);
    else
      s += (char)g.range(97, 122);
  }
  return s;
}
json::Value genValue(uint64_t seed, int fill) {
  Gen g(seed * 31 + 7);
  switch (g.range(0, 6)) {
  case 0:
    return json::Object{{"u", (int64_t)seed}, {"s", genText(seed, fill)}};
  case 1: {
    json::Array a;
    a.push_back((int64_t)seed);
    int n = (int)g.range(0, 5);
    for (int i = 0; i < n; ++i)
      a.push_back(genText(seed + i, fill / (n ? n : 1)));
    return std::move(a);
  }
  case 2:
    return json::Object{{"u", (int64_t)seed},
                        {"n", nullptr},
                        {"b", true},
                        {"d", 0.5},
                        {"i", INT64_MAX},
                        {"o", json::Object{{"x", genText(seed, fill)}}}};
  case 3:
    return std::to_string(seed) + genText(seed, fill);
  default:
    return json::Object{{"u", (int64_t)seed}, {"t", genText(seed, fill, true)}};
  }
}
std::string frame(const std::string &body, int style) {
  std::string n = std::to_string(body.size());
  switch (style) {
  case 1:
    return "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
           "Content-Length: " +
           n + "\r\n\r\n" + body;
  case 2:
    return "Content-Length: " + n +
           "\r\nContent-Type: application/vscode-jsonrpc; charset=utf8\r\n"
           "X-Trace: Content-Length: 3\r\n\r\n" +
           body;
  case 3:
    return "X-A: b\r\nX-B: \r\nContent-Length: " + n + "\r\n\r\n" + body;
  default:
    return "Content-Length: " + n + "\r\n\r\n" + body;
  }
}
void FrameParser::feed(const std::string &s) {
  buf += s;
  while (!bad && !buf.empty()) {
    size_t e = buf.find("\r\n\r\n");
    // the header has to look like one from its first byte on
    std::string head = buf.substr(0, std::min(e, buf.size()));
    size_t pos = 0, n = std::string::npos;
    while (pos < head.size()) {
      size_t nl = head.find("\r\n", pos);
      bool whole = nl != head.npos || e != buf.npos;
      std::string line = head.substr(pos, nl == head.npos ? nl : nl - pos);
      pos = nl == head.npos ? head.size() : nl + 2;
      size_t c = line.find(':');
      std::string name = line.substr(0, c);
      for (char &ch : name) {
        if (!isalnum((unsigned char)ch) && ch != '-' &&
            !(ch == '\r' && !whole)) {
          bad = true;
          why = "no frame header at: " + line.substr(0, 60);
          return;
        }
        ch = (char)tolower((unsigned char)ch);
      }
      if (!whole)
        break;
      if (c == line.npos) {
        bad = true;
        why = "no frame header at: " + line.substr(0, 60);
        return;
      }
      if (name != "content-length")
        continue;
      std::string num = line.substr(c + 1);
      while (!num.empty() && num[0] == ' ')
        num.erase(0, 1);
      if (num.empty() || num.size() > 9 || n != head.npos ||
          num.find_first_not_of("0123456789") != num.npos) {
        bad = true;
        why = "bad length: " + num;
        return;
      }
      n = strtoul(num.c_str(), nullptr, 10);
    }
    if (e == buf.npos) {
      if (buf.size() > 500) {
        bad = true;
        why = "endless frame header: " + buf.substr(0, 60);
      }
      return;
    }
    if (n == std::string::npos) {
      bad = true;
      why = "frame without length: " + head.substr(0, 60);
      return;
    }
    if (buf.size() < e + 4 + n)
      return;
    bodies.push_back(buf.substr(e + 4, n));
    buf.erase(0, e + 4 + n);
  }
}

void Sender::open(Pipe *p) {
  f = newFile(File::W, p);
  fileRef(f);
}
bool Sender::canSend() const {
  if (!f || q.empty())
    return false;
  return f->pipe->readers == 0 || f->pipe->buf.size() < f->pipe->cap;
}
void Sender::sendSome() {
  Pipe *p = f->pipe;
  if (p->readers == 0) {
    q.clear();
    return;
  }
  size_t n = std::min(q.size(), p->cap - p->buf.size());
  if (n > 1 && chop > 0) {
    switch (choose('e', 4, chop)) {
    case 1:
      n = 1;
      break;
    case 2:
      n = 1 + pickn('E', (int)std::min<size_t>(n, 40));
      break;
    case 3:
      n = 1 + pickn('E', (int)n);
      break;
    }
  }
  p->buf.append(q, 0, n);
  p->total += n;
  q.erase(0, n);
  sent += n;
  event("peer-write", n);
  logf("sends %zu bytes", n);
}
void Sender::close() {
  if (f)
    fileUnref(f);
  f = nullptr;
  event("peer-close");
}
void Receiver::open(Pipe *p) {
  f = newFile(File::R, p);
  fileRef(f);
}
std::string Receiver::readSome() {
  Pipe *p = f->pipe;
  size_t n = p->buf.size();
  if (n > 1 && chop > 0) {
    switch (choose('g', 3, chop)) {
    case 1:
      n = 1 + pickn('G', (int)std::min<size_t>(n, 40));
      break;
    case 2:
      n = 1 + pickn('G', (int)n);
      break;
    }
  }
  std::string s = p->buf.substr(0, n);
  p->buf.erase(0, n);
  event("peer-read", n);
  return s;
}
void Receiver::close() {
  if (f)
    fileUnref(f);
  f = nullptr;
}
void setFd(Proc &p, int fd, File *f) {
  if ((int)p.fds.size() <= fd)
    p.fds.resize(fd + 1);
  if (p.fds[fd].f)
    fileUnref(p.fds[fd].f);
  p.fds[fd].f = f;
  p.fds[fd].cloexec = false;
  if (f)
    fileRef(f);
}
Pipe *serverReads(int fd) {
  Pipe *p = newPipe();
  setFd(self(), fd, newFile(File::R, p));
  return p;
}
Pipe *serverWrites(int fd) {
  Pipe *p = newPipe();
  setFd(self(), fd, newFile(File::W, p));
  return p;
}
} // namespace hs

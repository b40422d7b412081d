// Line driven access to the leaf components: annotation parser, argument values, identifiers.
#include "genpybind/annotations/annotation.h"
#include "genpybind/annotations/literal_value.h"
#include "genpybind/annotations/parser.h"
#include "genpybind/string_utils.h"

#include <llvm/ADT/SmallString.h>
#include <llvm/Support/raw_ostream.h>

#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace genpybind;
using namespace genpybind::annotations;

static std::string unhex(const std::string &s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
static std::string hex(llvm::StringRef s) {
  std::string r;
  char b[3];
  for (unsigned char c : s) {
    snprintf(b, 3, "%02x", c);
    r += b;
  }
  return r.empty() ? "-" : r;
}
static std::string show(const LiteralValue &v) {
  if (v.isa(LiteralValue::Kind::Nothing) != v.isNothing() || v.hasValue() == v.isNothing() ||
      static_cast<bool>(v) != v.hasValue() || v.isa(LiteralValue::Kind::String) != v.isString())
    return "inconsistent";
  int n = v.isNothing() + v.isString() + v.isUnsigned() + v.isBoolean() + v.isDefault();
  if (n != 1)
    return "kinds" + std::to_string(n);
  if (v.isNothing())
    return "N";
  if (v.isDefault())
    return "D";
  if (v.isUnsigned())
    return "U" + std::to_string(v.getUnsigned());
  if (v.isBoolean())
    return v.getBoolean() ? "B1" : "B0";
  return "S" + hex(v.getString());
}

static void parse(const std::string &text) {
  // exact-size heap copy: reading past the end is caught by ASan
  std::unique_ptr<char[]> buf(new char[text.size()]);
  memcpy(buf.get(), text.data(), text.size());
  llvm::StringRef ref(buf.get(), text.size());
  for (int variant = 0; variant < 2; ++variant) {
    std::string line;
    Parser::Annotations anns;
    llvm::Error err = llvm::Error::success();
    if (variant == 0) {
      consumeError(std::move(err));
      err = Parser::parseAnnotations(ref, anns);
    } else {
      consumeError(std::move(err));
      auto r = Parser::parseAnnotations(ref);
      if (r) {
        anns = std::move(*r);
        err = llvm::Error::success();
      } else
        err = r.takeError();
    }
    if (err) {
      llvm::handleAllErrors(
          std::move(err),
          [&](const Parser::Error &e) {
            llvm::StringRef t = e.getToken();
            long off = t.empty() ? -1 : (long)(t.data() - ref.data());
            line = "err " + std::to_string((int)e.getKind()) + " " + hex(t) + " " + std::to_string(off);
          },
          [&](const llvm::ErrorInfoBase &) { line = "err other"; });
    } else {
      line = "ok";
      for (const auto &a : anns) {
        line += " " + toString(a.getKind()).str() + "=";
        for (const auto &v : a.getArguments())
          line += show(v) + ";";
      }
    }
    printf("%s%s", variant ? " | " : "", line.c_str());
  }
  printf("\n");
}

static void identifier(const std::string &text) {
  std::unique_ptr<char[]> buf(new char[text.size()]);
  memcpy(buf.get(), text.data(), text.size());
  llvm::SmallString<4> s(llvm::StringRef(buf.get(), text.size()));
  makeValidIdentifier(s);
  llvm::SmallString<64> t(s);
  makeValidIdentifier(t);
  printf("%s %s %d %d\n", hex(s).c_str(), hex(t).c_str(),
         (int)isValidIdentifier(llvm::StringRef(buf.get(), text.size())), (int)isValidIdentifier(s));
}

static std::string script(const std::string &text) {
  std::string out;
  {
    std::istringstream in(text);
    std::vector<LiteralValue *> v(6, nullptr);
    for (auto &p : v)
      p = new LiteralValue();
    std::string op;
    while (in >> op) {
      int i = 0, j = 0;
      in >> i;
      bool extra = false;
      std::string res;
      if (op == "nothing")
        v[i]->setNothing();
      else if (op == "string") {
        std::string h;
        in >> h;
        v[i]->setString(unhex(h == "-" ? "" : h));
      } else if (op == "unsigned") {
        unsigned u;
        in >> u;
        v[i]->setUnsigned(u);
      } else if (op == "boolean") {
        int b;
        in >> b;
        v[i]->setBoolean(b);
      } else if (op == "default")
        v[i]->setDefault();
      else if (op == "copy") {
        in >> j;
        *v[i] = static_cast<const LiteralValue &>(*v[j]);
      } else if (op == "move") {
        in >> j;
        *v[i] = std::move(*v[j]);
      } else if (op == "copyctor") {
        in >> j;
        auto *n = new LiteralValue(static_cast<const LiteralValue &>(*v[j]));
        delete v[i];
        v[i] = n;
      } else if (op == "movector") {
        in >> j;
        auto *n = new LiteralValue(std::move(*v[j]));
        delete v[i];
        v[i] = n;
      } else if (op == "own") { // assign a value its own string
        if (v[i]->isString()) {
          v[i]->setString(v[i]->getString());
        }
      } else if (op == "create") {
        std::string k;
        in >> k;
        if (k[0] == 'S')
          *v[i] = LiteralValue::createString(unhex(k.substr(1)));
        else if (k[0] == 'U')
          *v[i] = LiteralValue::createUnsigned((unsigned)std::stoul(k.substr(1)));
        else if (k[0] == 'B')
          *v[i] = LiteralValue::createBoolean(k[1] == '1');
        else
          *v[i] = LiteralValue::createDefault();
      } else if (op == "swap") {
        in >> j;
        std::swap(*v[i], *v[j]);
      } else if (op == "vec") { // growth of a small vector
        llvm::SmallVector<LiteralValue, 1> sv;
        for (auto *p : v)
          sv.push_back(*p);
        for (size_t k = 0; k < v.size(); ++k)
          *v[k] = std::move(sv[k]);
      } else if (op == "eq") {
        in >> j;
        bool e = *v[i] == *v[j];
        if (e == (*v[i] != *v[j]))
          res = "ne-mismatch";
        res += e ? "=" : "!";
        extra = true;
      } else if (op == "print") {
        res = hex(toString(*v[i]));
        extra = true;
      }
      out += "/";
      if (extra)
        out += "(" + res + ")";
      for (auto *p : v)
        out += show(*p) + ",";
    }
    for (auto *p : v)
      delete p;
  }
  return out;
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::string arg = line.size() > 2 ? line.substr(2) : "";
    if (line[0] == 'P')
      parse(unhex(arg));
    else if (line[0] == 'I')
      identifier(unhex(arg));
    else if (line[0] == 'V') {
      script(arg); // warm up
      size_t before = 0, after = 0;
      std::string s;
      s.reserve(1 << 16);
      before = __sanitizer_get_current_allocated_bytes();
      { std::string r = script(arg); }
      after = __sanitizer_get_current_allocated_bytes();
      s = script(arg);
      printf("%ld %s\n", (long)after - (long)before, s.c_str());
    }
    fflush(stdout);
  }
  return 0;
}

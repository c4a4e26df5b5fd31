// Serialisation by visitors: JSON (replay files) and binary (results through a pipe).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace ar {
struct JsonOut {
  std::string s;
  int         depth = 0;
  bool        first = true;
  void        val(const std::string &v)
  {
    s += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') {
        s += '\\';
        s += char(c);
      } else if (c == '\n')
        s += "\\n";
      else if (c < 32 || c > 126) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        s += b;
      } else
        s += char(c);
    }
    s += '"';
  }
  void val(double v)
  {
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    if (v != v)
      s += "\"nan\"";
    else if (v - v != 0)
      s += v > 0 ? "\"inf\"" : "\"-inf\"";
    else
      s += b;
  }
  void val(int v) { s += std::to_string(v); }
  void val(int64_t v) { s += std::to_string((long long) v); }
  void val(uint64_t v) { s += std::to_string((unsigned long long) v); }
  void val(uint32_t v) { s += std::to_string(v); }
  void val(bool v) { s += v ? "true" : "false"; }
  template <class T>
  void val(const std::vector<T> &v)
  {
    s += '[';
    bool f = true;
    for (auto &x : v) {
      if (!f)
        s += ',';
      f = false;
      val(x);
    }
    s += ']';
  }
  template <class T>
  void val(const std::map<std::string, T> &v)
  {
    s += '{';
    bool f = true;
    for (auto &x : v) {
      if (!f)
        s += ',';
      f = false;
      val(x.first);
      s += ':';
      val(x.second);
    }
    s += '}';
  }
  template <class T, class = decltype(std::declval<T &>().io(std::declval<JsonOut &>()))>
  void val(const T &v)
  {
    s += '{';
    bool f = first;
    first  = true;
    const_cast<T &>(v).io(*this);
    first = f;
    s += '}';
  }
  template <class T>
  void operator()(const char *k, T &v)
  {
    if (!first)
      s += ',';
    first = false;
    val(std::string(k));
    s += ':';
    val(v);
  }
};

struct JV { // parsed JSON
  enum K { Null, Num, Str, Arr, Obj, Bool } k = Null;
  std::string                              s; // number text or string
  std::vector<JV>                          a;
  std::vector<std::pair<std::string, JV>>  o;
  const JV                                *get(const char *key) const
  {
    for (auto &x : o)
      if (x.first == key)
        return &x.second;
    return nullptr;
  }
};
struct JP {
  const char *p, *e;
  void        ws()
  {
    while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r'))
      ++p;
  }
  [[noreturn]] void bad(const char *m) { throw std::runtime_error(std::string("json: ") + m); }
  JV                parse()
  {
    ws();
    JV v;
    if (p >= e)
      bad("end");
    if (*p == '{') {
      v.k = JV::Obj;
      ++p;
      ws();
      if (*p == '}') {
        ++p;
        return v;
      }
      for (;;) {
        ws();
        JV key = parse();
        ws();
        if (*p != ':')
          bad("colon");
        ++p;
        v.o.emplace_back(key.s, parse());
        ws();
        if (*p == ',') {
          ++p;
          continue;
        }
        if (*p == '}') {
          ++p;
          return v;
        }
        bad("object");
      }
    }
    if (*p == '[') {
      v.k = JV::Arr;
      ++p;
      ws();
      if (*p == ']') {
        ++p;
        return v;
      }
      for (;;) {
        v.a.push_back(parse());
        ws();
        if (*p == ',') {
          ++p;
          continue;
        }
        if (*p == ']') {
          ++p;
          return v;
        }
        bad("array");
      }
    }
    if (*p == '"') {
      v.k = JV::Str;
      ++p;
      while (p < e && *p != '"') {
        if (*p == '\\') {
          ++p;
          if (*p == 'n')
            v.s += '\n';
          else if (*p == 'u') {
            v.s += char(strtol(std::string(p + 1, 4).c_str(), nullptr, 16));
            p += 4;
          } else
            v.s += *p;
          ++p;
        } else
          v.s += *p++;
      }
      ++p;
      return v;
    }
    if (!strncmp(p, "true", 4)) {
      p += 4;
      v.k = JV::Bool;
      v.s = "1";
      return v;
    }
    if (!strncmp(p, "false", 5)) {
      p += 5;
      v.k = JV::Bool;
      v.s = "0";
      return v;
    }
    if (!strncmp(p, "null", 4)) {
      p += 4;
      return v;
    }
    v.k = JV::Num;
    while (p < e && strchr("+-0123456789.eE", *p))
      v.s += *p++;
    if (v.s.empty())
      bad("value");
    return v;
  }
};
inline JV parseJson(const std::string &s)
{
  JP p{s.data(), s.data() + s.size()};
  return p.parse();
}

struct JsonIn {
  const JV *cur;
  void      val(const JV &j, std::string &v) { v = j.s; }
  void      val(const JV &j, double &v) { v = j.k == JV::Str ? (j.s == "nan" ? __builtin_nan("") : j.s == "inf" ? __builtin_inf() : -__builtin_inf()) : strtod(j.s.c_str(), nullptr); }
  void      val(const JV &j, int &v) { v = atoi(j.s.c_str()); }
  void      val(const JV &j, int64_t &v) { v = atoll(j.s.c_str()); }
  void      val(const JV &j, uint64_t &v) { v = strtoull(j.s.c_str(), nullptr, 10); }
  void      val(const JV &j, uint32_t &v) { v = uint32_t(strtoul(j.s.c_str(), nullptr, 10)); }
  void      val(const JV &j, bool &v) { v = j.s == "1"; }
  template <class T>
  void val(const JV &j, std::vector<T> &v)
  {
    v.clear();
    for (auto &x : j.a) {
      v.emplace_back();
      val(x, v.back());
    }
  }
  template <class T>
  void val(const JV &j, std::map<std::string, T> &v)
  {
    v.clear();
    for (auto &x : j.o)
      val(x.second, v[x.first]);
  }
  template <class T, class = decltype(std::declval<T &>().io(std::declval<JsonIn &>()))>
  void val(const JV &j, T &v)
  {
    JsonIn in{&j};
    v.io(in);
  }
  template <class T>
  void operator()(const char *k, T &v)
  {
    if (const JV *j = cur->get(k))
      val(*j, v);
  }
};
template <class T>
std::string toJson(const T &v)
{
  JsonOut o;
  o.val(v);
  return o.s;
}
template <class T>
void fromJson(const JV &j, T &v)
{
  JsonIn in{&j};
  in.val(j, v);
}
template <class T>
void fromJson(const std::string &s, T &v)
{
  JV j = parseJson(s);
  fromJson(j, v);
}

struct BinOut {
  std::string s;
  template <class P>
  void raw(P v) { s.append((const char *) &v, sizeof v); }
  void val(const std::string &v)
  {
    raw(uint64_t(v.size()));
    s += v;
  }
  void val(double v) { raw(v); }
  void val(int v) { raw(v); }
  void val(int64_t v) { raw(v); }
  void val(uint64_t v) { raw(v); }
  void val(uint32_t v) { raw(v); }
  void val(bool v) { raw(v); }
  template <class T>
  void val(const std::vector<T> &v)
  {
    raw(uint64_t(v.size()));
    for (auto &x : v)
      val(x);
  }
  template <class T>
  void val(const std::map<std::string, T> &v)
  {
    raw(uint64_t(v.size()));
    for (auto &x : v) {
      val(x.first);
      val(x.second);
    }
  }
  template <class T, class = decltype(std::declval<T &>().io(std::declval<BinOut &>()))>
  void val(const T &v) { const_cast<T &>(v).io(*this); }
  template <class T>
  void operator()(const char *, T &v) { val(v); }
};
struct BinIn {
  const char *p, *e;
  template <class P>
  void raw(P &v)
  {
    if (e - p < long(sizeof v))
      throw std::runtime_error("short binary input");
    memcpy(&v, p, sizeof v);
    p += sizeof v;
  }
  void val(std::string &v)
  {
    uint64_t n;
    raw(n);
    if (uint64_t(e - p) < n)
      throw std::runtime_error("short binary input");
    v.assign(p, n);
    p += n;
  }
  void val(double &v) { raw(v); }
  void val(int &v) { raw(v); }
  void val(int64_t &v) { raw(v); }
  void val(uint64_t &v) { raw(v); }
  void val(uint32_t &v) { raw(v); }
  void val(bool &v) { raw(v); }
  template <class T>
  void val(std::vector<T> &v)
  {
    uint64_t n;
    raw(n);
    if (n > uint64_t(e - p) + 1)
      throw std::runtime_error("bad binary input");
    v.clear();
    v.resize(n);
    for (auto &x : v)
      val(x);
  }
  template <class T>
  void val(std::map<std::string, T> &v)
  {
    uint64_t n;
    raw(n);
    v.clear();
    for (uint64_t i = 0; i < n; ++i) {
      std::string k;
      val(k);
      val(v[k]);
    }
  }
  template <class T, class = decltype(std::declval<T &>().io(std::declval<BinIn &>()))>
  void val(T &v) { v.io(*this); }
  template <class T>
  void operator()(const char *, T &v) { val(v); }
};
} // namespace ar

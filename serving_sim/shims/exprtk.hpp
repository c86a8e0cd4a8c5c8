#pragma once
// stand-in for exprtk: arithmetic, powers, comparisons and a few functions
#include <algorithm>
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace exprtk {
template <class T>
class symbol_table {
 public:
  static std::string low(std::string s) {
    for (auto& c : s) c = char(std::tolower((unsigned char)c));
    return s;
  }
  bool add_constant(const std::string& n, T v) {
    std::string k = low(n);
    if (k.empty() || !(std::isalpha((unsigned char)k[0]))) return false;
    for (char c : k)
      if (!std::isalnum((unsigned char)c) && c != '_' && c != '.') return false;
    return vars.emplace(k, v).second;
  }
  std::map<std::string, T> vars;
};
template <class T>
class expression {
 public:
  void register_symbol_table(symbol_table<T>& t) { table = t; }
  T value() const { return val; }
  symbol_table<T> table;
  T val = std::numeric_limits<T>::quiet_NaN();
};
template <class T>
class parser {
 public:
  bool compile(const std::string& s, expression<T>& e) {
    s_ = s;
    p_ = 0;
    e_ = &e;
    try {
      T v = cmp();
      ws();
      if (p_ != s_.size()) return false;
      e.val = v;
      return true;
    } catch (const std::runtime_error&) {
      return false;
    }
  }

 private:
  void ws() {
    while (p_ < s_.size() && std::isspace((unsigned char)s_[p_])) p_++;
  }
  bool eat(char c) {
    ws();
    if (p_ < s_.size() && s_[p_] == c) {
      p_++;
      return true;
    }
    return false;
  }
  T cmp() {
    T a = sum();
    for (;;) {
      ws();
      if (eat('<'))
        a = a < sum();
      else if (eat('>'))
        a = a > sum();
      else
        return a;
    }
  }
  T sum() {
    T a = prod();
    for (;;) {
      if (eat('+'))
        a = a + prod();
      else if (eat('-'))
        a = a - prod();
      else
        return a;
    }
  }
  T prod() {
    T a = unary();
    for (;;) {
      if (eat('*'))
        a = a * unary();
      else if (eat('/'))
        a = a / unary();
      else
        return a;
    }
  }
  T unary() {
    if (eat('-')) return -unary();
    if (eat('+')) return unary();
    T a = atom();
    if (eat('^')) return std::pow(a, unary());
    return a;
  }
  T atom() {
    ws();
    if (eat('(')) {
      T v = cmp();
      if (!eat(')')) throw std::runtime_error("syntax");
      return v;
    }
    if (p_ < s_.size() && (std::isdigit((unsigned char)s_[p_]) || s_[p_] == '.')) {
      char* end;
      T v = T(std::strtod(s_.c_str() + p_, &end));
      p_ = end - s_.c_str();
      return v;
    }
    std::string id;
    while (p_ < s_.size() && (std::isalnum((unsigned char)s_[p_]) || s_[p_] == '_')) id += s_[p_++];
    if (id.empty()) throw std::runtime_error("syntax");
    id = symbol_table<T>::low(id);
    auto it = e_->table.vars.find(id);
    if (it != e_->table.vars.end()) return it->second;
    if (eat('(')) {
      std::vector<T> a{cmp()};
      while (eat(',')) a.push_back(cmp());
      if (!eat(')')) throw std::runtime_error("syntax");
      if (id == "exp" && a.size() == 1) return std::exp(a[0]);
      if (id == "log" && a.size() == 1) return std::log(a[0]);
      if (id == "sqrt" && a.size() == 1) return std::sqrt(a[0]);
      if (id == "abs" && a.size() == 1) return std::fabs(a[0]);
      if (id == "min") return *std::min_element(a.begin(), a.end());
      if (id == "max") return *std::max_element(a.begin(), a.end());
    }
    throw std::runtime_error("unknown symbol");
  }
  std::string s_;
  size_t p_ = 0;
  expression<T>* e_ = nullptr;
};
}  // namespace exprtk

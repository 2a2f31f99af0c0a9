// Element types for instantiating the templates of /repo: dvc treats them as
// uninterpreted sorts, so a proof about these instances is a proof for every
// element type whose copy, assignment and equality behave as values.
#pragma once
#include <cstddef>
#include <functional>
#include <ostream>
namespace dreal {
struct VKey {
  int i;
  friend bool operator==(const VKey& a, const VKey& b) { return a.i == b.i; }
  friend std::ostream& operator<<(std::ostream& os, const VKey&) { return os; }
};
struct VElem {
  int i;
  friend bool operator==(const VElem& a, const VElem& b) { return a.i == b.i; }
  friend bool operator<(const VElem& a, const VElem& b) { return a.i < b.i; }
  friend std::ostream& operator<<(std::ostream& os, const VElem&) { return os; }
};
struct VHash {
  std::size_t operator()(const VKey& k) const { return k.i; }
};
}  // namespace dreal

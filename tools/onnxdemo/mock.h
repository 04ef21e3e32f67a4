// Stand-ins for what the small handlers of TorchOnnxToTorch use: an operation is
// a term, and a handler's outcome is the term that replaces the ONNX operator.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <limits>
#include <map>
#include <optional>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

struct Location {};
struct LogicalResult { bool ok; };
using ParseResult = bool; // true: failure
inline LogicalResult success() { return {true}; }
inline LogicalResult failure() { return {false}; }
inline bool failed(LogicalResult r) { return !r.ok; }
inline bool failed(ParseResult r) { return r; }
inline bool succeeded(LogicalResult r) { return r.ok; }
struct StringRef : std::string { using std::string::string; StringRef(const std::string &s) : std::string(s) {} };
template <class T, unsigned N = 4> struct SmallVector : std::vector<T> {
  using std::vector<T>::vector;
  SmallVector() = default;
  SmallVector(const std::vector<T> &v) : std::vector<T>(v) {}
  template <class I> void append(I a, I b) { this->insert(this->end(), a, b); }
  template <class U> void append(const U &u) { for (auto &x : u) this->push_back(x); }
};
template <class T> using ArrayRef = std::vector<T>;
namespace llvm {
template <class T, unsigned N = 4> using SmallVector = ::SmallVector<T, N>;
using StringRef = ::StringRef;
template <class T> using ArrayRef = std::vector<T>;
} // namespace llvm

struct Context {};
struct Type {
  std::string s = "?";
  bool isTensor = false;
  std::vector<int64_t> sizes;
  Context *getContext() const { return nullptr; }
  explicit operator bool() const { return true; }
};
struct Value {
  std::string s = "<unset>";
  Type t;
  Type getType() const { return t; }
};
inline std::string str(const Type &) { return ""; }
inline std::string str(const Value &v) { return v.s; }
inline std::string str(const std::string &v) { return '"' + v + '"'; }
inline std::string str(const char *v) { return std::string("\"") + v + '"'; }
template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> std::string str(T v) {
  std::ostringstream o;
  o << v;
  return o.str();
}
struct Attr { std::string s; };
inline std::string str(const Attr &a) { return a.s; }
struct Operation;
struct Operation { std::vector<Value> operands, results; Value getOperand(unsigned i) { return operands.at(i); } unsigned getNumOperands() { return operands.size(); } unsigned getNumResults() { return results.size(); } Location getLoc() { return {}; } Context *getContext() { return nullptr; } };
inline std::string str(Operation *) { return ""; }
template <class T> std::string str(const std::vector<T> &v) {
  std::string r = "[";
  for (auto &x : v) r += (r.size() > 1 ? ", " : "") + str(x);
  return r + "]";
}
template <class T, unsigned N> std::string str(const SmallVector<T, N> &v) { return str(static_cast<const std::vector<T> &>(v)); }
template <class T> std::string str(std::initializer_list<T> v) { return str(std::vector<T>(v)); }

namespace Torch {
constexpr int64_t kUnknownSize = -1;
struct ValueTensorType : Type {
  bool hasSizes() const { return true; }
  const std::vector<int64_t> &getSizes() const { return sizes; }
  std::optional<std::vector<int64_t>> getOptionalSizes() const { return sizes; }
  bool hasDtype() const { return true; }
  Type getDtype() const { return {"f32"}; }
  Type getOptionalDtype() const { return getDtype(); }
  static ValueTensorType get(Context *, const std::vector<int64_t> &s, const Type &) { ValueTensorType t; t.sizes = s; t.isTensor = true; return t; }
  ValueTensorType getWithSizesAndDtype(const std::vector<int64_t> &s, const Type &d) const { return get(nullptr, s, d); }
};
using BaseTensorType = ValueTensorType;
struct IntType : Type {}; struct FloatType : Type {}; struct BoolType : Type {}; struct NoneType : Type {}; struct StringType : Type {};
struct ListType : Type { static ListType get(const Type &) { return {}; } };
} // namespace Torch
template <class T, class F> T cast(const F &f) { T t; static_cast<Type &>(t) = f; return t; }
namespace mlir { struct FloatType : Type {}; struct IntegerType : Type {}; using ::Type; using ::Value; }
template <class T, class F> bool isa(const F &) { return !std::is_same_v<T, mlir::IntegerType>; }
template <class T, class F> T dyn_cast(const F &f) { return cast<T>(f); }

struct ConversionPatternRewriter {
  std::string result;
  Attr getI64IntegerAttr(int64_t v) { return {str(v)}; }
  Attr getF64FloatAttr(double v) { return {str(v)}; }
  Attr getF32FloatAttr(float v) { return {str(v)}; }
  Attr getBoolAttr(bool v) { return {v ? "true" : "false"}; }
  Attr getStringAttr(const std::string &s) { return {str(s)}; }
  Type getIntegerType(int) { return {}; }
  Type getF64Type() { return {}; }
  Type getI1Type() { return {}; }
  Attr getFloatAttr(const Type &, double v) { return {str(v)}; }
  Attr getIntegerAttr(const Type &, int64_t v) { return {str(v)}; }
  template <class T, class... A> T getType(const A &...) { return {}; }
  LogicalResult notifyMatchFailure(Operation *, const std::string &) { return failure(); }
  template <class O, class... A> Value replaceOpWithNewOp(Operation *, const A &...a) {
    Value v = O::create(*this, Location{}, a...);
    result = v.s;
    return v;
  }
  void replaceOp(Operation *, const Value &v) { result = v.s; }
};
template <class N> struct Op : Value {
  using Value::Value;
  Op() = default;
  Op(const Value &v) : Value(v) {}
  Value getResult() const { return *this; }
  template <class... A> static Op create(ConversionPatternRewriter &, Location, const A &...a) {
    std::string r = std::string(N::name) + "(";
    bool first = true;
    auto one = [&](std::string s) { if (!s.empty()) { r += (first ? "" : ", ") + s; first = false; } };
    (one(str(a)), ...);
    Value v;
    v.s = r + ")";
    return v;
  }
};

struct OpBinder {
  Operation *op;
  std::map<std::string, int64_t> ints;
  std::map<std::string, double> floats;
  std::map<std::string, std::string> strings;
  Location getLoc() { return {}; }
  unsigned getNumOperands() { return op->operands.size(); }
  ParseResult tensorOperand(Value &v) { if (op->operands.size() != 1) return true; v = op->operands[0]; return false; }
  ParseResult tensorOperands(Value &a, Value &b) { if (op->operands.size() != 2) return true; a = op->operands[0]; b = op->operands[1]; return false; }
  ParseResult tensorOperands(SmallVector<Value> &l, int64_t n) { if ((int64_t)op->operands.size() != n) return true; for (auto &x : op->operands) l.push_back(x); return false; }
  ParseResult tensorOperandAtIndex(Value &v, int64_t i) { if (i >= (int64_t)op->operands.size()) return true; v = op->operands[i]; return false; }
  ParseResult tensorOperandsList(SmallVector<Value> &l) { for (auto &x : op->operands) l.push_back(x); return false; }
  ParseResult tensorResultType(Torch::ValueTensorType &t) { static_cast<Type &>(t) = op->results.at(0).t; return false; }
  ParseResult s64IntegerAttr(int64_t &v, const std::string &n, int64_t d = 0) { auto i = ints.find(n); v = i == ints.end() ? d : i->second; return false; }
  ParseResult s64BoolAttr(bool &v, const std::string &n, bool d = false) { auto i = ints.find(n); v = i == ints.end() ? d : i->second != 0; return false; }
  ParseResult f32FloatAttr(float &v, const std::string &n, float d = 0) { auto i = floats.find(n); v = i == floats.end() ? d : i->second; return false; }
  ParseResult customOpNameStringAttr(std::string &v, const std::string &n, const std::string &d = "") { auto i = strings.find(n); v = i == strings.end() ? d : i->second; return false; }
};

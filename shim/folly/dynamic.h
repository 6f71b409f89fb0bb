#pragma once
#include <folly/Conv.h>
#include <folly/Range.h>
namespace folly {
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
class dynamic {
public:
    enum Type { NULLT, ARRAY, BOOL, DOUBLE, INT64, OBJECT, STRING };
    using Array = std::vector<dynamic>;
    struct Key : std::string { using std::string::string; Key(const std::string& s) : std::string(s) {} Key(std::string&& s) : std::string(std::move(s)) {} const std::string& asString() const { return *this; } };
    using Obj = std::map<Key, dynamic>;
    struct ObjectMaker {
        ObjectMaker() : o_(std::make_shared<Obj>()) {}
        ObjectMaker(dynamic k, dynamic v) : ObjectMaker() { (*this)(std::move(k), std::move(v)); }
        ObjectMaker& operator()(dynamic k, dynamic v) { (*o_)[k.asString()] = std::move(v); return *this; }
        std::shared_ptr<Obj> o_;
    };
    using object = ObjectMaker;
    struct array_t {};
    static dynamic makeArray(Array a) { dynamic d; d.t_ = ARRAY; d.a_ = std::move(a); return d; }
    template <class... A> static dynamic array(A&&... a) { Array v; (v.emplace_back(dynamic(std::forward<A>(a))), ...); return makeArray(std::move(v)); }
    dynamic() = default;
    dynamic(std::nullptr_t) {}
    dynamic(const char* s) : t_(STRING), s_(s) {}
    dynamic(std::string s) : t_(STRING), s_(std::move(s)) {}
    dynamic(StringPiece s) : t_(STRING), s_(s.str()) {}
    dynamic(const ObjectMaker& m) : t_(OBJECT), o_(std::make_shared<Obj>(*m.o_)) {}
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>>
    dynamic(T v) { if constexpr (std::is_same<T, bool>::value) { t_ = BOOL; b_ = v; } else if constexpr (std::is_floating_point<T>::value) { t_ = DOUBLE; d_ = v; } else { t_ = INT64; i_ = static_cast<int64_t>(v); } }
    dynamic(const dynamic& o) { copy(o); }
    dynamic(dynamic&& o) = default;
    dynamic& operator=(const dynamic& o) { if (this != &o) { dynamic t(o); *this = std::move(t); } return *this; }
    dynamic& operator=(dynamic&& o) = default;
    template <class It> dynamic(It b, It e) : t_(ARRAY) { for (; b != e; ++b) a_.emplace_back(*b); }
    Type type() const { return t_; }
    const char* typeName() const { static const char* n[] = {"null", "array", "boolean", "double", "int64", "object", "string"}; return n[t_]; }
    bool isNull() const { return t_ == NULLT; } bool isArray() const { return t_ == ARRAY; } bool isBool() const { return t_ == BOOL; }
    bool isDouble() const { return t_ == DOUBLE; } bool isInt() const { return t_ == INT64; } bool isObject() const { return t_ == OBJECT; }
    bool isString() const { return t_ == STRING; } bool isNumber() const { return isInt() || isDouble(); }
    std::string asString() const { switch (t_) { case STRING: return s_; case INT64: return to<std::string>(i_); case DOUBLE: return to<std::string>(d_); case BOOL: return b_ ? "true" : "false"; default: bad("string"); } }
    int64_t asInt() const { switch (t_) { case STRING: return to<int64_t>(s_); case INT64: return i_; case DOUBLE: return to<int64_t>(d_); case BOOL: return b_; default: bad("int"); } }
    double asDouble() const { switch (t_) { case STRING: return to<double>(s_); case INT64: return static_cast<double>(i_); case DOUBLE: return d_; case BOOL: return b_; default: bad("double"); } }
    bool asBool() const { switch (t_) { case STRING: return to<bool>(s_); case INT64: return i_ != 0; case DOUBLE: return d_ != 0; case BOOL: return b_; default: bad("bool"); } }
    const std::string& getString() const { need(STRING); return s_; }
    std::string& getString() { need(STRING); return s_; }
    int64_t getInt() const { need(INT64); return i_; } int64_t& getInt() { need(INT64); return i_; }
    double getDouble() const { need(DOUBLE); return d_; } bool getBool() const { need(BOOL); return b_; }
    StringPiece stringPiece() const { return getString(); }
    const char* c_str() const { return getString().c_str(); }
    size_t size() const { if (t_ == ARRAY) return a_.size(); if (t_ == OBJECT) return o_->size(); if (t_ == STRING) return s_.size(); bad("sized"); }
    bool empty() const { return isNull() || size() == 0; }
    Array::const_iterator begin() const { need(ARRAY); return a_.begin(); }
    Array::const_iterator end() const { need(ARRAY); return a_.end(); }
    Array::iterator begin() { need(ARRAY); return a_.begin(); }
    Array::iterator end() { need(ARRAY); return a_.end(); }
    struct ItemRange { Obj* o; Obj::iterator begin() const { return o->begin(); } Obj::iterator end() const { return o->end(); } };
    struct CItemRange { const Obj* o; Obj::const_iterator begin() const { return o->begin(); } Obj::const_iterator end() const { return o->end(); } };
    ItemRange items() { need(OBJECT); return {o_.get()}; }
    CItemRange items() const { need(OBJECT); return {o_.get()}; }
    std::vector<dynamic> keys() const { need(OBJECT); std::vector<dynamic> v; for (auto& p : *o_) v.emplace_back(p.first); return v; }
    std::vector<dynamic> values() const { need(OBJECT); std::vector<dynamic> v; for (auto& p : *o_) v.emplace_back(p.second); return v; }
    CItemRange citems() const { return items(); }
    Obj::const_iterator find(StringPiece k) const { need(OBJECT); return o_->find(k.str()); }
    size_t count(StringPiece k) const { need(OBJECT); return o_->count(k.str()); }
    const dynamic* get_ptr(const dynamic& k) const { if (t_ == ARRAY) { auto i = k.asInt(); return i >= 0 && static_cast<size_t>(i) < a_.size() ? &a_[i] : nullptr; } need(OBJECT); auto i = o_->find(k.asString()); return i == o_->end() ? nullptr : &i->second; }
    dynamic* get_ptr(const dynamic& k) { return const_cast<dynamic*>(static_cast<const dynamic*>(this)->get_ptr(k)); }
    const dynamic& at(const dynamic& k) const { auto p = get_ptr(k); if (!p) throw std::out_of_range("couldn't find key in dynamic"); return *p; }
    dynamic& at(const dynamic& k) { return const_cast<dynamic&>(static_cast<const dynamic*>(this)->at(k)); }
    dynamic& operator[](const dynamic& k) & { if (t_ == ARRAY) return at(k); need(OBJECT); return (*o_)[k.asString()]; }
    const dynamic& operator[](const dynamic& k) const& { return at(k); }
    dynamic getDefault(const dynamic& k) const { auto p = get_ptr(k); if (p) return *p; return nullptr; }
    dynamic getDefault(const dynamic& k, const dynamic& v) const { auto p = get_ptr(k); return p ? *p : v; }
    dynamic& setDefault(const dynamic& k, const dynamic& v) { need(OBJECT); return o_->emplace(k.asString(), v).first->second; }
    void insert(const dynamic& k, dynamic v) { need(OBJECT); (*o_)[k.asString()] = std::move(v); }
    size_t erase(const dynamic& k) { need(OBJECT); return o_->erase(k.asString()); }
    void push_back(dynamic v) { need(ARRAY); a_.push_back(std::move(v)); }
    void pop_back() { need(ARRAY); a_.pop_back(); }
    void resize(size_t n) { need(ARRAY); a_.resize(n); }
    void resize(size_t n, const dynamic& v) { need(ARRAY); a_.resize(n, v); }
    void reserve(size_t n) { need(ARRAY); a_.reserve(n); }
    const dynamic& front() const { need(ARRAY); return a_.front(); }
    const dynamic& back() const { need(ARRAY); return a_.back(); }
    void merge_patch(const dynamic& p) { if (!p.isObject()) { *this = p; return; } if (!isObject()) *this = object(); for (auto& kv : p.items()) { if (kv.second.isNull()) erase(kv.first); else (*this)[kv.first].merge_patch(kv.second); } }
    void update(const dynamic& p) { for (auto& kv : p.items()) (*this)[kv.first] = kv.second; }
    friend bool operator==(const dynamic& a, const dynamic& b) {
        if (a.t_ != b.t_) { if (a.isNumber() && b.isNumber()) return a.asDouble() == b.asDouble(); return false; }
        switch (a.t_) { case NULLT: return true; case ARRAY: return a.a_ == b.a_; case BOOL: return a.b_ == b.b_; case DOUBLE: return a.d_ == b.d_; case INT64: return a.i_ == b.i_; case OBJECT: return *a.o_ == *b.o_; case STRING: return a.s_ == b.s_; }
        return false;
    }
    friend bool operator!=(const dynamic& a, const dynamic& b) { return !(a == b); }
private:
    void copy(const dynamic& o) { t_ = o.t_; b_ = o.b_; i_ = o.i_; d_ = o.d_; s_ = o.s_; a_ = o.a_; o_ = o.o_ ? std::make_shared<Obj>(*o.o_) : nullptr; }
    [[noreturn]] void bad(const char* w) const { throw TypeError(std::string("TypeError: expected dynamic type `") + w + "', but had type `" + typeName() + "'"); }
    void need(Type t) const { if (t_ != t) { static const char* n[] = {"null", "array", "boolean", "double", "int64", "object", "string"}; bad(n[t]); } }
    Type t_{NULLT}; bool b_{false}; int64_t i_{0}; double d_{0}; std::string s_; Array a_; std::shared_ptr<Obj> o_;
};
}  // namespace folly

#pragma once
#include "bms/concrete_type.hpp"
#include "bms/concrete_value.hpp"
#include "bms/value.hpp"
#include "bms/analysis_error.hpp"
#include "bms/evaluation/evaluation_error.hpp"
#include "bms/expression_type.hpp"
#include "common.hpp"
namespace bms = bm::bms;

inline J jtype(bms::Concrete_Type t)
{
    J r = J::arr();
    r.push(J(bms::type_type_name(t.type())));
    if (t.is_uint())
        r.push(J(t.width()));
    return r;
}
inline bms::Concrete_Type untype(const J& j)
{
    const std::string& s = j.a.at(0).s;
    if (s == "Void") return bms::Concrete_Type::Void;
    if (s == "Bool") return bms::Concrete_Type::Bool;
    if (s == "Int") return bms::Concrete_Type::Int;
    return bms::Concrete_Type::Uint(int(j.a.at(1).i));
}
inline J jval(const bms::Concrete_Value& v)
{
    return J::obj().set("t", jtype(v.type)).set("v", big(v.int_value, !v.type.is_uint()));
}
inline bms::Concrete_Value unval(const J& j)
{
    return bms::Concrete_Value { untype(j.at("t")), unbig(j.at("v")) };
}
inline std::string_view error_name(bms::Evaluation_Error_Code c) { return bms::evaluation_error_code_name(c); }
inline std::string_view error_name(bms::Analysis_Error_Code c) { return bms::analysis_error_code_name(c); }
// A possibly unknown value: {"t":…} or {"t":…,"v":…}
inline J jpval(const bms::Value& v)
{
    return v.is_known() ? jval(v.concrete_value()) : J::obj().set("t", jtype(v.get_type()));
}
template <typename R, typename F>
J jresult(const R& r, F f)
{
    if (r)
        return J::obj().set("ok", true).set("v", f(*r));
    return J::obj().set("ok", false).set("e", std::string(error_name(r.error())));
}
#define EXPRESSION_TYPES(X) \
    X(conversion) \
    X(if_expression) \
    X(logical_and) \
    X(logical_or) \
    X(equals) \
    X(not_equals) \
    X(less_than) \
    X(greater_than) \
    X(less_or_equal) \
    X(greater_or_equal) \
    X(binary_plus) \
    X(binary_minus) \
    X(multiplication) \
    X(division) \
    X(remainder) \
    X(shift_left) \
    X(shift_right) \
    X(bitwise_and) \
    X(bitwise_or) \
    X(bitwise_xor) \
    X(unary_plus) \
    X(unary_minus) \
    X(logical_not) \
    X(bitwise_not) \
    X(function_call) \
    X(literal) \
    X(id)

inline bms::Expression_Type unop(std::string_view s)
{
#define X(n) if (s == #n) return bms::Expression_Type::n;
    EXPRESSION_TYPES(X)
#undef X
    throw std::runtime_error("unknown operator " + std::string(s));
}
inline std::string_view opname(bms::Expression_Type t)
{
#define X(n) if (t == bms::Expression_Type::n) return #n;
    EXPRESSION_TYPES(X)
#undef X
    return "?";
}

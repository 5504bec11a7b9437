// Applies the operator functions of the library (the "direct" route).
#include "bms/evaluation/operations.hpp"
#include "values.hpp"

static bms::Value part(const J& j)
{
    return j.find("v") ? bms::Value { unval(j) } : bms::Value::unknown_of_type(untype(j.at("t")));
}
int main(int argc, char** argv)
{
    return job_loop(argc, argv, [](const J& job, J& out) {
        const std::string& k = job.at("k").s;
        if (k == "un") {
            auto op = unop(job.at("op").s);
            auto x = part(job.at("x"));
            out.set("ty", jresult(bms::check_unary_operator(op, x.get_type()), jtype));
            out.set("pr", jresult(bms::evaluate_unary_operator(op, x), jpval));
            if (x) out.set("r", jresult(bms::evaluate_unary_operator(op, x.concrete_value()), jval));
        }
        else if (k == "bin") {
            auto op = unop(job.at("op").s);
            auto x = part(job.at("x")), y = part(job.at("y"));
            out.set("ty", jresult(bms::check_binary_operator(x.get_type(), op, y.get_type()), jtype));
            out.set("pr", jresult(bms::evaluate_binary_operator(x, op, y), jpval));
            if (x && y)
                out.set("r", jresult(bms::evaluate_binary_operator(x.concrete_value(), op, y.concrete_value()), jval));
        }
        else if (k == "if") {
            auto x = part(job.at("x")), c = part(job.at("c")), y = part(job.at("y"));
            out.set("ty", jresult(bms::check_if_expression(x.get_type(), c.get_type(), y.get_type()), jtype));
            out.set("pr", jresult(bms::evaluate_if_expression(x, c, y), jpval));
            if (x && y && c)
                out.set("r", jresult(bms::evaluate_if_expression(x.concrete_value(), c.concrete_value(), y.concrete_value()), jval));
        }
        else if (k == "conv") {
            auto x = part(job.at("x"));
            auto t = untype(job.at("to"));
            out.set("ty", x.get_type().is_convertible_to(t)
                              ? J::obj().set("ok", true).set("v", jtype(t))
                              : J::obj().set("ok", false).set("e", "incompatible_types"));
            out.set("pr", jresult(bms::evaluate_conversion(x, t), jpval));
            if (x) out.set("r", jresult(bms::evaluate_conversion(x.concrete_value(), t), jval));
        }
        else
            throw std::runtime_error("unknown job");
    });
}

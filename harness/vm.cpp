// Drives the virtual machine through its public interface and records the whole operand stack.
#include "bms/evaluation/builtin_function.hpp"
#include "bms/vm/vm.hpp"
#include "values.hpp"

static char keys[64];

static bms::Instruction instruction(const J& j)
{
    const std::string& k = j.at("i").s;
    bms::Debug_Info d { bms::Construct::literal, bm::Source_Position { bm::Source_Span { {}, "f" } } };
    d.pos->begin = bm::Size(j.at("id").i);
    if (k == "push") return bms::ins::Push { { d }, unval(j.at("v")) };
    if (k == "load") return bms::ins::Load { { d }, &keys[j.at("key").i] };
    if (k == "store") return bms::ins::Store { { d }, &keys[j.at("key").i] };
    if (k == "pop") return bms::ins::Pop { { d } };
    if (k == "jump") return bms::ins::Relative_Jump { { d }, bm::Signed_Size(j.at("o").i) };
    if (k == "jump_if") return bms::ins::Relative_Jump_If { { d }, bm::Signed_Size(j.at("o").i), j.at("x").i != 0 };
    if (k == "break") return bms::ins::Break { { d } };
    if (k == "continue") return bms::ins::Continue { { d } };
    if (k == "return") return bms::ins::Return { { d } };
    if (k == "convert") return bms::ins::Convert { { d }, untype(j.at("t")) };
    if (k == "unary") return bms::ins::Unary_Operate { { d }, unop(j.at("op").s) };
    if (k == "binary") return bms::ins::Binary_Operate { { d }, unop(j.at("op").s) };
    if (k == "call") return bms::ins::Call { { d }, bm::Size(j.at("a").i) };
    if (k == "assert") return bms::ins::Builtin_Call { { d }, bms::Builtin_Function::assert };
    throw std::runtime_error("unknown instruction " + k);
}

int main(int argc, char** argv)
{
    return job_loop(argc, argv, [](const J& job, J& out) {
        std::pmr::unsynchronized_pool_resource memory;
        bms::Virtual_Machine vm { &memory };
        J steps = J::arr();
        auto stack = [&] {
            std::vector<bms::Concrete_Value> v;
            while (vm.stack_size()) v.push_back(vm.pop());
            J r = J::arr();
            for (bm::Size k = v.size(); k-- > 0;) { vm.push(v[k]); r.push(jval(v[k])); }
            return r;
        };
        for (const J& a : job.at("acts").a) {
            const std::string& k = a.at("do").s;
            J o = J::obj();
            bool stop = false;
            o.set("r", "ok");
            if (k == "cycle") {
                try {
                    auto r = vm.cycle();
                    if (!r) {
                        const bms::Execution_Error& e = r.error();
                        o.o.clear();
                        o.set("r", "err").set("e", std::string(bms::execution_error_code_name(e.code)));
                        if (e.code == bms::Execution_Error_Code::evaluation) o.set("ev", std::string(bms::evaluation_error_code_name(e.evaluation_error)));
                        o.set("at", e.debug_info.pos ? (long long)e.debug_info.pos->begin : -1LL);
                        if (e.comparison_failure)
                            o.set("cmp", J::arr().push(jval(e.comparison_failure->left)).push(J(std::string(opname(e.comparison_failure->op)))).push(jval(e.comparison_failure->right)));
                    }
                } catch (const std::out_of_range&) {
                    o.o.clear();
                    o.set("r", "end");
                    stop = true;
                }
            }
            else if (k == "push") vm.push(unval(a.at("v")));
            else if (k == "pop") { if (vm.stack_size() == 0) break; o.set("v", jval(vm.pop())); }
            else if (k == "jump") vm.jump_to(bm::Size(a.at("a").i));
            else if (k == "reset") vm.reset();
            else if (k == "clear") vm.clear();
            else if (k == "add") {
                std::vector<bms::Instruction> is;
                for (const J& i : a.at("is").a) is.push_back(instruction(i));
                o.set("a", (long long)vm.add_instructions(is));
            }
            o.set("n", (long long)vm.instruction_count()).set("stack", stack());
            steps.push(o);
            if (stop) break;
        }
        out.set("steps", steps);
    });
}

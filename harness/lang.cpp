// Sends a script through the stages of the compiler and reports what each of them answered.
#include <memory_resource>
#include <sstream>
#include <vector>

#include "bms/analyze.hpp"
#include "bms/analyzed_program.hpp"
#include "bms/ast.hpp"
#include "bms/instantiate.hpp"
#include "bms/parsing/astp.hpp"
#include "bms/parsing/parse.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/token_type.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/tokenization/tokenize_error.hpp"
#include "bms/vm/execution_error.hpp"
#include "common/diagnostics.hpp"
#include "values.hpp"
namespace astp = bms::astp;
namespace ast = bms::ast;

struct Show {
    const bms::Parsed_Program& p;
    std::string out;

    void bytes(std::string_view s)
    {
        out += " #";
        for (unsigned char c : s) out += std::to_string(int(c)) + ".";
    }
    template <typename N> void open(const char* k, const N& n) { out += std::string("(") + k + " " + std::to_string(n.pos.line); }
    void name(std::string_view s) { out += ' '; out += s; }
    void close() { out += ')'; }
    void opt(astp::Handle h)
    {
        if (h == astp::Handle::null) out += " _";
        else node(h);
    }
    void list(astp::Handle h) // annotations
    {
        out += " [";
        if (h != astp::Handle::null)
            for (auto c : bm::get<astp::Annotation_List>(p.get_node(h)).get_children()) node(c);
        out += "]";
    }
    void node(astp::Handle h)
    {
        out += ' ';
        bm::visit([this](const auto& n) { show(n); }, p.get_node(h));
    }
    template <typename N> void all(const N& n) { for (auto c : n.get_children()) opt(c); }
    static std::string_view op(bms::Token_Type t, bool unary)
    {
        std::string_view s = bms::token_type_name(t);
        if (s == "plus") return unary ? "unary_plus" : "binary_plus";
        if (s == "minus") return unary ? "unary_minus" : "binary_minus";
        return s;
    }
    void show(const astp::Program& n) { out += "(program"; all(n); close(); }
    void show(const astp::Function& n)
    {
        open("function", n); name(n.name); list(n.get_annotations());
        out += " [";
        if (n.get_parameters() != astp::Handle::null)
            for (auto c : bm::get<astp::Parameter_List>(p.get_node(n.get_parameters())).get_children()) node(c);
        out += "]";
        opt(n.get_return_type()); opt(n.get_requires_clause()); opt(n.get_body()); close();
    }
    void show(const astp::Parameter_List& n) { out += "(?params"; all(n); close(); }
    void show(const astp::Annotation_List& n) { out += "(?annotations"; all(n); close(); }
    void show(const astp::Parameter& n) { open("param", n); name(n.name); opt(n.get_type()); close(); }
    void show(const astp::Type& n) { open("type", n); name(bms::type_type_name(n.type)); opt(n.get_width()); close(); }
    template <typename N> void var(const char* k, const N& n)
    {
        open(k, n); name(n.name); list(n.get_annotations()); opt(n.get_type()); opt(n.get_initializer()); close();
    }
    void show(const astp::Const& n) { var("const", n); }
    void show(const astp::Let& n) { var("let", n); }
    void show(const astp::Static_Assert& n) { open("sassert", n); opt(n.get_expression()); close(); }
    void show(const astp::Annotation& n) { open("ann", n); name(n.name); all(n); close(); }
    void show(const astp::Annotation_Argument& n)
    {
        open("arg", n); name(n.key.empty() ? std::string_view("-") : n.key);
        name(bms::token_type_name(n.value_type)); bytes(n.value); close();
    }
    void show(const astp::If_Statement& n)
    {
        open("if", n); list(n.get_annotations()); opt(n.get_condition()); opt(n.get_if_block()); opt(n.get_else_block()); close();
    }
    void show(const astp::While_Statement& n)
    {
        open("while", n); list(n.get_annotations()); opt(n.get_condition()); opt(n.get_block()); close();
    }
    void show(const astp::Break& n) { open("break", n); close(); }
    void show(const astp::Continue& n) { open("continue", n); close(); }
    void show(const astp::Return_Statement& n) { open("return", n); opt(n.get_expression()); close(); }
    void show(const astp::Assignment& n) { open("assign", n); name(n.name); list(n.get_annotations()); opt(n.get_expression()); close(); }
    void show(const astp::Block_Statement& n) { open("block", n); all(n); close(); }
    void show(const astp::Conversion_Expression& n) { open("conv", n); opt(n.get_expression()); opt(n.get_target_type()); close(); }
    void show(const astp::If_Expression& n) { open("ife", n); opt(n.get_left()); opt(n.get_condition()); opt(n.get_right()); close(); }
    void show(const astp::Binary_Expression& n) { open("bin", n); name(op(n.op, false)); opt(n.get_left()); opt(n.get_right()); close(); }
    void show(const astp::Prefix_Expression& n) { open("un", n); name(op(n.op, true)); opt(n.get_expression()); close(); }
    void show(const astp::Function_Call_Expression& n)
    {
        open(n.is_statement ? "callst" : "call", n); name(n.function); list(n.get_annotations());
        for (auto c : n.get_arguments()) opt(c);
        close();
    }
    void show(const astp::Id_Expression& n) { open("id", n); name(n.identifier); close(); }
    void show(const astp::Literal& n)
    {
        if (n.type == bms::Token_Type::keyword_true || n.type == bms::Token_Type::keyword_false) {
            open("bool", n); name(n.type == bms::Token_Type::keyword_true ? "true" : "false"); close();
        }
        else { open("int", n); bytes(n.literal); close(); }
    }
};

static J line_of(const std::optional<bm::Source_Position>& p) { return p ? J((long long)p->line) : J(-1); }

static J analysis_error(const bms::Analysis_Error& e)
{
    J r = J::obj();
    r.set("code", std::string(bms::analysis_error_code_name(e.code())));
    std::string sub;
    if (e.code() == bms::Analysis_Error_Code::evaluation_error)
        sub = bms::evaluation_error_code_name(e.evaluation_error());
    if (e.code() == bms::Analysis_Error_Code::execution_error)
        sub = bms::execution_error_code_name(e.execution_error());
    r.set("sub", sub);
    r.set("fl", line_of(e.fail_pos()));
    r.set("cl", e.cause() ? line_of(e.cause_pos()) : J(-2));
    if (auto c = e.comparison_failure())
        r.set("cmp", J::arr().push(jval(c->left)).push(J(std::string(opname(c->op)))).push(jval(c->right)));
    return r;
}

static J constants(const bms::Analyzed_Program& a)
{
    J cs = J::arr();
    for (const ast::Some_Node* h : bm::get<ast::Program>(*a.get_root()).get_children())
        if (const auto* n = bm::get_if<ast::Const>(h))
            cs.push(J::obj().set("n", std::string(n->get_name()))
                        .set("v", n->const_value() ? jpval(*n->const_value()) : J()));
    return cs;
}
static J instances(const bms::Analyzed_Program& a)
{
    J is = J::arr();
    for (const ast::Some_Node* h : bm::get<ast::Program>(*a.get_root()).get_children())
        if (const auto* n = bm::get_if<ast::Function>(h)) {
            J ws = J::arr();
            for (const auto& i : n->instances) {
                J w = J::arr();
                for (int x : i.widths) w.push(J(x));
                ws.push(w);
            }
            is.push(J::obj().set("n", std::string(n->get_name())).set("g", n->is_generic).set("w", ws));
        }
    return is;
}

// job: text; want: any of "t" (tokens), "p" (tree), "a" (analysis); stop: last stage to run
int main(int argc, char** argv)
{
    return job_loop(argc, argv, [](const J& job, J& out) {
        const std::string text = job.at("text").text();
        const std::string want = job.at("want").s;
        auto wants = [&](char c) { return want.find(c) != want.npos; };
        const std::string name = job.find("name") ? job.at("name").text() : "f.bms";
        // the diagnostic as it is printed, without colors
        auto printed = [&](auto&& print) {
            if (!wants('d')) return;
            std::ostringstream o;
            print(o, job.at("colors").i != 0);
            out.set("diag", J::bytes(without_colors(o.str())));
        };
        std::pmr::unsynchronized_pool_resource memory;
        std::pmr::vector<bms::Token> tokens(&memory);
        if (auto r = bms::tokenize(tokens, text); !r) {
            out.set("stage", "lex").set("e", std::string(name_of(r.error().code)));
            out.set("b", (long long)r.error().pos.begin).set("l", (long long)r.error().pos.line).set("c", (long long)r.error().pos.column);
            printed([&](std::ostream& o, bool c) { bm::print_tokenize_error(o, name, text, r.error(), c); });
            return;
        }
        if (wants('t')) {
            J ts = J::arr();
            for (const auto& t : tokens)
                ts.push(J::obj().set("t", std::string(bms::token_type_name(t.type))).set("b", (long long)t.pos.begin)
                            .set("n", (long long)t.pos.length).set("l", (long long)t.pos.line).set("c", (long long)t.pos.column));
            out.set("toks", ts);
        }
        if (!wants('p') && !wants('a')) { out.set("stage", "ok"); return; }
        bms::Parsed_Program parsed { text, &memory };
        if (auto r = bms::parse(parsed, tokens); !r) {
            const auto& t = r.error().fail_token;
            out.set("stage", "parse").set("b", (long long)t.pos.begin).set("l", (long long)t.pos.line).set("n", (long long)t.pos.length);
            printed([&](std::ostream& o, bool c) { bm::print_parse_error(o, name, text, r.error(), c); });
            return;
        }
        if (wants('p')) {
            Show s { parsed, {} };
            bm::visit([&](const auto& n) { s.show(n); }, parsed.get_node(parsed.get_root_handle()));
            out.set("tree", s.out);
        }
        if (!wants('a')) { out.set("stage", "ok"); return; }
        bms::Analyzed_Program a { parsed, name, &memory };
        if (auto r = bms::analyze(a, parsed, &memory); !r) {
            out.set("stage", "analysis").set("err", analysis_error(r.error()));
            printed([&](std::ostream& o, bool c) { bm::print_analysis_error(o, parsed, r.error(), c); });
            return;
        }
        out.set("stage", "ok").set("consts", constants(a)).set("inst", instances(a));
        if (const J* w = job.find("width")) { // instantiate everything for this width
            auto r = bms::instantiate_all(a, &memory, int(w->i));
            if (!r) out.set("all", J::obj().set("ok", false).set("err", analysis_error(r.error())));
            else out.set("all", J::obj().set("ok", true).set("inst", instances(a)));
        }
    });
}

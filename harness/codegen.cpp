// Generates code from a script: the text, its spans, or why there is none.
#include <memory_resource>
#include <vector>

#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/codegen/codegen.hpp"
#include "bms/analyze.hpp"
#include "bms/analyzed_program.hpp"
#include "bms/parsing/astp.hpp"
#include "bms/parsing/parse.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/tokenization/tokenize_error.hpp"
#include "common.hpp"
namespace bmd = bm::bmd;
namespace bms = bm::bms;

// job: text; lang: bms, c or cpp; char, size, fn, iff, paren, c23, bitint: the options
int main(int argc, char** argv)
{
    return job_loop(argc, argv, [](const J& job, J& out) {
        const std::string text = job.at("text").text();
        const std::string lang = job.at("lang").s;
        std::pmr::unsynchronized_pool_resource memory;
        std::pmr::vector<bms::Token> tokens(&memory);
        if (!bms::tokenize(tokens, text)) { out.set("stage", "lex"); return; }
        bms::Parsed_Program parsed { text, &memory };
        if (!bms::parse(parsed, tokens)) { out.set("stage", "parse"); return; }
        bms::Analyzed_Program a { parsed, "f.bms", &memory };
        if (!bms::analyze(a, parsed, &memory)) { out.set("stage", "analysis"); return; }
        bmd::Code_Options o;
        o.indent_char = char(job.at("char").i);
        o.indent_size = bm::Size(job.at("size").i);
        o.break_after_function = job.at("fn").i != 0;
        o.break_after_if = job.at("iff").i != 0;
        o.always_parenthesize_subexpressions = job.at("paren").i != 0;
        o.c_23 = job.at("c23").i != 0;
        o.c_prefer_bitint = job.at("bitint").i != 0;
        bmd::Code_String code { &memory };
        auto l = lang == "c" ? bmd::Code_Language::c : lang == "cpp" ? bmd::Code_Language::cpp : bmd::Code_Language::bms;
        auto r = bmd::generate_code(code, a, l, o);
        if (!r) {
            using enum bmd::Generator_Error_Code;
            out.set("stage", r.error().code == empty ? "empty" : r.error().code == unsupported_integer_width ? "width" : "error");
            return;
        }
        J spans = J::arr();
        for (bmd::Code_String_Span s : code)
            spans.push(J::arr().push(J((long long)s.begin)).push(J((long long)s.length)));
        out.set("stage", "ok").set("text", J::bytes(code.get_text())).set("spans", spans);
    });
}

// Parses and renders markup documents, and highlights scripts.
#include <algorithm>
#include <memory_resource>
#include <sstream>

#include "bmd/directive_type.hpp"
#include "bmd/html/bms_to_html.hpp"
#include "bmd/html/doc_to_html.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/html/token_consumer.hpp"
#include "bmd/parsing/ast.hpp"
#include "bmd/parsing/parse.hpp"
#include "common.hpp"
#include "common/diagnostics.hpp"
#include "common/source_position.hpp"

namespace bmd = bit_manipulation::bmd;

struct Bytes final : bmd::HTML_Token_Consumer {
    std::string s;
    bool write(char c, bmd::HTML_Token_Type) override { s += c; return true; }
    bool write(char c, bm::Size n, bmd::HTML_Token_Type) override { s.append(n, c); return true; }
    bool write(std::string_view t, bmd::HTML_Token_Type) override { s += t; return true; }
};

#define N(x) case x: return #x
static const char* name(bmd::Parse_Error_Code c)
{
    using enum bmd::Parse_Error_Code;
    switch (c) {
        N(unexpected_character); N(unterminated_comment); N(invalid_integer_literal); N(unexpected_eof);
        N(duplicate_argument); N(integer_suffix); N(invalid_directive); N(directive_must_be_empty);
        N(paragraph_break_in_span); N(directive_in_text_span); N(text_in_directive_list); N(directive_not_allowed);
    }
    return "?";
}
static const char* name(bmd::Document_Error_Code c)
{
    using enum bmd::Document_Error_Code;
    switch (c) {
        N(directive_not_allowed); N(meta_not_at_start_of_file); N(writer_misuse); N(duplicate_meta_entry);
        N(invalid_language); N(invalid_architecture); N(number_attribute_not_allowed); N(code_tokenization_failure);
    }
    return "?";
}
static const char* name(bmd::Directive_Type t)
{
    using enum bmd::Directive_Type;
    switch (t) {
        N(bold); N(line_break); N(deleted); N(heading1); N(heading2); N(heading3); N(heading4); N(heading5); N(heading6);
        N(horizontal_rule); N(italic); N(keyboard); N(ordered_list); N(quoted); N(strikethrough); N(subscript);
        N(superscript); N(teletype); N(underlined); N(unordered_list); N(code); N(code_block); N(instruction); N(item);
        N(note); N(meta); N(title); N(bms_function); N(c_equivalent);
    }
    return "?";
}
static const char* name(bm::Literal_Type t)
{
    switch (t) {
    case bm::Literal_Type::binary: return "binary_literal";
    case bm::Literal_Type::octal: return "octal_literal";
    case bm::Literal_Type::decimal: return "decimal_literal";
    case bm::Literal_Type::hexadecimal: return "hexadecimal_literal";
    }
    return "?";
}

static void bytes(J& out, std::string_view t)
{
    out.push(J(int(t.size())));
    for (unsigned char c : t)
        out.push(J(int(c)));
}
static void pos(J& out, const bm::Local_Source_Span& s)
{
    out.push(J(s.begin)).push(J(s.length)).push(J(s.line)).push(J(s.column));
}
// the tree as numbers; see Nums in Doc.tla
static void dump(J& out, const bmd::ast::Some_Node* n)
{
    if (n == nullptr) {
        out.push(0);
    }
    else if (auto* t = get_if<bmd::ast::Text>(n)) {
        out.push(1);
        pos(out, t->get_source_position());
        bytes(out, t->get_text());
    }
    else if (auto* l = get_if<bmd::ast::List>(n)) {
        out.push(3).push(J(int(l->get_children().size())));
        for (auto* c : l->get_children())
            dump(out, c);
    }
    else if (auto* d = get_if<bmd::ast::Directive>(n)) {
        out.push(2);
        pos(out, d->get_source_position());
        bytes(out, name(d->get_type()));
        bytes(out, d->get_identifier());
        std::vector<std::pair<std::string_view, bmd::ast::Value>> args(d->m_arguments.begin(), d->m_arguments.end());
        std::sort(args.begin(), args.end(), [](auto& a, auto& b) {
            return get_source_span(a.second).begin < get_source_span(b.second).begin;
        });
        out.push(J(int(args.size())));
        for (auto& [key, v] : args) {
            bytes(out, key);
            if (auto* i = get_if<bmd::ast::Number>(&v)) {
                bytes(out, name(i->get_type()));
                bytes(out, std::to_string(i->get_value()));
            }
            else {
                bytes(out, "identifier");
                bytes(out, get<bmd::ast::Identifier>(v).get_value());
            }
        }
        dump(out, d->get_block());
    }
}
static void failure(J& out, const char* stage, const char* e, const bm::Local_Source_Position& p)
{
    out.set("stage", stage).set("e", e).set("b", p.begin).set("l", p.line).set("c", p.column);
}

int main(int argc, char** argv)
{
    return job_loop(argc, argv, [](const J& job, J& out) {
        const std::string text = job.at("text").text();
        const std::string& want = job.at("want").s;
        std::pmr::monotonic_buffer_resource memory;
        Bytes sink;
        if (want == "code") {
            bmd::HTML_Writer w { sink, 2 };
            w.write_preamble();
            const bmd::Tag_Properties tag { "x", bmd::Formatting_Style::pre };
            w.begin_tag(tag);
            const std::size_t before = sink.s.size();
            auto r = bmd::bms_inline_code_to_html(w, text, &memory);
            out.set("html", J::bytes(std::string_view(sink.s).substr(before)));
            out.set("verdict", r ? "ok" : r.error().is_tokenize_error() ? "lex" : "parse");
            w.end_tag(tag);
            return;
        }
        auto printed = [&](auto&& print) { // the diagnostic as it is printed, without colors
            if (!job.find("file")) return;
            std::ostringstream o;
            print(o, job.at("file").text(), job.at("colors").i != 0);
            out.set("diag", J::bytes(without_colors(o.str())));
        };
        bm::Result<bmd::Parsed_Document, bmd::Parse_Error> p = bmd::parse(text, &memory);
        if (!p) {
            printed([&](std::ostream& o, std::string_view f, bool c) { bm::print_parse_error(o, f, text, p.error(), c); });
            return failure(out, "parse", name(p.error().code), p.error().pos);
        }
        J tree = J::arr();
        dump(tree, p->root_node);
        if (want == "tree") {
            out.set("stage", "ok").set("tree", std::move(tree));
            return;
        }
        std::vector<std::string> sheets;
        for (auto& s : job.at("sheets").a)
            sheets.push_back(s.text());
        std::vector<std::string_view> views(sheets.begin(), sheets.end());
        const bmd::Document_Options options { bm::Size(job.at("width").i), views };
        auto r = bmd::doc_to_html(sink, *p, options, &memory);
        if (!r) {
            printed([&](std::ostream& o, std::string_view f, bool c) { bm::print_document_error(o, f, text, r.error(), c); });
            failure(out, "render", name(r.error().code), r.error().pos);
        }
        else
            out.set("stage", "ok").set("html", J::bytes(sink.s));
        out.set("tree", std::move(tree));
    });
}

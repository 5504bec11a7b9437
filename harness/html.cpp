// Drives the HTML writer through its public interface and records what every operation writes.
#include <new>

#include "bmd/html/html_writer.hpp"
#include "bmd/html/token_consumer.hpp"
#include "common/source_position.hpp"
#include "common.hpp"

namespace bmd = bit_manipulation::bmd;

struct Bytes final : bmd::HTML_Token_Consumer {
    std::string s;
    bool write(char c, bmd::HTML_Token_Type) override { s += c; return true; }
    bool write(char c, bm::Size n, bmd::HTML_Token_Type) override
    {
        if (n > 100000) throw std::runtime_error("an enormous gap");
        s.append(n, c);
        return true;
    }
    bool write(std::string_view t, bmd::HTML_Token_Type) override { s += t; return true; }
};

static bmd::Formatting_Style style(const J& o)
{
    const std::string& s = o.at("st").s;
    using enum bmd::Formatting_Style;
    return s == "pre" ? pre : s == "in_line" ? in_line : s == "flat" ? flat : block;
}
static bm::Local_Source_Span span(const J& j)
{
    return { { bm::Size(j.at("l").i), bm::Size(j.at("c").i), bm::Size(j.at("b").i) }, bm::Size(j.at("n").i) };
}

int main(int argc, char** argv)
{
    return job_loop(argc, argv, [](const J& job, J& out) {
        Bytes sink;
        bmd::HTML_Writer w { sink, bm::Size(job.at("width").i) };
        // never destroyed by itself: its destructor may refuse
        alignas(bmd::Attribute_Writer) unsigned char room[sizeof(bmd::Attribute_Writer)];
        auto* a = new (room) bmd::Attribute_Writer(w, bmd::Formatting_Style::pre);
        J steps = J::arr();
        for (const J& o : job.at("ops").a) {
            const std::string& k = o.at("o").s;
            const std::string id = o.find("id") ? o.at("id").text() : "";
            const std::string t = o.find("t") ? o.at("t").text() : "";
            const std::size_t before = sink.s.size();
            bool ok = true;
            bm::Size ret = 0;
            try {
                if (k == "preamble") w.write_preamble();
                else if (k == "empty") w.write_empty_tag({ id, style(o) });
                else if (k == "comment") w.write_comment_tag(t, style(o));
                else if (k == "begin") w.begin_tag({ id, style(o) });
                else if (k == "beginattr") a = new (room) bmd::Attribute_Writer(w.begin_tag_with_attributes({ id, style(o) }));
                else if (k == "attr") a->write_attribute(id, t);
                else if (k == "endattr") a->end();
                else if (k == "endempty") a->end_empty();
                else if (k == "drop") a->~Attribute_Writer();
                else if (k == "end") w.end_tag({ id, style(o) });
                else if (k == "text") ret = w.write_inner_text(t, style(o));
                else if (k == "white") w.write_whitespace(char(o.at("c").i), bm::Size(o.at("n").i));
                else if (k == "gap") w.write_source_gap(span(o.at("f")), span(o.at("g")), style(o));
                else throw std::runtime_error("unknown operation " + k);
            } catch (const bm::Assertion_Error&) {
                ok = false;
            }
            steps.push(J::obj().set("ok", ok).set("out", J::bytes(std::string_view(sink.s).substr(before)))
                           .set("ret", ret).set("done", w.is_done()));
        }
        out.set("steps", std::move(steps));
    });
}

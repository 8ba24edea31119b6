// C16: parsing an XML stream yields the complete document or an exception.
#include "driver.h"

#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <expat.h>
#include <iostream>
#include <memory>
#include <regex>
#include <set>
#include <sstream>
#include <streambuf>
#include <thread>

#include "fern/core/exception.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/syntax_tree-pskel.hxx"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/io/uncertml2/uncertml2_parser.h"
#include "fern/language/operation/core/operations.h"
#include "fern/language/operation/xml/operation_xml_parser.h"
#include "fern/language/uncertainty/normal_distribution.h"

using namespace sim;
namespace fl = fern::language;

namespace fern { namespace language {
// The friend of the parser: reaches the stream interface.
class XmlParserTest {
public:
    static std::shared_ptr<ModuleVertex> parse(XmlParser const& p, std::istream& s) { return p.parse(s); }
};
}}

struct Quiet {
    Quiet() { ignore_begin(); }
    ~Quiet() { ignore_end(); }
    NoAllocFaults no;
};

// ---- libexpat's memory ----------------------------------------------------------------
static thread_local bool expat_faults = false;
static long expat_blocks = 0;
static bool expat_fails() {
    if(!expat_faults) return false;
    if(!fault(F_ALLOC)) return false;
    probe("allocation of the XML library failed");
    return true;
}
// Blocks are linked: those that stay are freed at the end of a run.
struct alignas(16) Block { Block* next; Block* prev; };
static Block all_blocks;
static void link_block(Block* b) { b->next = all_blocks.next; b->prev = &all_blocks; b->next->prev = b; all_blocks.next = b; ++expat_blocks; }
static void unlink_block(Block* b) { b->next->prev = b->prev; b->prev->next = b->next; --expat_blocks; }
static void* expat_malloc(size_t n) {
    Quiet q;
    if(expat_fails()) return nullptr;
    auto* b = static_cast<Block*>(std::malloc(n + sizeof(Block)));
    if(!b) return nullptr;
    link_block(b);
    memset(b + 1, 0xA5, n);
    return b + 1;
}
static void expat_free(void* p) {
    if(!p) return;
    Quiet q;
    unlink_block(static_cast<Block*>(p) - 1);
    std::free(static_cast<Block*>(p) - 1);
}
static void* expat_realloc(void* p, size_t n) {
    if(!p) return expat_malloc(n);
    Quiet q;
    if(expat_fails()) return nullptr;
    Block* b = static_cast<Block*>(p) - 1;
    unlink_block(b);
    auto* r = static_cast<Block*>(std::realloc(b, n + sizeof(Block)));
    link_block(r);
    return r + 1;
}
static void drop_blocks() {
    while(all_blocks.next != &all_blocks) { Block* b = all_blocks.next; unlink_block(b); std::free(b); }
}
extern "C" XML_Parser XML_ParserCreateNS(XML_Char const* encoding, XML_Char separator) {
    static XML_Memory_Handling_Suite const suite = {expat_malloc, expat_realloc, expat_free};
    XML_Char const s[2] = {separator, 0};
    XML_Parser p = XML_ParserCreate_MM(encoding, &suite, s);
    if(p) XML_SetHashSalt(p, 0x1234567);
    return p;
}

// ---- documents ----------------------------------------------------------------------------
struct Node {
    std::string name;                                            // "uri name" when qualified.
    std::vector<std::pair<std::string, std::string>> attributes;
    std::vector<Node> kids;
    std::string text;
};
enum Lang { TREE, UNCERT, OPERATIONS, NR_LANGS };
static char const* const lang_name[] = {"syntax tree", "uncertainty", "operations"};

static Node leaf(std::string const& name, std::string const& text) { Node n; n.name = name; n.text = text; return n; }
static Node inner(std::string const& name, std::vector<Node> kids = {}) { Node n; n.name = name; n.kids = std::move(kids); return n; }

struct Generator {
    Rng& r;
    int budget;
    std::string text() {
        static char const* const some[] = {"a", "clump", "<", "&", ">", "]]>", "\"", "'", " ", "  x  ", "\n", "\t", "é", "ü", "€", "\xF0\x9F\x98\x80", "slope(dem)", "a.b", "--", "?>", "0", "\xC2\x85", "\xE2\x80\xA8"};
        std::string s;
        int64_t n = r.chance(0.1) ? 0 : r.chance(0.03) ? r.range(50, 400) : r.range(1, 4);
        while(n-- > 0) s += some[r.chance(0.5) ? r.below(2) : r.below(sizeof some / sizeof *some)];
        return s;
    }
    std::string positive() { return std::to_string(r.chance(0.1) ? r.range(0, INT_MAX) : r.range(0, 2000)); }
    std::string spaced(std::string const& s) {
        static char const* const w[] = {"", "", "", " ", "\n", "\t ", "\r\n  "};
        return w[r.below(7)] + s + w[r.below(7)];
    }
    std::string real() {
        char b[64];
        switch(r.below(9)) {
            case 0: return "INF";
            case 1: return "-INF";
            case 2: return "NaN";
            case 3: return std::to_string(r.range(-1000, 1000));
            case 4: snprintf(b, sizeof b, "%.17g", std::ldexp(r.real() - 0.5, int(r.range(-100, 100)))); return b;
            case 5: snprintf(b, sizeof b, "%.20f", r.real()); return b;
            case 6: snprintf(b, sizeof b, "%.17E", std::ldexp(r.real(), int(r.range(-1000, 1000)))); return b;
            case 7: return r.chance(0.5) ? "-0" : ".5";
            default: snprintf(b, sizeof b, "%g", r.real() * 100); return b;
        }
    }
    Node number() {
        static int const sizes[] = {8, 16, 32, 64};
        int const size = sizes[r.below(4)];
        if(r.chance(0.4)) {
            int const bits = size > 32 ? 32 : size;
            int64_t const hi = (int64_t(1) << (bits - 1)) - 1, lo = -hi - 1;
            int64_t const v = r.chance(0.2) ? (r.chance(0.5) ? hi : lo) : r.chance(0.5) ? r.range(-3, 3) : r.range(lo, hi);
            return inner("Number", {inner("Integer", {leaf("Size", spaced(std::to_string(size))), leaf("Value", spaced((v >= 0 && r.chance(0.1) ? "+" : "") + std::to_string(v)))})});
        }
        if(r.chance(0.5)) {
            uint64_t const hi = size == 64 ? ~uint64_t(0) : (uint64_t(1) << size) - 1;
            uint64_t const v = r.chance(0.2) ? hi : r.chance(0.5) ? r.below(4) : hi == ~uint64_t(0) ? r.next() : r.below(hi + 1);
            return inner("Number", {inner("UnsignedInteger", {leaf("Size", spaced(std::to_string(size))), leaf("Value", spaced(std::to_string(v)))})});
        }
        std::string v = real();
        bool const small = r.chance(0.5) && !(std::fabs(strtod(v.c_str(), nullptr)) > FLT_MAX && v.find("INF") == v.npos);
        return inner("Number", {inner("Float", {leaf("Size", spaced(small ? "32" : "64")), leaf("Value", spaced(v))})});
    }
    Node expressions(int depth, int64_t n) {
        Node e = inner("Expressions");
        while(n-- > 0) e.kids.push_back(expression(depth));
        return e;
    }
    Node expression(int depth) {
        Node e = inner("Expression");
        e.attributes = {{"line", positive()}, {"col", positive()}};
        if(r.chance(0.2)) std::swap(e.attributes[0], e.attributes[1]);
        --budget;
        int const k = depth <= 0 || budget <= 0 ? int(r.below(3)) : int(r.below(7));
        switch(k) {
            case 0: e.kids = {leaf("Name", text())}; break;
            case 1: e.kids = {leaf("String", text())}; break;
            case 2: e.kids = {number()}; break;
            case 3: e.kids = {inner("FunctionCall", {leaf("Name", text()), expressions(depth - 1, r.range(0, 3))})}; break;
            case 4: {
                static char const* const one[] = {"Invert", "Not", "UnaryAdd", "UnarySub"};
                static char const* const two[] = {"add", "Sub", "Mult", "Div", "Mod", "Pow", "LShift", "RShift", "BitOr", "BitXor", "BitAnd", "FloorDiv", "And", "Or", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"};
                bool const unary = r.chance(0.4);
                e.kids = {inner("Operator", {leaf("Name", unary ? one[r.below(4)] : two[r.below(20)]), expressions(depth - 1, unary ? 1 : 2)})};
                break;
            }
            case 5: { Node a = expression(depth - 1), b = expression(depth - 1); e.kids = {inner("Subscript", {a, b})}; break; }
            default: e.kids = {inner("Attribute", {expression(depth - 1), leaf("Name", text())})}; break;
        }
        return e;
    }
    Node statements(int depth, int64_t n) {
        Node s = inner("Statements");
        while(n-- > 0) s.kids.push_back(statement(depth));
        return s;
    }
    Node statement(int depth) {
        Node s = inner("Statement");
        s.attributes = {{"line", positive()}, {"col", positive()}};
        --budget;
        int const k = depth <= 0 || budget <= 0 ? int(r.below(2)) : int(r.below(6));
        int const d = depth - 1;
        switch(k) {
            case 0: s.kids = {expression(d)}; break;
            case 1: { Node a = expression(d), b = expression(d); s.kids = {inner("Assignment", {a, b})}; break; }
            case 2: case 3: {
                Node c = expression(d), t = statements(d, r.range(1, 3)), f = statements(d, r.range(0, 2));
                s.kids = {inner(k == 2 ? "If" : "While", {c, t, f})};
                break;
            }
            case 4: { Node a = expressions(d, r.range(0, 3)), b = statements(d, r.range(1, 3)); s.kids = {inner("FunctionDefinition", {leaf("Name", text()), a, b})}; break; }
            default: s.kids = {inner("Return")}; if(r.chance(0.7)) s.kids[0].kids = {expression(d)}; break;
        }
        return s;
    }
    Node document(Lang l) {
        if(l == TREE) {
            // The stack of XSD's run-time library overruns its memory when an
            // element occurs inside itself more than eight times.
            bool const deep = r.chance(0.05);
            Node n = inner("Fern", {statements(deep ? 7 : int(r.range(0, 6)), deep ? 1 : r.range(0, 4))});
            n.attributes = {{"source", text()}};
            return n;
        }
        if(l == UNCERT) {
            std::string const u = "http://www.uncertml.org/2.0 ";
            std::string v;
            do v = real(); while(!(strtod(v.c_str(), nullptr) > 0));
            Node n = inner(u + "NormalDistribution", {leaf(u + "mean", spaced(real())), leaf(u + "variance", spaced(v))});
            for(auto& k : n.kids) {
                if(r.chance(0.1)) k.attributes.push_back({"href", "http://example.org/x"});
                if(r.chance(0.1)) k.attributes.push_back({"mimeType", text()});
            }
            return n;
        }
        Node n = inner("Operations");
        if(r.chance(0.6)) {
            Node ps = inner("Parameters"), rs = inner("Results");
            for(int64_t i = r.range(0, 3); i > 0; --i)
                ps.kids.push_back(inner("Parameter", {leaf("Name", text()), leaf("Description", text()), inner("DataTypes", {leaf("DataType", "All")}), inner("ValueTypes", {leaf("ValueType", "Number")})}));
            for(int64_t i = r.range(0, 2); i > 0; --i)
                rs.kids.push_back(inner("Result", {leaf("Name", text()), leaf("Description", text()), leaf("DataType", "All"), leaf("ValueType", "Number")}));
            n.kids = {inner("Operation", {leaf("Name", text()), leaf("Description", text()), ps, rs})};
        }
        return n;
    }
    // Break a rule of the schema, or not quite.
    void spoil(Node& root) {
        std::vector<Node*> all;
        std::function<void(Node&)> walk = [&](Node& n) { all.push_back(&n); for(auto& k : n.kids) walk(k); };
        walk(root);
        Node& n = *all[r.below(all.size())];
        switch(r.below(10)) {
            case 0: if(!n.kids.empty()) n.kids.erase(n.kids.begin() + long(r.below(n.kids.size()))); break;
            case 1: if(!n.kids.empty()) { Node k = n.kids[r.below(n.kids.size())]; n.kids.push_back(k); } break;
            case 2: if(n.kids.size() > 1) std::swap(n.kids[0], n.kids[1 + r.below(n.kids.size() - 1)]); break;
            case 3: n.name = all[r.below(all.size())]->name; break;
            case 4: if(n.kids.empty()) n.text = r.chance(0.5) ? text() : real(); break;
            case 5: if(!n.attributes.empty()) n.attributes.pop_back(); break;
            case 6: n.attributes.push_back({"colour", "red"}); break;
            case 7: if(!n.attributes.empty()) n.attributes[0].second = text(); break;
            case 8: for(auto* m : all) if(m->kids.empty() && (m->name == "Size" || m->name == "Value") && r.chance(0.5)) { m->text = r.chance(0.5) ? std::to_string(r.range(-70000, 5000000000)) : std::to_string(1 << r.below(8)); break; } break;
            default: n.kids.clear(); break;
        }
    }
};

// ---- writing --------------------------------------------------------------------------------
enum Encoding { UTF8, UTF8_BOM, LATIN1, ASCII, UTF16LE, UTF16BE, NR_ENCODINGS };
struct Writer {
    Rng& r;
    Encoding enc = UTF8;
    int layout = 0;          // 0 none, 1 newlines, 2 random
    double p_comment = 0, p_cdata = 0, p_charref = 0;
    bool entity = false;
    std::string prefix;      // Of namespace-qualified elements.
    std::string out;         // UTF-8.

    static std::vector<uint32_t> code_points(std::string const& s) {
        std::vector<uint32_t> v;
        for(size_t i = 0; i < s.size();) {
            unsigned char const c = static_cast<unsigned char>(s[i]);
            int const n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
            uint32_t u = n == 1 ? c : c & (0xFF >> (n + 1));
            for(int k = 1; k < n; ++k) u = u << 6 | (static_cast<unsigned char>(s[i + size_t(k)]) & 0x3F);
            v.push_back(u); i += size_t(n);
        }
        return v;
    }
    static void put_utf8(std::string& o, uint32_t u) {
        if(u < 0x80) o += char(u);
        else if(u < 0x800) { o += char(0xC0 | u >> 6); o += char(0x80 | (u & 63)); }
        else if(u < 0x10000) { o += char(0xE0 | u >> 12); o += char(0x80 | (u >> 6 & 63)); o += char(0x80 | (u & 63)); }
        else { o += char(0xF0 | u >> 18); o += char(0x80 | (u >> 12 & 63)); o += char(0x80 | (u >> 6 & 63)); o += char(0x80 | (u & 63)); }
    }
    void reference(uint32_t u) {
        char b[16];
        snprintf(b, sizeof b, r.chance(0.5) ? "&#%u;" : "&#x%X;", u);
        out += b;
    }
    bool fits(uint32_t u) const { return enc == LATIN1 ? u < 0x100 : enc == ASCII ? u < 0x80 : true; }
    void space() {
        static char const* const w[] = {"", " ", "\n", "\r\n", "\t", "  "};
        if(layout == 1) out += "\n";
        if(layout == 2) out += w[r.below(6)];
        if(r.chance(p_comment)) misc();
    }
    void misc() { out += r.chance(0.7) ? "<!-- & <Fern> ]]> \"-->" : "<?pi <Statement/>?>"; }
    void text(std::string const& s) {
        auto const v = code_points(s);
        for(size_t i = 0; i < v.size(); ++i) {
            uint32_t const u = v[i];
            if(entity && u == 'a' && r.chance(0.3)) { out += "&letter;"; continue; }
            if(r.chance(p_comment) && p_comment > 0) misc();
            if(r.chance(p_cdata) && fits(u) && u != ']' && u != '>' && u != '\r') {
                out += "<![CDATA["; put_utf8(out, u);
                while(i + 1 < v.size() && r.chance(0.7) && fits(v[i + 1]) && v[i + 1] != ']' && v[i + 1] != '>' && v[i + 1] != '\r') put_utf8(out, v[++i]);
                out += "]]>";
                continue;
            }
            character(u);
        }
        if(r.chance(p_comment)) misc();
    }
    void character(uint32_t u, char quote = 0) {
        if(u == '<') out += "&lt;";
        else if(u == '&') out += "&amp;";
        else if(u == '>') out += "&gt;";
        else if(quote && u == uint32_t(quote)) out += quote == '"' ? "&quot;" : "&apos;";
        else if(u == '\r' || (quote && (u == '\n' || u == '\t')) || !fits(u) || r.chance(p_charref)) reference(u);
        else put_utf8(out, u);
    }
    void element(Node const& n, bool root) {
        std::string const tag = n.name.find(' ') == n.name.npos ? n.name : prefix + n.name.substr(n.name.find(' ') + 1);
        out += "<" + tag;
        std::string space_in_tag = r.chance(0.05) ? "\n " : " ";
        if(root && n.name.find(' ') != n.name.npos) {
            std::string const uri = n.name.substr(0, n.name.find(' '));
            out += space_in_tag + (prefix.empty() ? "xmlns" : "xmlns:" + prefix.substr(0, prefix.size() - 1)) + "=\"" + uri + "\"";
        }
        for(auto const& a : n.attributes) {
            char const quote = r.chance(0.8) ? '"' : '\'';
            out += space_in_tag + a.first + "=" + quote;
            for(uint32_t u : code_points(a.second)) character(u, quote);
            out += quote;
        }
        if(n.kids.empty() && n.text.empty() && r.chance(0.6)) { out += r.chance(0.2) ? " />" : "/>"; return; }
        out += ">";
        if(n.kids.empty()) {
            bool const only_space_matters_not = n.text.empty() && (n.name == "Statements" || n.name == "Expressions" || n.name == "Return" || n.name == "Operations");
            if(only_space_matters_not) space(); else text(n.text);
        }
        else for(auto const& k : n.kids) { space(); element(k, false); }
        if(!n.kids.empty()) space();
        out += "</" + tag + (r.chance(0.05) ? " >" : ">");
    }
    std::string document(Node const& n, size_t padding) {
        static char const* const names[] = {"UTF-8", "UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16", "UTF-16"};
        out.clear();
        bool const declare = enc == LATIN1 || enc == ASCII || r.chance(0.6);
        if(declare) {
            out += "<?xml version=\"1.0\"";
            if(enc != UTF8 || r.chance(0.5)) out += std::string(" encoding=\"") + names[enc] + "\"";
            if(r.chance(0.2)) out += " standalone=\"yes\"";
            out += "?>";
        }
        if(r.chance(0.2)) space();
        if(padding) out += "<!--" + std::string(padding, 'x') + "-->";
        if(entity) {
            std::string const tag = n.name.find(' ') == n.name.npos ? n.name : prefix + n.name.substr(n.name.find(' ') + 1);
            out += "<!DOCTYPE " + tag + " [<!ENTITY letter \"a\">]>";
        }
        element(n, true);
        if(r.chance(0.3)) { out += "\n"; space(); }
        return encode();
    }
    std::string encode() const {
        if(enc == UTF8) return out;
        if(enc == UTF8_BOM) return "\xEF\xBB\xBF" + out;
        std::string o;
        auto unit = [&](uint32_t u) { if(enc == UTF16LE) { o += char(u & 255); o += char(u >> 8); } else { o += char(u >> 8); o += char(u & 255); } };
        if(enc == UTF16LE || enc == UTF16BE) unit(0xFEFF);
        for(uint32_t u : code_points(out)) {
            if(enc == LATIN1 || enc == ASCII) o += char(u);
            else if(u < 0x10000) unit(u);
            else { unit(0xD800 + ((u - 0x10000) >> 10)); unit(0xDC00 + ((u - 0x10000) & 0x3FF)); }
        }
        return o;
    }
};

// ---- what a document means --------------------------------------------------------------------
enum Verdict { COMPLETE, BROKEN, ANY };
struct Meaning { Verdict verdict = BROKEN; std::string dump, why; bool operations_seen = false, too_deep = false; };

static std::string bits(double v) {
    if(std::isnan(v)) return "nan";
    char b[64];
    snprintf(b, sizeof b, "%a", v);
    return b;
}

struct Validator {
    struct Bad { Verdict v; std::string why; };
    std::string o;
    [[noreturn]] static void bad(std::string const& why) { throw Bad{BROKEN, why}; }
    [[noreturn]] static void unclear(std::string const& why) { throw Bad{ANY, why}; }
    static bool white(std::string const& s) { return s.find_first_not_of(" \t\r\n") == s.npos; }
    static std::string trimmed(std::string const& s) {
        size_t const a = s.find_first_not_of(" \t\r\n");
        return a == s.npos ? "" : s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1);
    }
    static void no_text(Node const& n) { if(!white(n.text)) bad("text in " + n.name); }
    static void attributes(Node const& n, std::vector<std::string> const& required, std::vector<std::string> const& optional = {}) {
        for(auto const& a : n.attributes) {
            if(std::find(required.begin(), required.end(), a.first) != required.end() || std::find(optional.begin(), optional.end(), a.first) != optional.end()) continue;
            if(a.first.find(' ') != a.first.npos) unclear("attribute " + a.first);
            bad("attribute " + a.first);
        }
        for(auto const& q : required) if(std::none_of(n.attributes.begin(), n.attributes.end(), [&](auto const& a) { return a.first == q; })) bad("no attribute " + q);
    }
    static std::string const& attribute(Node const& n, char const* name) {
        for(auto const& a : n.attributes) if(a.first == name) return a.second;
        bad("no attribute");
    }
    static void kids(Node const& n, std::vector<std::string> const& names) {
        no_text(n);
        for(size_t i = 0; i < n.kids.size() || i < names.size(); ++i)
            if(i >= n.kids.size() || i >= names.size() || n.kids[i].name != names[i]) bad("the elements of " + n.name);
    }
    static void many(Node const& n, char const* name) {
        no_text(n);
        for(auto const& k : n.kids) if(k.name != name) bad("an element of " + n.name);
    }
    static std::string simple(Node const& n) {
        if(!n.kids.empty()) bad("elements in " + n.name);
        for(auto const& a : n.attributes) unclear("attribute " + a.first + " of " + n.name);
        return n.text;
    }
    static long double integer(std::string const& s0) {
        std::string const s = trimmed(s0);
        size_t i = !s.empty() && (s[0] == '+' || s[0] == '-') ? 1 : 0;
        if(i == s.size() || s.find_first_not_of("0123456789", i) != s.npos) bad("'" + s + "' is not an integer");
        return strtold(s.c_str(), nullptr);
    }
    static uint64_t natural(std::string const& s) {
        long double const v = integer(s);
        if(trimmed(s)[0] == '-') unclear("a negative number");
        if(v > 18446744073709551615.0L) bad("too large");
        return strtoull(trimmed(s).c_str(), nullptr, 10);
    }
    static int position(std::string const& s) {
        uint64_t const v = natural(s);
        if(v > uint64_t(INT_MAX)) unclear("a large position");
        return int(v);
    }
    static double real(std::string const& s0) {
        std::string const s = trimmed(s0);
        if(s == "INF") return INFINITY;
        if(s == "-INF") return -INFINITY;
        if(s == "NaN") return NAN;
        if(s.empty()) bad("an empty number");
        if(s.find_first_not_of("0123456789+-.eE") != s.npos) bad("'" + s + "' is not a number");
        size_t i = s[0] == '+' || s[0] == '-' ? 1 : 0;
        size_t digits = 0;
        while(i < s.size() && isdigit(s[i])) { ++i; ++digits; }
        if(i < s.size() && s[i] == '.') { ++i; while(i < s.size() && isdigit(s[i])) { ++i; ++digits; } }
        if(!digits) bad("'" + s + "' is not a number");
        if(i < s.size()) {
            if(s[i] != 'e' && s[i] != 'E') bad("'" + s + "' is not a number");
            ++i;
            if(i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
            if(i == s.size() || s.find_first_not_of("0123456789", i) != s.npos) bad("'" + s + "' is not a number");
        }
        double const v = strtod(s.c_str(), nullptr);
        if(std::isinf(v)) bad("too large");
        return v;
    }
    void quoted(std::string const& s) { o += std::to_string(s.size()) + "'" + s + "'"; }
    void tree(Node const& n) {
        if(n.name != "Fern") bad("the root is " + n.name);
        attributes(n, {"source"});
        kids(n, {"Statements"});
        o += "(module "; quoted(attribute(n, "source")); statements(n.kids[0], false); o += ")";
    }
    void statements(Node const& n, bool some) {
        attributes(n, {});
        many(n, "Statement");
        if(some && n.kids.empty()) bad("an empty block");
        o += "[";
        for(auto const& k : n.kids) statement(k);
        o += "]";
    }
    std::string at(Node const& n) { return std::to_string(position(attribute(n, "line"))) + ":" + std::to_string(position(attribute(n, "col"))); }
    void statement(Node const& n) {
        attributes(n, {"line", "col"});
        no_text(n);
        if(n.kids.size() != 1) bad("the elements of a Statement");
        Node const& k = n.kids[0];
        std::string const p = at(n);
        if(k.name == "Expression") { expression(k, &p); return; }
        o += "(" + k.name + " " + p + " ";
        attributes(k, {});
        if(k.name == "Assignment") { kids(k, {"Expression", "Expression"}); expression(k.kids[0]); expression(k.kids[1]); }
        else if(k.name == "If" || k.name == "While") { kids(k, {"Expression", "Statements", "Statements"}); expression(k.kids[0]); statements(k.kids[1], true); statements(k.kids[2], false); }
        else if(k.name == "FunctionDefinition") { kids(k, {"Name", "Expressions", "Statements"}); quoted(simple(k.kids[0])); expressions(k.kids[1]); statements(k.kids[2], true); }
        else if(k.name == "Return") { if(k.kids.empty()) no_text(k); else { kids(k, {"Expression"}); expression(k.kids[0]); } }
        else bad("statement " + k.name);
        o += ")";
    }
    size_t expressions(Node const& n) {
        attributes(n, {});
        many(n, "Expression");
        o += "[";
        for(auto const& k : n.kids) expression(k);
        o += "]";
        return n.kids.size();
    }
    void expression(Node const& n, std::string const* place = nullptr) {
        attributes(n, {"line", "col"});
        no_text(n);
        if(n.kids.size() != 1) bad("the elements of an Expression");
        Node const& k = n.kids[0];
        std::string p = at(n);
        if(place) p = *place;                // The statement's position wins.
        if(k.name == "Number") { number(k, p); return; }
        o += "(" + k.name + " " + p + " ";
        if(k.name == "Name" || k.name == "String") quoted(simple(k));
        else if(k.name == "FunctionCall") { attributes(k, {}); kids(k, {"Name", "Expressions"}); quoted(simple(k.kids[0])); expressions(k.kids[1]); }
        else if(k.name == "Operator") {
            static std::set<std::string> const one = {"Invert", "Not", "UnaryAdd", "UnarySub"};
            static std::set<std::string> const two = {"add", "Sub", "Mult", "Div", "Mod", "Pow", "LShift", "RShift", "BitOr", "BitXor", "BitAnd", "FloorDiv", "And", "Or", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"};
            attributes(k, {});
            kids(k, {"Name", "Expressions"});
            std::string const name = simple(k.kids[0]);
            quoted(name);
            size_t const m = expressions(k.kids[1]);
            if(!(m == 1 && one.count(name)) && !(m == 2 && two.count(name))) bad("operator " + name);
        }
        else if(k.name == "Subscript") { attributes(k, {}); kids(k, {"Expression", "Expression"}); expression(k.kids[0]); expression(k.kids[1]); }
        else if(k.name == "Attribute") { attributes(k, {}); kids(k, {"Expression", "Name"}); expression(k.kids[0]); quoted(simple(k.kids[1])); }
        else bad("expression " + k.name);
        o += ")";
    }
    void number(Node const& n, std::string const& p) {
        attributes(n, {});
        no_text(n);
        if(n.kids.size() != 1) bad("the elements of a Number");
        Node const& k = n.kids[0];
        if(k.name != "Integer" && k.name != "UnsignedInteger" && k.name != "Float") bad("number " + k.name);
        attributes(k, {});
        kids(k, {"Size", "Value"});
        uint64_t const size = natural(simple(k.kids[0]));
        std::string const value = simple(k.kids[1]);
        std::string text, type;
        if(k.name == "Integer") {
            long double const v = integer(value);
            if(v < INT_MIN || v > INT_MAX) bad("an Integer out of range");
            if(size != 8 && size != 16 && size != 32 && size != 64) bad("a size");
            if(size < 32 && (v < -(1 << (size - 1)) || v > (1 << (size - 1)) - 1)) bad("an Integer out of range");
            type = "int"; text = std::to_string((long long)(v));
        }
        else if(k.name == "UnsignedInteger") {
            uint64_t const v = natural(value);
            if(size != 8 && size != 16 && size != 32 && size != 64) bad("a size");
            if(size < 64 && v >> size) bad("an UnsignedInteger out of range");
            type = "uint"; text = std::to_string(v);
        }
        else {
            double v = real(value);
            if(size != 32 && size != 64) bad("a size");
            if(size == 32) {
                if(std::isfinite(v) && std::fabs(v) > FLT_MAX) { if(std::fabs(v) > FLT_MAX * 1.000001) bad("a Float out of range"); unclear("nearly too large a float"); }
                v = float(v);
            }
            type = "float"; text = bits(v);
        }
        o += "(Number " + p + " " + type + std::to_string(size) + " " + text + ")";
    }
    std::vector<double> reals(Node const& n) {
        if(!n.kids.empty()) bad("elements in " + n.name);
        attributes(n, {}, {"href", "mimeType"});
        std::vector<double> v;
        std::istringstream s(n.text);
        for(std::string w; s >> w;) v.push_back(real(w));
        if(n.text.find_first_of("\v\f") != n.text.npos) unclear("odd space");
        return v;
    }
    void uncertainty(Node const& n) {
        std::string const u = "http://www.uncertml.org/2.0 ";
        if(n.name != u + "NormalDistribution") { if(n.name.compare(0, u.size(), u) == 0) unclear("another distribution"); bad("the root is " + n.name); }
        attributes(n, {});
        kids(n, {u + "mean", u + "variance"});
        auto const m = reals(n.kids[0]), v = reals(n.kids[1]);
        if(m.size() != 1 || v.size() != 1) bad("lists of parameters");
        if(!(v[0] > 0)) bad("a variance that is not positive");
        o += "(normal " + bits(m[0]) + " " + bits(std::sqrt(v[0])) + ")";
    }
    void operations(Node const& n) {
        if(n.name != "Operations") bad("the root is " + n.name);
        attributes(n, {});
        no_text(n);
        if(!n.kids.empty()) { if(n.kids[0].name != "Operation") bad("an element of Operations"); unclear("operations"); }
        o += "(operations 0)";
    }
};

static Meaning meaning(Lang l, Node const& root) {
    Meaning m;
    Validator v;
    try {
        l == TREE ? v.tree(root) : l == UNCERT ? v.uncertainty(root) : v.operations(root);
        m.verdict = COMPLETE; m.dump = v.o;
    }
    catch(Validator::Bad const& b) { m.verdict = b.v; m.why = b.why; }
    return m;
}

// The same, of the bytes: read by libexpat in one piece.
struct Reader {
    Node top;
    std::vector<Node*> open;
    bool operations_seen = false, too_deep = false;
};
static Meaning meaning(Lang l, std::string const& bytes) {
    XML_Char const sep[2] = {' ', 0};
    XML_Parser p = XML_ParserCreate_MM(nullptr, nullptr, sep);
    XML_SetHashSalt(p, 0x1234567);
    Reader rd;
    rd.open.push_back(&rd.top);
    XML_SetUserData(p, &rd);
    XML_SetElementHandler(p,
        [](void* d, XML_Char const* name, XML_Char const** atts) {
            auto& r = *static_cast<Reader*>(d);
            r.open.back()->kids.emplace_back();
            Node& n = r.open.back()->kids.back();
            n.name = name;
            size_t same = 0;
            for(auto const* m : r.open) same += m->name == n.name;
            if(same >= 8) r.too_deep = true;
            for(; *atts; atts += 2) n.attributes.push_back({atts[0], atts[1]});
            r.open.push_back(&n);
        },
        [](void* d, XML_Char const*) {
            auto& r = *static_cast<Reader*>(d);
            Node const& n = *r.open.back();
            // Finishing an operation aborts, and so do empty names and types it does not know.
            if(n.name == "Operation" || n.name == "Parameter" || n.name == "Result" || ((n.name == "Name" || n.name == "Description") && n.text.empty()) || ((n.name == "DataType" || n.name == "ValueType") && n.text != "All" && n.text != "Number")) r.operations_seen = true;
            r.open.pop_back();
        });
    XML_SetCharacterDataHandler(p, [](void* d, XML_Char const* s, int n) { static_cast<Reader*>(d)->open.back()->text.append(s, size_t(n)); });
    bool const ok = XML_Parse(p, bytes.data(), int(bytes.size()), 1) == XML_STATUS_OK;
    Meaning m;
    if(ok) m = meaning(l, rd.top.kids.at(0));
    else { m.verdict = BROKEN; m.why = XML_ErrorString(XML_GetErrorCode(p)); }
    m.operations_seen = rd.operations_seen;
    m.too_deep = rd.too_deep;
    XML_ParserFree(p);
    return m;
}

// ---- what fern made of it -----------------------------------------------------------------------
struct Dumper {
    std::string o;
    void quoted(std::string const& s) { o += std::to_string(s.size()) + "'" + s + "'"; }
    void at(fl::AstVertex const& v) { o += std::to_string(v.line()) + ":" + std::to_string(v.col()); }
    void list(fl::ExpressionVertices const& v) { o += "["; for(auto const& e : v) expression(e.get()); o += "]"; }
    void scope(fl::ScopeVertex const* s) {
        if(!s) { o += "(no scope)"; return; }
        o += "[";
        for(auto const& k : s->statements()) statement(k.get());
        o += "]";
    }
    template<typename T> bool number(fl::ExpressionVertex const* e, char const* type) {
        auto const* n = dynamic_cast<fl::NumberVertex<T> const*>(e);
        if(!n) return false;
        o += "(Number "; at(*e); o += std::string(" ") + type + " " + (std::is_floating_point<T>::value ? bits(double(n->value())) : std::to_string(n->value())) + ")";
        return true;
    }
    void expression(fl::ExpressionVertex const* e) {
        if(!e) { o += "(null)"; return; }
        if(number<int8_t>(e, "int8") || number<int16_t>(e, "int16") || number<int32_t>(e, "int32") || number<int64_t>(e, "int64")
                || number<uint8_t>(e, "uint8") || number<uint16_t>(e, "uint16") || number<uint32_t>(e, "uint32") || number<uint64_t>(e, "uint64")
                || number<float>(e, "float32") || number<double>(e, "float64")) return;
        if(auto const* v = dynamic_cast<fl::NameVertex const*>(e)) { o += "(Name "; at(*e); o += " "; quoted(v->name()); }
        else if(auto const* v = dynamic_cast<fl::StringVertex const*>(e)) { o += "(String "; at(*e); o += " "; quoted(v->value()); }
        else if(auto const* v = dynamic_cast<fl::OperatorVertex const*>(e)) { o += "(Operator "; at(*e); o += " "; quoted(v->name()); list(v->expressions()); }
        else if(auto const* v = dynamic_cast<fl::FunctionCallVertex const*>(e)) { o += "(FunctionCall "; at(*e); o += " "; quoted(v->name()); list(v->expressions()); }
        else if(auto const* v = dynamic_cast<fl::SubscriptVertex const*>(e)) { o += "(Subscript "; at(*e); o += " "; expression(v->expression().get()); expression(v->selection().get()); }
        else if(auto const* v = dynamic_cast<fl::AttributeVertex const*>(e)) { o += "(Attribute "; at(*e); o += " "; expression(v->expression().get()); quoted(v->member_name()); }
        else o += "(unknown";
        o += ")";
    }
    void statement(fl::StatementVertex const* s) {
        if(!s) { o += "(null)"; return; }
        if(auto const* e = dynamic_cast<fl::ExpressionVertex const*>(s)) { expression(e); return; }
        if(auto const* v = dynamic_cast<fl::AssignmentVertex const*>(s)) { o += "(Assignment "; at(*s); o += " "; expression(v->target().get()); expression(v->expression().get()); }
        else if(auto const* v = dynamic_cast<fl::IfVertex const*>(s)) { o += "(If "; at(*s); o += " "; expression(v->condition().get()); scope(v->true_scope().get()); scope(v->false_scope().get()); }
        else if(auto const* v = dynamic_cast<fl::WhileVertex const*>(s)) { o += "(While "; at(*s); o += " "; expression(v->condition().get()); scope(v->true_scope().get()); scope(v->false_scope().get()); }
        else if(auto const* v = dynamic_cast<fl::FunctionDefinitionVertex const*>(s)) { o += "(FunctionDefinition "; at(*s); o += " "; quoted(v->name()); list(v->arguments()); scope(v->scope().get()); }
        else if(auto const* v = dynamic_cast<fl::ReturnVertex const*>(s)) { o += "(Return "; at(*s); o += " "; if(v->expression()) expression(v->expression().get()); }
        else o += "(unknown";
        o += ")";
    }
};

// ---- streams ------------------------------------------------------------------------------------
enum Thrown { NOTHING, IOS_FAILURE, RUNTIME_ERROR, AN_INT };
static char const* const thrown_name[] = {"nothing", "ios_base::failure", "runtime_error", "an int"};
struct Source : std::streambuf {
    std::string const& bytes;
    Rng r;
    size_t at = 0;
    int64_t piece;           // Largest piece.
    Thrown how;
    Thrown thrown = NOTHING; // What it threw.
    size_t end;              // Where the stream turned out to end.
    char buffer[512];
    Source(std::string const& b, uint64_t seed, int64_t p, Thrown h) : bytes(b), r(seed), piece(p), how(h), end(b.size()) {}
    int_type underflow() override {
        Quiet q;
        if(fault(F_IO_DELAY)) sleep_ns(r.range(1000, 50000000));
        if(fault(F_IO_ERROR)) {
            thrown = how;
            event(11);
            if(how == IOS_FAILURE) throw std::ios_base::failure("simulated");
            if(how == RUNTIME_ERROR) throw std::runtime_error("simulated");
            throw int(42);
        }
        if(at < end && fault(F_IO_EOF)) { end = at; event(12); }
        if(at == end) return traits_type::eof();
        size_t n = std::min({size_t(r.range(1, piece)), end - at, sizeof buffer});
        std::copy(bytes.data() + at, bytes.data() + at + n, buffer);
        setg(buffer, buffer, buffer + n);
        at += n;
        return traits_type::to_int_type(buffer[0]);
    }
};

struct Job {
    Lang lang;
    bool by_string;
    std::string bytes;
    Meaning expected;
    std::string dump_of_dom;
    std::ios_base::iostate mask, before;
    int64_t piece;
    Thrown how;
    uint64_t seed;
    std::string what;
};
struct Plan {
    std::vector<std::vector<Job>> threads;
    bool shared_parsers;
    bool alloc_faults;
};

struct Parsers { fl::XmlParser tree; fern::UncertML2Parser uncertainty; fl::OperationXmlParser operations; };

static void judge(Job const& j, Meaning const& m, bool threw, std::string const& got, std::string const& kind, bool must_throw, bool alloc_failed) {
    std::string const where = std::string(lang_name[j.lang]) + " document of " + std::to_string(j.bytes.size()) + " bytes (" + j.what + ")";
    if(threw) {
        if(must_throw || alloc_failed || m.verdict != COMPLETE) return;
        violation("complete-document-rejected", where + ": " + kind);
    }
    if(must_throw) violation("failure-hidden", where + ": the stream failed but parsing returned " + got.substr(0, 300));
    if(m.verdict == BROKEN) violation("broken-document-accepted", where + ": " + m.why + ", but parsing returned " + got.substr(0, 300));
    if(m.verdict == COMPLETE && m.dump != got) violation("wrong-result", where + ": parsing returned " + got.substr(0, 1000) + " instead of " + m.dump.substr(0, 1000));
}

static void attempt(Job const& j, Parsers const& parsers, bool faults, bool alone) {
    uint64_t const blocks = live_allocations();
    long const xml_blocks = expat_blocks;
    bool threw = false, must_throw = false, right_kind = true;
    std::string* const got = [] { Suspend s; return new std::string; }();
    std::string* const kind = [] { Suspend s; return new std::string; }();
    Meaning const* m = &j.expected;
    Meaning* other = nullptr;
    uint64_t const failed_before = injected(F_ALLOC);
    {
        std::unique_ptr<Source> source;
        std::unique_ptr<std::istream> stream;
        if(!j.by_string) {
            source.reset(new Source(j.bytes, j.seed, j.piece, j.how));
            stream.reset(new std::istream(source.get()));
            if(j.before) stream->setstate(j.before);
            else stream->exceptions(j.mask);
        }
        std::shared_ptr<fl::ModuleVertex> tree;
        std::shared_ptr<fern::Uncertainty> uncertainty;
        fl::OperationsPtr operations;
        try {
            std::unique_ptr<AllocFaults> af(faults ? new AllocFaults : nullptr);
            struct Flag { Flag(bool b) { expat_faults = b; } ~Flag() { expat_faults = false; } } flag(faults);
            if(j.lang == TREE) tree = stream ? fl::XmlParserTest::parse(parsers.tree, *stream) : parsers.tree.parse_string(j.bytes);
            else if(j.lang == UNCERT) uncertainty = parsers.uncertainty.parse(j.bytes);
            else operations = stream ? parsers.operations.parse(*stream) : parsers.operations.parse(j.bytes);
        }
        catch(fern::detail::ParseError const&) { threw = true; event(1); Suspend s; *kind = "ParseError"; right_kind = j.by_string; }
        catch(xml_schema::parsing const& e) { threw = true; event(2); Suspend s; std::ostringstream t; t << e; *kind = "parsing: " + t.str(); right_kind = !j.by_string || j.lang == OPERATIONS; }
        catch(std::bad_alloc const&) { threw = true; event(3); Suspend s; *kind = "bad_alloc"; right_kind = false; }
        catch(std::exception const& e) { threw = true; event(4); Suspend s; *kind = std::string("exception: ") + e.what(); right_kind = false; }
        catch(int) { threw = true; event(5); Suspend s; *kind = "an int"; right_kind = false; }
        if(!threw) {
            Suspend s;
            Dumper d;
            if(j.lang == TREE) {
                if(!tree) d.o = "(null)";
                else { d.o = "(module "; d.quoted(tree->source_name()); d.scope(tree->scope().get()); d.o += ")"; }
            }
            else if(j.lang == UNCERT) {
                auto const* n = dynamic_cast<fern::NormalDistribution<double> const*>(static_cast<fern::Distribution const*>(uncertainty.get()));
                d.o = n ? "(normal " + bits(n->mean()) + " " + bits(n->standard_deviation()) + ")" : std::string("(not a normal distribution)");
            }
            else d.o = operations ? "(operations " + std::to_string(operations->size()) + ")" : std::string("(null)");
            *got = d.o;
        }
        if(source) {
            if(source->thrown != NOTHING) { must_throw = true; probe("the stream failed while parsing"); }
            if(j.before & ~std::ios_base::eofbit) must_throw = true;
            else if(j.before) { Suspend s; other = new Meaning(meaning(j.lang, std::string())); m = other; }
            if(source->end != j.bytes.size()) {
                Suspend s;
                other = new Meaning(meaning(j.lang, j.bytes.substr(0, source->end)));
                m = other;
                probe(m->verdict == COMPLETE ? "cut off after the end of the document" : "cut off inside the document");
            }
        }
    }
    bool const alloc_failed = injected(F_ALLOC) != failed_before;
    judge(j, *m, threw, *got, *kind, must_throw, alloc_failed || !alone);
    // Other threads' failures may be counted here: this is exact only when alone.
    if(threw && !must_throw && !alloc_failed && alone && !right_kind)
        violation("wrong-exception", std::string(lang_name[j.lang]) + " document (" + j.what + "): " + m->why + " is reported as " + *kind);
    if(threw) probe(must_throw ? "rejected: stream" : m->verdict == COMPLETE ? "rejected: allocation" : "rejected: document");
    if(alone) {
        if(live_allocations() != blocks) violation("memory-lost", std::string(lang_name[j.lang]) + " document (" + j.what + "): " + std::to_string(int64_t(live_allocations() - blocks)) + " blocks more than before");
        // libexpat refuses to free a parser when an exception left one of its
        // callbacks: XSD lets only the exceptions about the document not pass.
        if(expat_blocks != xml_blocks && !alloc_failed) violation("memory-lost", "blocks of the XML library stay allocated");
    }
    Suspend s;
    delete got; delete kind; delete other;
}

static void body(Plan const& plan) {
    uint64_t const blocks = live_allocations();
    {
        Parsers shared;
        size_t const n = plan.threads.size();
        auto work = [&](size_t i) {
            std::unique_ptr<Parsers> own(plan.shared_parsers ? nullptr : new Parsers);
            Parsers const& parsers = own ? *own : shared;
            for(auto const& j : plan.threads[i]) {
                context(j.what.c_str());
                attempt(j, parsers, plan.alloc_faults, n == 1);
            }
        };
        if(n == 1) work(0);
        else {
            std::vector<std::thread> threads;
            for(size_t i = 0; i < n; ++i) threads.emplace_back(work, i);
            for(auto& t : threads) t.join();
        }
        stop_faults();
        // The faults are gone: the same documents, the same parsers.
        for(auto const& ts : plan.threads) for(auto const& j : ts) {
            if(j.before) continue;
            context(j.what.c_str());
            attempt(j, shared, false, true);
        }
    }
    if(live_allocations() != blocks) violation("memory-lost", std::to_string(int64_t(live_allocations() - blocks)) + " blocks more at the end");
    if(expat_blocks != 0 && !injected(F_ALLOC)) violation("memory-lost", "blocks of the XML library stay allocated");
    drop_blocks();
}

static std::string damage(Rng& r, std::string b) {
    auto at = [&] { return b.empty() ? size_t(0) : size_t(r.below(b.size())); };
    switch(r.below(6)) {
        case 0: b.resize(at()); break;
        case 1: if(!b.empty()) b[at()] = char(r.below(256)); break;
        case 2: { size_t const a = at(), n = size_t(r.range(1, 40)); if(!b.empty()) b.erase(a, n); break; }
        case 3: { size_t const a = at(); std::string const s = b.substr(a, size_t(r.range(1, 60))); b.insert(at(), s); break; }
        case 4: { static char const* const some[] = {"<", ">", "&", "</", "\"", "x", "]]>", "<!--", "&a;", "\xFF", std::string("\0", 1).c_str(), "<Fern>", "1", " "}; b.insert(at(), some[r.below(14)]); break; }
        default: { char const c = "<>/&\"=0 x"[r.below(9)]; if(!b.empty()) b[at()] = c; break; }
    }
    return b;
}

sim::Scenario sim::make_scenario(Rng& rng, uint64_t) {
    auto plan = std::make_shared<Plan>();
    size_t const nr_threads = rng.chance(0.75) ? 1 : size_t(rng.range(2, 3));
    plan->shared_parsers = rng.chance(0.7);
    plan->alloc_faults = rng.chance(0.4);
    double const p_stream = rng.real(), p_broken = rng.chance(0.3) ? 0 : rng.real() * 0.6;
    std::ostringstream d;
    d << nr_threads << " threads" << (plan->shared_parsers ? ", shared parsers" : "") << (plan->alloc_faults ? ", allocations fail" : "") << ":";
    for(size_t t = 0; t < nr_threads; ++t) {
        plan->threads.emplace_back();
        for(int64_t n = rng.range(1, 3); n > 0; --n) {
            Job j;
            double const x = rng.real();
            j.lang = x < 0.6 ? TREE : x < 0.85 ? UNCERT : OPERATIONS;
            j.by_string = j.lang == UNCERT || !rng.chance(p_stream);
            Generator g{rng, int(rng.range(1, 60))};
            Node dom = g.document(j.lang);
            bool const spoilt = rng.chance(p_broken), damaged = rng.chance(p_broken);
            if(spoilt) for(int64_t k = rng.range(1, 2); k > 0; --k) g.spoil(dom);
            Writer w{rng};
            w.enc = rng.chance(0.5) ? UTF8 : Encoding(rng.below(NR_ENCODINGS));
            w.layout = int(rng.below(3));
            if(rng.chance(0.3)) w.p_comment = rng.real() * 0.2;
            if(rng.chance(0.3)) w.p_cdata = rng.real() * 0.5;
            if(rng.chance(0.3)) w.p_charref = rng.real() * 0.3;
            w.entity = rng.chance(0.1);
            static char const* const prefixes[] = {"un:", "", "x:"};
            w.prefix = prefixes[rng.below(3)];
            // Documents are read in pieces of 16 KiB.
            size_t const padding = rng.chance(0.12) ? size_t(rng.range(15000, 17000)) / (w.enc >= UTF16LE ? 2 : 1) : 0;
            j.bytes = w.document(dom, padding);
            Meaning const of_dom = meaning(j.lang, dom);
            std::string const whole = j.bytes;
            j.expected = meaning(j.lang, j.bytes);
            if(!spoilt && (j.expected.verdict != of_dom.verdict || j.expected.dump != of_dom.dump)) {
                std::cerr << "seed: the document says something else:\n" << j.bytes << "\n" << j.expected.why << "\n" << j.expected.dump << "\n" << of_dom.dump << "\n";
                abort();
            }
            if(damaged) { j.bytes = damage(rng, j.bytes); j.expected = meaning(j.lang, j.bytes); }
            if(j.lang == OPERATIONS && j.expected.operations_seen) {
                // Reading operations is not implemented; documents that end before are judged.
                std::string const end = "</Operation";
                j.bytes = whole.substr(0, rng.below(whole.size()));
                j.expected = meaning(j.lang, j.bytes);
                if(j.expected.operations_seen) { j.bytes = "<Operations>\n</Operations>"; j.expected = meaning(j.lang, j.bytes); }
            }
            if(j.expected.too_deep) { j.bytes = "<Fern source='x'><Statements/></Fern>"; j.expected = meaning(j.lang, j.bytes); }
            std::ios_base::iostate const masks[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit};
            j.mask = masks[rng.below(4)];
            std::ios_base::iostate const befores[] = {std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit};
            j.before = !j.by_string && rng.chance(0.03) ? befores[rng.below(3)] : std::ios_base::goodbit;
            j.piece = rng.chance(0.2) ? 1 : rng.chance(0.5) ? rng.range(2, 50) : 512;
            j.how = Thrown(rng.range(1, 3));
            j.seed = rng.next();
            std::ostringstream s;
            s << lang_name[j.lang] << (j.by_string ? " string" : " stream") << " of " << j.bytes.size() << " bytes in encoding " << w.enc << (spoilt ? ", spoilt" : "") << (damaged ? ", damaged" : "")
              << (j.expected.verdict == COMPLETE ? "" : j.expected.verdict == BROKEN ? ", broken: " + j.expected.why : ", unclear: " + j.expected.why);
            if(!j.by_string) s << ", exceptions " << int(j.mask) << ", state " << int(j.before) << ", pieces of " << j.piece << ", throws " << thrown_name[j.how];
            j.what = s.str();
            d << " [" << j.what << "]";
            if(option("dump", "0") == "1") std::cerr << j.what << "\n" << j.bytes << "\n";
            plan->threads.back().push_back(std::move(j));
        }
    }
    Scenario sc;
    sc.description = d.str();
    swarm_schedule(rng, sc.params);
    static double const ps[] = {0.001, 0.01, 0.05, 0.3};
    for(Fault k : {F_IO_ERROR, F_IO_EOF, F_IO_DELAY})
        if(rng.chance(0.35)) { sc.params.p_fault[k] = ps[rng.below(4)]; sc.params.max_faults[k] = k == F_IO_DELAY ? 20 : uint64_t(rng.range(1, 3)); }
    if(plan->alloc_faults) { sc.params.p_fault[F_ALLOC] = ps[rng.below(3)]; sc.params.max_faults[F_ALLOC] = uint64_t(rng.range(1, 3)); }
    sc.params.max_time_ns = 3600ll * 1000000000ll;
    sc.body = [plan] { body(*plan); };
    return sc;
}

// fern's parser of uncertainty documents writes to the standard output.
struct Sink : std::streambuf {
    int_type overflow(int_type c) override { return traits_type::not_eof(c); }
    std::streamsize xsputn(char const*, std::streamsize n) override { return n; }
};
static Sink sink;

void sim::warm_up() {
    std::cout.rdbuf(&sink);
    all_blocks.next = all_blocks.prev = &all_blocks;
    Rng rng(7);
    for(int i = 0; i < 200; ++i) {
        Generator g{rng, 60};
        for(Lang l : {TREE, UNCERT, OPERATIONS}) {
            Node n = g.document(l);
            if(l == OPERATIONS) n.kids.clear();
            Writer w{rng};
            w.prefix = "un:";
            std::string b = w.document(n, 0);
            if(i % 2) b.resize(b.size() / 2);
            if(option("dump", "0") == "1") std::cerr << b << "\n";
            Parsers p;
            try {
                if(l == TREE) p.tree.parse_string(b);
                else if(l == UNCERT) p.uncertainty.parse(b);
                else p.operations.parse(b);
            }
            catch(std::exception const&) {}
        }
    }
}

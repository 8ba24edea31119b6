// C17: parsing GPX documents from files on a simulated disk that fails.
#include "driver.h"
#include "simfs.h"

#include <algorithm>
#include <cstring>
#include <expat.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <map>
#include <memory>
#include <sstream>
#include <typeinfo>
#include <unistd.h>

#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/io/gpx/parse.h"

using namespace sim;

// ---- what the two versions of the format hold, written down independently of the schemas -------
// Types of values: S string, U URI, D decimal, A latitude, O longitude, G degrees (Q and H without the upper end), T time, N natural
// number, F fix, I station, M e-mail address, Y year; @type for elements.  '*' repeats.
struct Item { std::string name, type; bool many; };
struct Type { std::vector<Item> elements, attributes; };
static std::vector<Item> items(char const* s) {
    std::vector<Item> v;
    std::istringstream is(s);
    for(std::string w; is >> w;) {
        bool const many = w.back() == '*';
        if(many) w.pop_back();
        size_t const c = w.find(':');
        v.push_back({w.substr(0, c), w.substr(c + 1), many});
    }
    return v;
}
#define ACCURACY " fix:F sat:N hdop:D vdop:D pdop:D ageofdgpsdata:D dgpsid:I"
#define TEXTS10 " name:S cmt:S desc:S src:S url:U urlname:S"
#define TEXTS11 " name:S cmt:S desc:S src:S link:@link*"
static std::map<std::string, Type>& types() {
    static std::map<std::string, Type>* t = nullptr;
    if(t) return *t;
    t = new std::map<std::string, Type>;
    auto add = [&](char const* name, char const* elements, char const* attributes) { (*t)[name] = {items(elements), items(attributes)}; };
    add("gpx10", "name:S desc:S author:S email:M url:U urlname:S time:T keywords:S bounds:@bounds wpt:@wpt10* rte:@rte10* trk:@trk10*", "version:V10 creator:S");
    add("wpt10", "ele:D time:T magvar:G geoidheight:D" TEXTS10 " sym:S type:S" ACCURACY, "lat:A lon:O");
    add("rte10", TEXTS10 " number:N rtept:@wpt10*", "");
    add("trk10", TEXTS10 " number:N trkseg:@seg10*", "");
    add("seg10", "trkpt:@trkpt10*", "");
    add("trkpt10", "ele:D time:T course:G speed:D magvar:G geoidheight:D" TEXTS10 " sym:S type:S" ACCURACY, "lat:A lon:O");
    add("bounds", "", "minlat:A minlon:O maxlat:A maxlon:O");
    add("gpx11", "metadata:@metadata wpt:@wpt11* rte:@rte11* trk:@trk11* extensions:@extensions", "version:V11 creator:S");
    add("metadata", "name:S desc:S author:@person copyright:@copyright link:@link* time:T keywords:S bounds:@bounds11 extensions:@extensions", "");
    add("wpt11", "ele:D time:T magvar:H geoidheight:D" TEXTS11 " sym:S type:S" ACCURACY " extensions:@extensions", "lat:A lon:Q");
    add("rte11", TEXTS11 " number:N type:S extensions:@extensions rtept:@wpt11*", "");
    add("trk11", TEXTS11 " number:N type:S extensions:@extensions trkseg:@seg11*", "");
    add("seg11", "trkpt:@wpt11* extensions:@extensions", "");
    add("bounds11", "", "minlat:A minlon:Q maxlat:A maxlon:Q");
    add("person", "name:S email:@email link:@link", "");
    add("email", "", "id:S domain:S");
    add("copyright", "year:Y license:U", "author:S");
    add("link", "text:S type:S", "href:U");
    add("extensions", "", "");
    return *t;
}

static std::string real(double v) { std::ostringstream s; s << std::setprecision(17) << v; return s.str(); }
static std::string utf8(uint32_t c) {
    std::string s;
    if(c < 0x80) s += char(c);
    else if(c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if(c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}

struct Value { std::string lexical, printed; };
static Value random_value(Rng& r, std::string const& type) {
    auto decimal = [&](double lo, double hi, bool below = false) {
        std::ostringstream s;
        switch(r.below(8)) {
            case 0: s << (r.chance(0.5) ? lo : hi); break;
            case 1: s << "0"; break;
            default: s << std::fixed << std::setprecision(int(r.below(9))) << lo + (hi - lo) * r.real(); break;
        }
        std::string t = s.str();
        double const v = strtod(t.c_str(), nullptr);
        if(v < lo || v > hi || (below && v == hi)) t = "1";
        if(t[0] != '-' && r.chance(0.1)) t = "+" + t;
        else if(r.chance(0.05) && t.find('.') != t.npos) t += "0";
        return Value{t, real(strtod(t.c_str(), nullptr))};
    };
    switch(type[0]) {
        case 'A': return decimal(-90, 90);
        case 'O': return decimal(-180, 180);
        case 'Q': return decimal(-180, 180, true);
        case 'H': return decimal(0, 360, true);
        case 'G': return decimal(0, 360);
        case 'D': return decimal(-9000, 9000);
        case 'N': { auto v = r.chance(0.1) ? UINT64_MAX >> r.below(60) : r.below(40); return {std::to_string(v), std::to_string(v)}; }
        case 'I': { auto v = r.chance(0.3) ? 1023 : r.below(1024); return {std::to_string(v), std::to_string(v)}; }
        case 'F': { static char const* const f[] = {"none", "2d", "3d", "dgps", "pps"}; std::string s = f[r.below(5)]; return {s, s}; }
        case 'M': { static char const* const f[] = {"a@b.nl", "info.desk@geoneric.eu", "x_y@z.a.b.c"}; std::string s = f[r.below(3)]; return {s, s}; }
        case 'Y': { auto v = std::to_string(r.range(1970, 2040)); return {v, v}; }
        case 'V': { std::string s = type == "V10" ? "1.0" : "1.1"; return {s, s}; }
        case 'U': {
            std::string s = r.chance(0.5) ? "http://www.geoneric.eu/" : "page";
            for(int64_t i = r.range(0, 12); i > 0; --i) s += char('a' + r.below(26));
            return {s, s};
        }
        case 'T': {
            std::ostringstream s, p;
            int const year = int(r.range(1970, 2040)), month = int(r.range(1, 12)), day = int(r.range(1, 28)), hour = int(r.range(0, 23)), minute = int(r.range(0, 59)), second = int(r.range(0, 59));
            auto two = [](int v) { std::string t = std::to_string(v); return t.size() < 2 ? "0" + t : t; };
            std::string seconds = two(second);
            if(r.chance(0.2)) seconds += "." + std::to_string(r.below(1000));
            std::string const front = std::to_string(year) + "-" + two(month) + "-" + two(day) + "T" + two(hour) + ":" + two(minute) + ":";
            s << front << seconds;
            p << front << std::setprecision(17) << std::fixed << std::setfill('0') << std::setw(9) << strtod(seconds.c_str(), nullptr);
            switch(r.below(4)) {
                case 0: break;
                case 1: { std::string z = std::string(r.chance(0.5) ? "+" : "-") + two(int(r.range(1, 13))) + ":30"; s << z; p << z; break; }
                default: s << "Z"; p << "Z";
            }
            return {s.str(), p.str()};
        }
        default: {
            static uint32_t const odd[] = {0xE9, 0xFC, 0x20AC, 0x1D11E, '&', '<', '>', '"', '\'', '\n', '\t', ']', 0x4E2D};
            std::string s;
            int64_t n = r.chance(0.05) ? r.range(500, 20000) : r.range(0, 20);
            for(; n > 0; --n) s += r.chance(0.1) ? utf8(odd[r.below(sizeof odd / sizeof *odd)]) : std::string(1, char(' ' + r.below(95)));
            return {s, s};
        }
    }
}

// ---- documents -----------------------------------------------------------------------------------
struct Element {
    std::string name, type;
    std::vector<std::pair<Item, Value>> attributes;
    Value value;
    std::vector<Element> kids;
    std::string foreign;          // An extension, as it stands.
    bool marked = false;          // The unknown element.
};
static Element random_element(Rng& r, std::string const& name, std::string const& type, double p, int& budget) {
    Element e;
    e.name = name; e.type = type;
    --budget;
    if(type[0] != '@') { e.value = random_value(r, type); return e; }
    Type const& t = types()[type.substr(1)];
    for(auto const& a : t.attributes) e.attributes.push_back({a, random_value(r, a.type)});
    if(type == "@extensions" && r.chance(0.5)) {
        static char const* const fs[] = {"<x:a xmlns:x=\"urn:other\">text<x:b/></x:a>", "<y xmlns=\"urn:z\" k=\"v\"/>", "<y xmlns=\"urn:z\"/><z xmlns=\"urn:y\"><wpt/></z>"};
        e.foreign = fs[r.below(3)];
    }
    for(auto const& i : t.elements) {
        if(i.many) { for(int64_t n = r.range(0, r.chance(0.2) ? 12 : 3); n > 0 && budget > 0; --n) e.kids.push_back(random_element(r, i.name, i.type, p, budget)); }
        else if(r.chance(p)) e.kids.push_back(random_element(r, i.name, i.type, p, budget));
    }
    return e;
}
static void print(std::string& o, Element const& e) {
    for(auto const& k : e.kids) { o += "\n" + k.name + ": "; if(k.type[0] == '@') print(o, k); else o += k.value.printed; }
    for(auto const& a : e.attributes) o += "\n" + a.first.name + ": " + a.second.printed;
}

enum Encoding { UTF8, UTF8_BOM, UTF16LE, UTF16BE, LATIN1, ASCII };
struct Writer {
    Rng& r;
    std::string o;                // In UTF-8.
    std::string prefix, location;
    Encoding encoding;
    uint32_t top;                 // Characters beyond it need a reference.
    double spaces;
    int version;
    size_t mark = std::string::npos;
    void space() {
        if(!r.chance(spaces)) return;
        static char const* const ss[] = {"\n", "\n  ", " ", "\t", "\r\n", "\n\n", "<!-- a comment -->", "<?some thing?>"};
        o += ss[r.below(8)];
    }
    void text(std::string const& s, bool attribute, char quote, bool plain) {
        bool const cdata = !attribute && !plain && r.chance(0.1) && s.find("]]>") == s.npos && std::all_of(s.begin(), s.end(), [](char c) { return (unsigned char)c < 0x80 && c != '\r'; });
        if(cdata) { o += "<![CDATA[" + s + "]]>"; return; }
        for(size_t i = 0; i < s.size();) {
            unsigned char const b = (unsigned char)s[i];
            size_t const n = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
            uint32_t c = n == 1 ? b : b & (0xFF >> (n + 1));
            for(size_t k = 1; k < n; ++k) c = c << 6 | ((unsigned char)s[i + k] & 63);
            if(c == '&') o += "&amp;";
            else if(c == '<') o += "&lt;";
            else if(c == '>' ) o += "&gt;";
            else if(attribute && (c == (unsigned char)quote || c == '\n' || c == '\t' || c == '\r')) o += "&#" + std::to_string(c) + ";";
            else if(c > top || (!plain && r.chance(0.02))) { char x[16]; snprintf(x, sizeof x, r.chance(0.5) ? "&#x%X;" : "&#%u;", c); o += x; }
            else o += s.substr(i, n);
            i += n;
        }
    }
    void element(Element const& e, bool root) {
        std::string const tag = prefix.empty() ? e.name : prefix + ":" + e.name;
        if(e.marked) mark = o.size();
        o += "<" + tag;
        std::vector<std::function<void()>> parts;
        std::string const ns = version == 0 ? "http://www.topografix.com/GPX/1/0" : version == 1 ? "http://www.topografix.com/GPX/1/1" : "urn:unknown";
        if(root) {
            parts.push_back([&, ns] { o += prefix.empty() ? "xmlns=\"" + ns + "\"" : "xmlns:" + prefix + "=\"" + ns + "\""; });
            parts.push_back([&] { o += "xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\""; });
            if(!location.empty()) parts.push_back([&] { o += "xsi:schemaLocation=\"" + location + "\""; });
        }
        for(auto const& a : e.attributes)
            parts.push_back([&] {
                char const q = r.chance(0.7) ? '"' : '\'';
                o += a.first.name + "=" + q;
                text(a.second.lexical, true, q, a.first.type[0] != 'S');
                o += q;
            });
        for(size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.below(i)]);
        for(auto const& p : parts) { o += r.chance(0.05) && !e.marked ? "\n " : " "; p(); }
        if(e.kids.empty() && e.value.lexical.empty() && e.foreign.empty() && r.chance(0.5)) { o += r.chance(0.5) ? "/>" : " />"; return; }
        o += ">";
        if(e.type[0] == '@') {
            if(e.type == "@extensions" || !types()[e.type.substr(1)].elements.empty()) space();      // The others stay empty.
            for(auto const& k : e.kids) { element(k, false); space(); }
            o += e.foreign;
        }
        else {
            bool const loose = std::strchr("DAOGQHTNI", e.type[0]) && r.chance(0.1);
            if(loose) o += " \n";
            text(e.value.lexical, false, 0, e.type[0] != 'S');
            if(loose) o += "\t ";
        }
        o += "</" + tag + ">";
    }
};

enum Kind { WHOLE, MISSING, IS_DIRECTORY, FORBIDDEN, LONG_NAME, BELOW_A_FILE, INVALID, CUT, DAMAGED, JUNK, EMPTY };
static char const* const kind_name[] = {"whole", "missing", "directory", "forbidden", "name too long", "below a file", "invalid", "cut off", "damaged", "junk", "empty"};
enum Verdict { COMPLETE, BROKEN, ANY, NO_FILE };
struct Doc {
    Kind kind = WHOLE;
    int place = 0;
    Verdict verdict = COMPLETE;
    int version = 0, error = 0;
    bool own_schema = true;         // Names a schema that is on the disk.
    std::string path, bytes, printed, spoil;
    long line = 0;                  // Of the unknown element.
    long lines = 1;
    size_t longest = 0;
};
struct Case { std::shared_ptr<Doc> doc; int version; };
struct Plan { std::vector<Case> cases; bool spare_schemas; };
static int file_nr = 0;
static std::string schemas[2];
static char const* const schema_path[2] = {"/simdisk/schemas/gpx-1.0.xsd", "/simdisk/schemas/gpx-1.1.xsd"};

static std::string encode(std::string const& s, Encoding e) {
    if(e == UTF8 || e == ASCII) return s;
    if(e == UTF8_BOM) return "\xEF\xBB\xBF" + s;
    std::string o;
    auto unit = [&](uint32_t u) { if(e == UTF16LE) { o += char(u & 255); o += char(u >> 8); } else { o += char(u >> 8); o += char(u & 255); } };
    if(e != LATIN1) unit(0xFEFF);
    for(size_t i = 0; i < s.size();) {
        unsigned char const b = (unsigned char)s[i];
        size_t const n = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
        uint32_t c = n == 1 ? b : b & (0xFF >> (n + 1));
        for(size_t k = 1; k < n; ++k) c = c << 6 | ((unsigned char)s[i + k] & 63);
        if(e == LATIN1) o += char(c);
        else if(c < 0x10000) unit(c);
        else { unit(0xD800 + ((c - 0x10000) >> 10)); unit(0xDC00 + ((c - 0x10000) & 1023)); }
        i += n;
    }
    return o;
}
// Whether libexpat, another parser than the library's, takes the bytes for a well-formed document.
static Verdict well_formed(std::string const& bytes) {
    XML_Parser p = XML_ParserCreateNS(nullptr, ' ');
    XML_SetHashSalt(p, 0x1234567);
    Verdict v = COMPLETE;
    if(XML_Parse(p, bytes.data(), int(bytes.size()), 1) != XML_STATUS_OK) v = XML_GetErrorCode(p) == XML_ERROR_UNKNOWN_ENCODING ? ANY : BROKEN;
    XML_ParserFree(p);
    return v;
}
static void measure(Doc& d) {
    d.lines = 1 + std::count(d.bytes.begin(), d.bytes.end(), '\n') + std::count(d.bytes.begin(), d.bytes.end(), '\r');
    size_t n = 0;
    for(char c : d.bytes) { if(c == '\n') n = 0; else if(++n > d.longest) d.longest = n; }
}
static std::vector<Element*> all(Element& e) {
    std::vector<Element*> v{&e};
    for(auto& k : e.kids) { auto w = all(k); v.insert(v.end(), w.begin(), w.end()); }
    return v;
}

static void make_document(Rng& r, Doc& d) {
    int budget = int(r.chance(0.1) ? r.range(50, 400) : r.range(1, 40));
    d.version = int(r.below(2));
    static double const ps[] = {0.05, 0.2, 0.6};
    Element root = random_element(r, "gpx", d.version ? "@gpx11" : "@gpx10", ps[r.below(3)], budget);
    print(d.printed, root);
    bool const spoil = r.chance(0.2);
    std::string location = std::string(d.version ? "http://www.topografix.com/GPX/1/1 " : "http://www.topografix.com/GPX/1/0 ") + schema_path[d.version];
    int ns = d.version;
    if(spoil) {
        auto elements = all(root);
        Element& e = *elements[r.below(elements.size())];
        Type const& t = types()[e.type[0] == '@' ? e.type.substr(1) : ""];
        switch(r.below(10)) {
            case 0: case 1: case 2: {
                std::vector<Element*> hosts;
                for(auto* h : elements) if(h->type[0] == '@' && h->type != "@extensions") hosts.push_back(h);
                Element& h = *hosts[r.below(hosts.size())];
                Element x;
                x.name = r.chance(0.5) ? "blah" : "Name"; x.type = "S"; x.marked = true;
                h.kids.insert(h.kids.begin() + long(r.below(h.kids.size() + 1)), x);
                d.spoil = "an unknown element";
                break;
            }
            case 3: if(!e.attributes.empty()) { e.attributes.pop_back(); d.spoil = "a missing attribute"; } break;
            case 4: if(!e.attributes.empty()) { e.attributes.push_back({{"other", "S", false}, {"1", ""}}); d.spoil = "an unknown attribute"; } break;
            case 5:
                if(std::strchr("DGHTNFIMY", e.type[0])) {
                    static char const* const bad[] = {"", "abc", "1e3", "0x10", "1,5", "--1", "NaN"};
                    e.value.lexical = bad[r.below(7)]; d.spoil = "an invalid value";
                }
                else for(auto& a : e.attributes)
                    if(std::strchr("AOQV", a.first.type[0])) {
                        static char const* const bad[] = {"", "abc", "1e1", "180.001", "-181", "1.2"};
                        a.second.lexical = bad[r.below(a.first.type[0] == 'V' ? 6 : 5)]; d.spoil = "an invalid attribute";
                        break;
                    }
                break;
            case 6:
                for(size_t i = 0; i + 1 < e.kids.size() && d.spoil.empty(); ++i)
                    if(e.kids[i].name != e.kids[i + 1].name) { std::swap(e.kids[i], e.kids[i + 1]); d.spoil = "elements out of order"; }
                break;
            case 7:
                for(size_t i = 0; i < e.kids.size() && d.spoil.empty(); ++i)
                    for(auto const& it : t.elements)
                        if(it.name == e.kids[i].name && !it.many) { Element copy = e.kids[i]; e.kids.insert(e.kids.begin() + long(i), copy); d.spoil = "a repeated element"; break; }
                break;
            case 8: root.name = r.chance(0.5) ? "wpt" : "GPX"; d.spoil = "another root element"; break;
            default:
                switch(r.below(3)) {
                    case 0: location.clear(); d.spoil = "no schema"; break;
                    case 1: location = location.substr(0, location.find(' ') + 1) + "/simdisk/schemas/none.xsd"; d.spoil = "a schema that does not exist"; break;
                    default: ns = 2; d.spoil = "another namespace"; break;
                }
                d.own_schema = false;
        }
    }
    Writer w{r, "", r.chance(0.7) ? "" : "g", location, Encoding(r.chance(0.6) ? 0 : r.below(6)), 0, r.chance(0.5) ? 0.9 : 0.2, ns};
    static uint32_t const tops[] = {0x10FFFF, 0x10FFFF, 0x10FFFF, 0x10FFFF, 0xFF, 0x7E};
    w.top = tops[w.encoding];
    static char const* const names[] = {"UTF-8", "utf-8", "UTF-16", "UTF-16", "ISO-8859-1", "US-ASCII"};
    // UTF-8 and UTF-16 need no declaration.
    if(w.encoding == LATIN1 || w.encoding == ASCII || r.chance(0.7)) {
        w.o = "<?xml version=\"1.0\"";
        if(w.encoding == LATIN1 || w.encoding == ASCII || r.chance(0.6)) w.o += std::string(" encoding=\"") + names[w.encoding] + "\"";
        if(r.chance(0.1)) w.o += " standalone=\"yes\"";
        w.o += "?>";
    }
    auto pad = [&] {
        if(!r.chance(0.2)) return;
        w.o += "<!--";
        static int const near[] = {4096, 8191, 16384, 49152, 100000};
        w.o.append(size_t(near[r.below(5)] + r.range(-200, 200)), 'p');
        w.o += "-->";
    };
    w.space(); if(r.chance(0.5)) w.o += "\n"; pad();
    w.element(root, true);
    size_t const end = w.o.size();
    if(r.chance(0.7)) w.o += "\n";
    pad(); w.space();
    d.bytes = encode(w.o, w.encoding);
    if(!d.spoil.empty()) { d.kind = INVALID; d.verdict = BROKEN; }
    if(w.mark != std::string::npos && d.own_schema) {
        d.line = 1;
        for(size_t i = 0; i < w.mark; ++i) if(w.o[i] == '\n' || (w.o[i] == '\r' && w.o[i + 1] != '\n')) ++d.line;
    }
    if(well_formed(d.bytes) != COMPLETE) harness_error("the document made is not well-formed");
    if(r.chance(0.25)) {
        if(r.chance(0.5)) {
            d.kind = CUT;
            d.bytes.resize(size_t(r.chance(0.3) && d.bytes.size() > 200 ? d.bytes.size() - r.below(200) : r.below(d.bytes.size() + 1)));
            d.line = 0;
            if(well_formed(d.bytes) != COMPLETE) {
                // The library does not mind half a character after the end.
                bool const half = (w.encoding == UTF16LE || w.encoding == UTF16BE) && d.bytes.size() % 2;
                if(!half || d.verdict == BROKEN || well_formed(d.bytes.substr(0, d.bytes.size() - 1)) != COMPLETE) d.verdict = BROKEN;
                else d.verdict = ANY;
            }
        }
        else {
            d.kind = DAMAGED;
            d.line = 0;
            for(int64_t n = r.range(1, 4); n > 0; --n) {
                size_t const at = r.below(d.bytes.size());
                switch(r.below(5)) {
                    case 0: d.bytes[at] = char(r.below(256)); break;
                    case 1: d.bytes.erase(at, r.below(8)); break;
                    case 2: d.bytes.insert(at, 1, "<>&\"'/= ;-!"[r.below(11)]); break;
                    case 3: d.bytes.insert(at, d.bytes.substr(r.below(d.bytes.size()), r.below(60))); break;
                    default: d.bytes[at] = char(d.bytes[at] ^ (1 << r.below(8))); break;
                }
                if(d.bytes.empty()) d.bytes = " ";
            }
            d.verdict = well_formed(d.bytes) == BROKEN ? BROKEN : ANY;
        }
    }
    (void)end;
}

static std::shared_ptr<Doc> make_doc(Rng& r) {
    auto p = std::make_shared<Doc>();
    Doc& d = *p;
    std::string const dir = "/simdisk/d" + std::to_string(file_nr++) + "/";
    d.path = dir + "t.gpx";
    make_document(r, d);
    if(r.chance(0.12)) {
        static Kind const ks[] = {MISSING, IS_DIRECTORY, FORBIDDEN, LONG_NAME, BELOW_A_FILE, JUNK, EMPTY};
        d.kind = ks[r.below(7)];
        d.verdict = NO_FILE;
        d.line = 0;
        if(d.kind == FORBIDDEN) d.error = r.chance(0.5) ? EACCES : r.chance(0.5) ? EIO : ELOOP;
        if(d.kind == LONG_NAME) d.path = "/simdisk/" + std::string(300, 'n') + ".gpx";
        if(d.kind == BELOW_A_FILE) d.path += "/x.gpx";
        if(d.kind == EMPTY) { d.bytes.clear(); d.verdict = BROKEN; }
        if(d.kind == JUNK) {
            d.bytes = r.chance(0.3) ? "<?xml version=\"1.0\"?>" : "";
            for(int64_t i = r.range(1, 3000); i > 0; --i) d.bytes += char(r.below(256));
            d.verdict = well_formed(d.bytes) == BROKEN ? BROKEN : ANY;
        }
    }
    measure(d);
    return p;
}

static std::string where(Case const& c) {
    Doc const& d = *c.doc;
    std::string s = "GPX 1." + std::to_string(d.version) + " " + kind_name[d.kind] + " (" + std::to_string(d.bytes.size()) + " bytes";
    if(!d.spoil.empty()) s += ", " + d.spoil;
    return s + ") as 1." + std::to_string(c.version);
}

// ---- a parse -------------------------------------------------------------------------------------
static std::string ctx;
struct Outcome { bool returned = false, parse_error = false; std::string printed; };

// The library does not repeat interrupted reads of a schema.
static uint64_t schema_faults() {
    uint64_t n = 0;
    for(auto const* p : schema_path) n += simfs::errors(p) + simfs::interrupts(p);
    return n;
}

static Outcome one_parse(Case const& c) {
    Doc const& d = *c.doc;
    ctx = "parsing " + where(c);
    context(ctx.c_str());
    Outcome o;
    std::string problem, kind;
    uint64_t const errors = simfs::errors(d.path), failed = simfs::failed();
    uint64_t const schema_errors = schema_faults();
    int const open = simfs::open_handles();
    bool io_error = false;
    long line = -1, column = -1;
    {
        Suspend q;
        errno = 0;
        try {
            std::ostringstream s;
            s << std::setprecision(17);
            if(c.version == 0) { auto t = fern::io::gpx_1_0::parse(d.path); if(t) s << *t; else problem = "no document"; }
            else { auto t = fern::io::gpx_1_1::parse(d.path); if(t) s << *t; else problem = "no document"; }
            if(!problem.empty()) kind = "wrong-return";
            o.returned = true;
            o.printed = s.str();
        }
        catch(fern::IOError const& e) {
            io_error = true;
            if(e.message().find(d.path) == std::string::npos) { kind = "wrong-error"; problem = "the I/O error does not name the file: " + e.message(); }
        }
        catch(fern::ParseError const& e) {
            o.parse_error = true;
            size_t const at = e.message().find(d.path + ":");
            if(at != std::string::npos) sscanf(e.message().c_str() + at + d.path.size(), ":%ld:%ld", &line, &column);
            if(option("dump", "") == "1") fprintf(stderr, "%s\n", e.message().c_str());
            if(at == std::string::npos) { kind = "wrong-error"; problem = "the parse error does not name the file: " + e.message(); }
        }
        catch(std::exception const& e) { kind = "wrong-exception"; problem = std::string(typeid(e).name()) + ": " + e.what(); }
        catch(...) { kind = "wrong-exception"; problem = "an exception of unknown type"; }
    }
    event(o.returned ? 1 : io_error ? 2 : 3);
    uint64_t left;
    bool const truncated = simfs::truncated(d.path, &left);
    bool const file_error = simfs::errors(d.path) != errors;
    bool const schema_error = schema_faults() != schema_errors
        || simfs::truncated(schema_path[0], &left) || simfs::truncated(schema_path[1], &left);
    bool const disturbed = simfs::failed() != failed || truncated || schema_error;
    if(!kind.empty()) violation(kind, problem);
    Verdict const verdict = d.verdict != NO_FILE && d.verdict != ANY && c.version != d.version ? BROKEN : d.verdict;
    if(o.returned && verdict == NO_FILE) violation("wrong-return", std::string("parsing a file that is ") + kind_name[d.kind] + " succeeds");
    if(o.returned && verdict == BROKEN) violation("wrong-return", "parsing a document that is not valid succeeds");
    if(o.returned && verdict == COMPLETE && o.printed != d.printed) {
        size_t at = 0;
        while(at < o.printed.size() && at < d.printed.size() && o.printed[at] == d.printed[at]) ++at;
        violation("wrong-document", "the document read differs from the one in the file from offset " + std::to_string(at) + " of its description: '"
            + o.printed.substr(at > 20 ? at - 20 : 0, 60) + "' instead of '" + d.printed.substr(at > 20 ? at - 20 : 0, 60) + "'");
    }
    if(io_error && verdict != NO_FILE && !file_error) violation("wrong-error", "an I/O error although nothing failed on the file");
    if(o.parse_error && verdict == NO_FILE) violation("wrong-error", std::string("parsing a file that is ") + kind_name[d.kind] + " is a parse error, not an I/O error");
    if(o.parse_error && verdict == COMPLETE && !truncated && !schema_error)
        violation(file_error ? "wrong-error" : "parse-fails", file_error ? "a failing read is a parse error, not an I/O error" : "parsing a valid document is a parse error");
    if(o.parse_error && !schema_error && d.own_schema && d.bytes.size() && !truncated && d.kind != DAMAGED && d.kind != JUNK) {
        std::string const pos = std::to_string(line) + ":" + std::to_string(column);
        // A valid document of another kind is not wrong anywhere.
        bool const nowhere = line == 0 && column == 0 && (c.version != d.version || d.verdict == ANY || d.kind == CUT);
        if(nowhere) {}
        else if(line < 1 || line > d.lines + 1 || column < 1 || size_t(column) > d.longest + 2) violation("wrong-position", "the parse error is at " + pos + ", outside of the document");
        if(d.line && c.version == d.version && line != d.line) violation("wrong-position", "the parse error is at " + pos + ", and the unknown element is on line " + std::to_string(d.line));
    }
    if(simfs::open_handles() > open) violation("left-open", "still open after the call: " + simfs::open_names());
    if(o.returned) probe(disturbed ? "parsed in spite of faults" : "parsed");
    else if(io_error) probe(disturbed ? "I/O error with faults" : "I/O error without faults");
    else probe(disturbed ? "parse error with faults" : "parse error without faults");
    if(truncated) probe(o.returned ? "truncation without effect" : "truncation noticed");
    return o;
}

// Files of the same place follow each other.
static std::string on_disk(Doc const& d) { return d.kind == BELOW_A_FILE ? d.path.substr(0, d.path.rfind('/')) : d.path; }
static void install(Doc const* (&current)[4], Doc const& d) {
    Doc const*& there = current[d.place];
    if(there == &d) return;
    Suspend q;
    if(there) { simfs::remove(on_disk(*there)); Resume r; probe("a file is replaced by another one"); }
    there = &d;
    if(d.kind == MISSING || d.kind == LONG_NAME) return;
    if(d.kind == IS_DIRECTORY) simfs::make_directory(d.path);
    else if(d.kind == FORBIDDEN) simfs::forbid(d.path, d.error);
    else simfs::put(on_disk(d), d.bytes);
}

static void body(Plan const& plan) {
    simfs::reset();
    for(int i = 0; i < 2; ++i) { simfs::put(schema_path[i], schemas[i]); if(plan.spare_schemas) simfs::spare(schema_path[i]); }
    Doc const* current[4] = {};
    std::vector<Outcome> first;
    for(auto const& c : plan.cases) { install(current, *c.doc); auto o = one_parse(c); Suspend q; first.push_back(o); }
    stop_faults();
    simfs::heal();
    for(size_t i = 0; i < plan.cases.size(); ++i) {
        install(current, *plan.cases[i].doc);
        Outcome const o = one_parse(plan.cases[i]);
        if(!first[i].returned) continue;
        if(!o.returned) violation("wrong-return", "parsing succeeded on a failing disk and fails on the healed one");
        if(o.printed != first[i].printed) violation("wrong-document", "the document read on a failing disk differs from the one read on the healed one");
    }
    Suspend q;
    first = {};
}

sim::Scenario sim::make_scenario(Rng& rng, uint64_t) {
    auto plan = std::make_shared<Plan>();
    file_nr = 0;
    std::vector<std::shared_ptr<Doc>> docs;
    int const nr_docs = int(rng.range(1, 3));
    for(int i = 0, place = 0; i < nr_docs; ++i) {
        if(i && !rng.chance(0.4)) ++place;
        file_nr = place;
        docs.push_back(make_doc(rng));
        docs.back()->place = place;
    }
    for(int64_t i = rng.range(1, 3); i > 0; --i) {
        Case c;
        c.doc = docs[rng.below(docs.size())];
        c.version = rng.chance(0.93) ? c.doc->version : 1 - c.doc->version;
        plan->cases.push_back(c);
    }
    plan->spare_schemas = rng.chance(0.6);
    if(option("dump", "") == "1") for(auto const& d : docs) fprintf(stderr, "---- %s\n%s\n", d->path.c_str(), d->bytes.c_str());
    Scenario sc;
    for(auto const& c : plan->cases) sc.description += (sc.description.empty() ? "" : "; ") + where(c);
    swarm_schedule(rng, sc.params);
    static double const ps[] = {0.01, 0.04, 0.15, 0.5};
    if(rng.chance(0.85))
        for(Fault k : {F_IO_ERROR, F_IO_SHORT, F_IO_EINTR, F_IO_EOF, F_IO_DELAY}) {
            if(!rng.chance(0.5)) continue;
            sc.params.p_fault[k] = ps[rng.below(4)];
            sc.params.max_faults[k] = k == F_IO_EOF ? 1 : uint64_t(rng.range(1, 6));
        }
    sc.params.max_time_ns = 3600ll * 1000000000ll;
    sc.body = [plan] { body(*plan); };
    return sc;
}

void sim::warm_up() {
    types();
    for(int i = 0; i < 2; ++i) {
        std::ifstream f(std::string(SOURCE "/fern/io/gpx/gpx-1.") + char('0' + i) + ".xsd");
        std::ostringstream s;
        s << f.rdbuf();
        schemas[i] = s.str();
        if(schemas[i].empty()) { fprintf(stderr, "no schema\n"); exit(3); }
    }
    Rng rng(1);
    for(int i = 0; i < 20; ++i) {
        Doc d;
        make_document(rng, d);
        char path[] = "/tmp/fern-sim-XXXXXX";
        int const fd = mkstemp(path);
        if(fd < 0) continue;
        if(write(fd, d.bytes.data(), d.bytes.size()) == ssize_t(d.bytes.size()))
            try { if(d.version) fern::io::gpx_1_1::parse(path); else fern::io::gpx_1_0::parse(path); } catch(fern::Exception const&) {} catch(...) {}
        close(fd);
        unlink(path);
    }
}

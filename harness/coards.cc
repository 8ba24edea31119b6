// C14: reading scalars from COARDS NetCDF files on a simulated disk that fails.
#include "driver.h"
#include "simfs.h"

#include <cmath>
#include <cstring>
#include <dlfcn.h>
#include <limits>
#include <malloc.h>
#include <memory>
#include <netcdf.h>
#include <netcdf_mem.h>
#include <sstream>
#include <unistd.h>

#include "fern/core/data_customization_point/scalar.h"
#include "fern/algorithm/policy/dont_mark_no_data.h"
#include "fern/io/core/file.h"
#include "fern/io/netcdf/coards/read.h"

using namespace sim;

// A damaged header can ask for any amount of memory: this machine has little.
// And the library may use memory that it did not fill: the same bytes each time.
extern "C" void* __libc_malloc(size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* malloc(size_t n) {
    if(n > (16u << 20)) { errno = ENOMEM; return nullptr; }
    void* p = __libc_malloc(n);
    if(p) __real_memset(p, 0xA5, malloc_usable_size(p));
    return p;
}
extern "C" void* realloc(void* old, size_t n) {
    if(n > (16u << 20)) { errno = ENOMEM; return nullptr; }
    size_t const had = old ? malloc_usable_size(old) : 0;
    char* p = static_cast<char*>(__libc_realloc(old, n));
    if(p && malloc_usable_size(p) > had) __real_memset(p + had, 0xA5, malloc_usable_size(p) - had);
    return p;
}

enum Kind { HEALTHY, MISSING, IS_DIRECTORY, FORBIDDEN, JUNK, EMPTY, TRUNCATED, LONG_NAME, BELOW_A_FILE };
static char const* const kind_name[] = {"healthy", "missing", "directory", "forbidden", "junk", "empty", "truncated", "name too long", "below a file"};
struct Fmt { char const* name; int mode; bool hdf; };
static Fmt const formats[] = {{"classic", 0, false}, {"64-bit offset", NC_64BIT_OFFSET, false}, {"64-bit data", NC_64BIT_DATA, false},
                              {"netCDF-4", NC_NETCDF4, true}, {"netCDF-4 classic model", NC_NETCDF4 | NC_CLASSIC_MODEL, true}};

enum Conforms { NO, YES, EITHER };
struct Variable {
    std::string name;
    int type = NC_DOUBLE;
    bool user_type = false;
    int rank = 0;
    double value = 0;
};
struct File {
    Kind kind = HEALTHY;
    int place = 0;
    int format = 0;
    std::string path, bytes, whole, conventions;
    Conforms conforms = NO;
    std::vector<Variable> variables;
    int error = 0;
};
struct Case {
    std::shared_ptr<File> file;
    std::string data_path;
    Variable const* variable = nullptr;    // The requested one, if it is in the file.
};
struct Plan { std::vector<Case> cases; };

static int file_nr = 0;

// ---- an independent reading of the convention attribute -----------------------------
static bool is_space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
static bool names_coards(std::string const& s) {
    std::vector<std::string> names(1);
    bool const commas = s.find(',') != std::string::npos;
    for(char c : s) {
        if(commas ? c == ',' : is_space(c)) names.emplace_back();
        else names.back() += c;
    }
    for(auto n : names) {
        while(!n.empty() && is_space(n.back())) n.pop_back();
        while(!n.empty() && is_space(n[0])) n.erase(0, 1);
        if(n == "COARDS") return true;
    }
    return false;
}

static double random_value(Rng& r) {
    switch(r.below(10)) {
        case 0: return 0;
        case 1: return std::numeric_limits<double>::quiet_NaN();
        case 2: return -std::numeric_limits<double>::infinity();
        case 3: return std::numeric_limits<double>::max();
        case 4: return std::numeric_limits<double>::denorm_min();
        case 5: return NC_FILL_DOUBLE;
        case 6: return -0.0;
        default: return (r.real() - 0.5) * 1e6;
    }
}

static std::string random_conventions(Rng& r) {
    static char const* const cs[] = {"COARDS", "COARDS", "COARDS", "CF-1.4 COARDS", "COARDS CF-1.4", "COARDS, CF-1.0", "CF-1.0,COARDS", "CF-1.6, COARDS ,ACDD-1.3",
        "CF-1.4", "coards", "COARDS2", "NOTCOARDS", "COARDS/CF", "A COARDS, B", "", " ", ",", ",,COARDS,,", "  COARDS  ", "\tCOARDS\n", "a\nCOARDS", "COARDS;CF", "CO ARDS", "C", "COARDS,"};
    if(r.chance(0.5)) return cs[r.below(8)];
    return cs[r.below(sizeof cs / sizeof *cs)];
}

static bool make_image(Rng& r, File& f) {
    bool ok = true;
    auto check = [&](int e) { if(e != NC_NOERR) ok = false; };
    Fmt const& fm = formats[f.format];
    bool const full = fm.mode == NC_NETCDF4;
    int nc;
    if(nc_create_mem("sim.nc", fm.mode, 1024, &nc) != NC_NOERR) return false;
    if(r.chance(0.5)) check(nc_put_att_text(nc, NC_GLOBAL, "title", 4, "test"));
    if(r.chance(0.1)) check(nc_put_att_text(nc, NC_GLOBAL, "Convention", 6, "COARDS"));
    switch(r.below(16)) {
        case 0: f.conventions = "none"; f.conforms = NO; break;
        case 1: {
            double v[3] = {1, 2, 3};
            f.conventions = "numbers"; f.conforms = NO;
            check(nc_put_att_double(nc, NC_GLOBAL, "Conventions", NC_DOUBLE, r.below(4), v));
            break;
        }
        case 2:
            if(full) {
                std::string const s = random_conventions(r);
                char const* p[2] = {s.c_str(), "other"};
                f.conventions = "strings"; f.conforms = names_coards(s) ? EITHER : NO;
                check(nc_put_att_string(nc, NC_GLOBAL, "Conventions", 1 + r.below(2), p));
                break;
            }
            // fallthrough
        default: {
            std::string const s = random_conventions(r);
            std::string const stored = s + std::string(r.chance(0.2) ? r.below(3) : 0, '\0');
            f.conventions = "'" + s + "'" + (stored.size() != s.size() ? " and " + std::to_string(stored.size() - s.size()) + " NUL" : "");
            f.conforms = names_coards(s) ? YES : NO;
            check(nc_put_att_text(nc, NC_GLOBAL, "Conventions", stored.size(), stored.c_str()));
        }
    }
    for(int64_t i = r.range(0, 6); i > 0; --i) {
        std::string const n = "attribute" + std::to_string(i), v(size_t(r.below(r.chance(0.2) ? 20000 : 40)), 'x');
        check(nc_put_att_text(nc, NC_GLOBAL, n.c_str(), v.size(), v.data()));
    }
    int dim[2];
    check(nc_def_dim(nc, "x", 1, &dim[0]));
    check(nc_def_dim(nc, "y", size_t(r.range(1, 3)), &dim[1]));
    int opaque = 0, enumeration = 0;
    if(full) {
        check(nc_def_opaque(nc, 8, "blob", &opaque));
        check(nc_def_enum(nc, NC_INT, "colour", &enumeration));
        int one = 1;
        check(nc_insert_enum(nc, enumeration, "red", &one));
    }
    static char const* const names[] = {"age", "mass", "age2", "AGE", "b", "temperature_of_the_air", "x", "y2"};
    static int const types[] = {NC_BYTE, NC_CHAR, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE};
    std::vector<int> ids;
    size_t const nr = size_t(r.range(1, 6));
    for(size_t i = 0; i < nr; ++i) {
        Variable v;
        v.name = names[i];
        v.type = r.chance(0.85) ? NC_DOUBLE : types[r.below(6)];
        if(fm.mode == NC_64BIT_DATA || full) if(r.chance(0.1)) v.type = r.chance(0.5) ? NC_UINT64 : NC_INT64;
        if(full && r.chance(0.1)) v.type = NC_STRING;
        int t = v.type;
        if(full && r.chance(0.05)) { v.user_type = true; t = r.chance(0.5) ? opaque : enumeration; }
        v.rank = r.chance(0.9) ? 0 : int(r.range(1, 2));
        v.value = v.type == NC_DOUBLE ? random_value(r) : double(r.range(1, 9));
        int id;
        check(nc_def_var(nc, v.name.c_str(), t, v.rank, dim, &id));
        ids.push_back(id);
        f.variables.push_back(v);
        if(r.chance(0.3)) check(nc_put_att_text(nc, id, "units", 1, "m"));
        if(r.chance(0.2) && v.type == NC_DOUBLE && !v.user_type) { double fill = v.value; check(nc_put_att_double(nc, id, "_FillValue", NC_DOUBLE, 1, &fill)); }
    }
    // Room between the header and the values: they are not read at once then.
    if(!fm.hdf) check(nc__enddef(nc, size_t(r.chance(0.4) ? r.below(40000) : 0), 4, 0, 4));
    else if(fm.mode != NC_NETCDF4) check(nc_enddef(nc));
    for(size_t i = 0; i < nr; ++i) {
        Variable const& v = f.variables[i];
        if(v.rank || v.user_type || v.type == NC_CHAR || v.type == NC_STRING) continue;
        check(nc_put_var_double(nc, ids[i], &v.value));
    }
    NC_memio m;
    memset(&m, 0, sizeof m);
    if(nc_close_memio(nc, &m) != NC_NOERR || !ok) { free(m.memory); return false; }
    f.bytes.assign(static_cast<char*>(m.memory), m.size);
    f.whole = f.bytes;
    free(m.memory);
    return true;
}

static std::shared_ptr<File> make_file(Rng& r, bool hdf) {
    for(int attempt = 0; attempt < 50; ++attempt) {
        auto p = std::make_shared<File>();
        File& f = *p;
        f.format = hdf ? 3 + int(r.below(2)) : int(r.below(3));
        if(!make_image(r, f)) continue;
        std::string const dir = "/simdisk/d" + std::to_string(file_nr++) + "/";
        f.path = dir + "f.nc";
        if(r.chance(0.8)) return p;
        switch(r.below(9)) {
            case 0: f.kind = MISSING; break;
            case 1: f.kind = IS_DIRECTORY; break;
            case 2: f.kind = FORBIDDEN; f.error = r.chance(0.5) ? EACCES : r.chance(0.5) ? EIO : ELOOP; break;
            case 3: {
                f.kind = JUNK;
                f.bytes = r.chance(0.5) ? "" : r.chance(0.5) ? "CDF\x01" : "\x89HDF\r\n\x1a\n";
                for(int64_t i = r.range(1, 3000); i > 0; --i) f.bytes += char(r.below(256));
                break;
            }
            case 4: f.kind = EMPTY; f.bytes.clear(); break;
            case 5: f.kind = LONG_NAME; f.path = "/simdisk/" + std::string(300, 'n') + ".nc"; break;
            case 6: f.kind = BELOW_A_FILE; f.path += "/x.nc"; break;
            default: f.kind = TRUNCATED; f.bytes.resize(size_t(r.below(f.bytes.size() + 1))); break;
        }
        return p;
    }
    harness_error("no file could be made");
}

static std::string where(Case const& c) {
    std::ostringstream s;
    File const& f = *c.file;
    s << formats[f.format].name << " " << kind_name[f.kind] << " Conventions " << f.conventions << " " << f.variables.size() << " variables, reading " << c.data_path;
    if(c.variable) s << " (type " << (c.variable->user_type ? -1 : c.variable->type) << ", rank " << c.variable->rank << ", value " << c.variable->value << ")";
    return s.str();
}

static std::string ctx;
static int (*quiet_hdf)(int64_t, void*, void*);
// Whether the value follows from the bytes the disk delivered, with zeros for
// some that it did not.
static bool zero_filled(Case const& c, double value) {
    File const& f = *c.file;
    std::vector<std::pair<size_t, size_t>> holes;
    size_t const whole = f.whole.size();
    if(f.bytes.size() < whole) holes.emplace_back(f.bytes.size(), whole);
    uint64_t left;
    if(simfs::truncated(f.path, &left) && left < whole) holes.emplace_back(size_t(left), whole);
    size_t const fixed = holes.size();
    for(auto const& h : simfs::holes()) if(h.path == f.path) holes.emplace_back(size_t(h.from), std::min(whole, size_t(h.to)));
    size_t const open = std::min<size_t>(holes.size() - fixed, 12);
    for(size_t set = 0; set < size_t(1) << open; ++set) {
        std::string image = f.whole;
        for(size_t i = 0; i < fixed + open; ++i)
            if((i < fixed || set >> (i - fixed) & 1) && holes[i].first < holes[i].second) std::fill(image.begin() + long(holes[i].first), image.begin() + long(holes[i].second), '\0');
        int nc, id;
        if(nc_open_mem("sim.nc", NC_NOWRITE, image.size(), &image[0], &nc) != NC_NOERR) continue;
        double v = 0;
        bool same = nc_inq_varid(nc, c.variable->name.c_str(), &id) == NC_NOERR && nc_get_var_double(nc, id, &v) == NC_NOERR
            && (memcmp(&v, &value, sizeof v) == 0 || (v != v && value != value));
        nc_close(nc);
        if(same) return true;
    }
    return false;
}

static void one_read(Case const& c) {
    File const& f = *c.file;
    ctx = "reading " + where(c);
    context(ctx.c_str());
    std::string problem, kind;
    bool returned = false;
    double const untouched = -987.25;
    double value = untouched;
    uint64_t const failed = simfs::failed();
    auto const open = simfs::open_handles();
    {
        Suspend q;
        errno = 0;
        try {
            fern::algorithm::DontMarkNoData policy;
            fern::io::netcdf::read_coards(policy, fern::DataName(f.path + c.data_path), value);
            returned = true;
        }
        catch(fern::IOError const& e) {
            if(e.message().find(f.path) == std::string::npos) { kind = "wrong-error"; problem = "the I/O error does not name the file: " + e.message(); }
        }
        catch(std::exception const& e) { kind = "wrong-exception"; problem = std::string(typeid(e).name()) + ": " + e.what(); }
        catch(...) { kind = "wrong-exception"; problem = "an exception of unknown type"; }
    }
    event(returned ? 1 : 2);
    uint64_t left;
    bool const disturbed = simfs::failed() != failed || simfs::truncated(f.path, &left);
    if(!kind.empty()) violation(kind, problem);
    bool const readable = f.kind == HEALTHY || f.kind == TRUNCATED;
    bool const answer = readable && f.conforms != NO && c.variable && c.variable->rank == 0 && c.variable->type == NC_DOUBLE && !c.variable->user_type;
    if(returned && !answer)
        violation("wrong-return", readable ? "reading succeeds although the file does not hold this double scalar or does not conform" : std::string("reading a file that is ") + kind_name[f.kind] + " succeeds");
    if(returned && memcmp(&value, &c.variable->value, sizeof value) != 0 && !(value != value && c.variable->value != c.variable->value)) {
        std::ostringstream s;
        s << "the value read is " << value << " instead of " << c.variable->value;
        // The classic library takes bytes it did not get for zeros.
        bool zeros = false;
        if(!formats[f.format].hdf && (disturbed || f.kind == TRUNCATED)) {
            Suspend q;
            zeros = zero_filled(c, value);
            // A header that misses its end may lead the library anywhere.
            if(!zeros && (f.kind == TRUNCATED || simfs::truncated(f.path, &left)) && value != untouched) zeros = true;
            // Zeros in a header may lead it to other bytes of the file.
            if(!zeros && !simfs::holes().empty() && value != untouched) {
                char bytes[8];
                for(int i = 0; i < 8; ++i) bytes[i] = reinterpret_cast<char const*>(&value)[7 - i];
                zeros = f.whole.find(std::string(bytes, 8)) != std::string::npos;
            }
        }
        if(zeros && known_finding("C14-classic-missing-bytes")) {}
        else violation("wrong-value", s.str());
    }
    if(!returned && answer && f.kind == HEALTHY && f.conforms == YES && !disturbed) violation("read-fails", "reading a conforming scalar without any fault throws an I/O error");
    // The libraries themselves may leave a file open when opening or closing it fails.
    if(simfs::open_handles() > open && disturbed) probe("file left open by a library after a fault");
    else if(simfs::open_handles() > open) violation("left-open", "still open after the read: " + simfs::open_names());
    if(returned) { if(disturbed) probe("read succeeded in spite of faults"); else probe("read succeeded"); }
    else { if(disturbed) probe("I/O error with faults"); else probe("I/O error without faults"); }
    if(f.kind == TRUNCATED) { if(returned) probe("truncation without effect"); else probe("truncation noticed"); }
}

// Files of the same place follow each other.
static std::string on_disk(File const& f) { return f.kind == BELOW_A_FILE ? f.path.substr(0, f.path.rfind('/')) : f.path; }
static void install(File const* (&current)[4], File const& f) {
    File const*& there = current[f.place];
    if(there == &f) return;
    Suspend q;
    if(there) { simfs::remove(on_disk(*there)); Resume r; probe("a file is replaced by another one"); }
    there = &f;
    if(f.kind == MISSING || f.kind == LONG_NAME) return;
    if(f.kind == IS_DIRECTORY) simfs::make_directory(f.path);
    else if(f.kind == FORBIDDEN) simfs::forbid(f.path, f.error);
    else simfs::put(on_disk(f), f.bytes);
}

static void body(Plan const& plan) {
    simfs::reset();
    if(quiet_hdf) { Suspend q; quiet_hdf(0, nullptr, nullptr); }      // Per thread.
    File const* current[4] = {};
    for(auto const& c : plan.cases) { install(current, *c.file); one_read(c); }
    stop_faults();
    simfs::heal();
    for(auto const& c : plan.cases) { install(current, *c.file); one_read(c); }
}

sim::Scenario sim::make_scenario(Rng& rng, uint64_t) {
    auto plan = std::make_shared<Plan>();
    file_nr = 0;
    std::vector<std::shared_ptr<File>> files;
    bool const only_hdf = rng.chance(0.4);
    int const nr_files = int(rng.range(1, 3));
    for(int i = 0, place = 0; i < nr_files; ++i) {
        if(i && !rng.chance(0.4)) ++place;
        file_nr = place;
        files.push_back(make_file(rng, only_hdf));
        files.back()->place = place;
    }
    for(int64_t i = rng.range(1, 4); i > 0; --i) {
        Case c;
        c.file = files[rng.below(files.size())];
        auto const& vs = c.file->variables;
        Variable const& v = vs[rng.below(vs.size())];
        switch(rng.below(16)) {
            case 0: c.data_path = ":nothing"; break;
            case 1: c.data_path = rng.chance(0.5) ? "" : ":/"; break;
            case 2: c.data_path = ":/" + v.name + "/" + vs[rng.below(vs.size())].name; break;
            case 3: c.data_path = ":" + v.name + "/"; c.variable = &v; break;
            case 4: c.data_path = ":" + v.name; c.variable = &v; break;
            case 5: c.data_path = std::string(":") + std::string(rng.range(0, 4), '/') + v.name + std::string(rng.range(0, 4), '/'); c.variable = &v; break;
            default: c.data_path = ":/" + v.name; c.variable = &v; break;
        }
        plan->cases.push_back(c);
    }
    Scenario sc;
    for(auto const& c : plan->cases) sc.description += (sc.description.empty() ? "" : "; ") + where(c);
    swarm_schedule(rng, sc.params);
    static double const ps[] = {0.01, 0.04, 0.15, 0.5};
    bool hdf = false;
    for(auto const& f : files) hdf = hdf || formats[f->format].hdf;
    if(rng.chance(0.85))
        for(Fault k : {F_IO_ERROR, F_IO_SHORT, F_IO_EINTR, F_IO_EOF, F_IO_DELAY}) {
            if(!rng.chance(0.5)) continue;
            // libnetcdf crashes when closing an HDF5 file after a failing read fails.
            if(hdf && (k == F_IO_ERROR || k == F_IO_EOF)) continue;
            sc.params.p_fault[k] = ps[rng.below(4)];
            sc.params.max_faults[k] = k == F_IO_EOF ? 1 : uint64_t(rng.range(1, 6));
        }
    sc.params.max_time_ns = 3600ll * 1000000000ll;
    sc.body = [plan] { body(*plan); };
    return sc;
}

void sim::warm_up() {
    setenv("HDF5_USE_FILE_LOCKING", "TRUE", 1);
    nc_initialize();
    quiet_hdf = reinterpret_cast<int (*)(int64_t, void*, void*)>(dlsym(RTLD_DEFAULT, "H5Eset_auto2"));
    Rng rng(1);
    for(int i = 0; i < 5; ++i) {
        int ok = 0;
        std::string image;
        for(int k = 0; k < 20; ++k) { File f; f.format = i; if(make_image(rng, f)) { ++ok; image = f.bytes; } }
        // The libraries' own first use of a file.
        char path[] = "/tmp/fern-sim-XXXXXX";
        int const fd = mkstemp(path);
        if(fd >= 0) {
            if(write(fd, image.data(), image.size()) == ssize_t(image.size())) {
                int nc;
                if(nc_open(path, NC_NOWRITE, &nc) == NC_NOERR) nc_close(nc);
                for(std::string const& name : {std::string(path), std::string(path) + ".none"})
                    try {
                        fern::algorithm::DontMarkNoData policy;
                        double value;
                        fern::io::netcdf::read_coards(policy, fern::DataName(name + ":/age"), value);
                    }
                    catch(std::exception const&) {}
            }
            close(fd);
            unlink(path);
        }
        if(ok < 10) fprintf(stderr, "%s: only %d of 20 files could be made\n", formats[i].name, ok);
    }
}

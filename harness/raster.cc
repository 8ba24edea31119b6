// C13: reading raster files from a simulated disk that fails.
#include "driver.h"
#include "simfs.h"

#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <sstream>

#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/algorithm/policy/mark_no_data_by_value.h"
#include "fern/io/core/file.h"
#include "fern/io/gdal/gdal_client.h"
#include "fern/io/gdal/read.h"

using namespace sim;

// ---- value types -------------------------------------------------------------------
enum Type { U8, U16, I16, U32, I32, F32, F64, NR_SUPPORTED, I8 = NR_SUPPORTED, I64, U64, CF32, NR_TYPES };
static char const* const type_name[] = {"uint8", "uint16", "int16", "uint32", "int32", "float32", "float64", "int8", "int64", "uint64", "complex"};
static GDALDataType const gdal_type[] = {GDT_Byte, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_Float32, GDT_Float64, GDT_Int8, GDT_Int64, GDT_UInt64, GDT_CFloat32};
static size_t const type_size[] = {1, 2, 2, 4, 4, 4, 8, 1, 8, 8, 8};

template<class T> static bool is_no_data(T v, double d) {
    if(std::isnan(d)) return v != v;
    if(std::is_integral<T>::value) return double(v) == d;
    T const n = static_cast<T>(d);
    if(std::isinf(double(n)) && !std::isinf(d)) return false;
    return v == n;
}

// ---- one file ----------------------------------------------------------------------
enum Kind { HEALTHY, MISSING, IS_DIRECTORY, FORBIDDEN, JUNK, EMPTY, NO_BANDS, TRUNCATED, LONG_NAME, BELOW_A_FILE };
static char const* const kind_name[] = {"healthy", "missing", "directory", "forbidden", "junk", "empty", "without bands", "truncated", "name too long", "below a file"};

struct File {
    Kind kind = HEALTHY;
    std::string format, options, path;
    int type = U8;
    int rows = 1, cols = 1, bands = 1;
    bool has_no_data = false;
    double no_data = 0;
    std::vector<unsigned char> values;                       // Of the first band.
    std::vector<std::pair<std::string, std::string>> parts;  // path, bytes
    int error = 0;
    bool reports = true;
};

struct Format {
    char const* driver;
    char const* extension;
    std::vector<int> types;
    std::vector<std::vector<char const*>> options;
    bool no_data;
    bool copy;         // CreateCopy only.
    bool reports;      // The driver reports all read errors (others take missing bytes for zeros).
};
static std::vector<Format> const& formats() {
    static std::vector<Format> const f = {
        {"GTiff", "tif", {U8, U16, I16, U32, I32, F32, F64, I8, CF32},
            {{}, {"COMPRESS=DEFLATE"}, {"COMPRESS=LZW"}, {"COMPRESS=PACKBITS"},
             {"COMPRESS=PACKBITS", "BLOCKYSIZE=1"}, {"COMPRESS=PACKBITS", "BLOCKYSIZE=4"}, {"TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"},
             {"TILED=YES", "BLOCKXSIZE=32", "BLOCKYSIZE=16", "COMPRESS=DEFLATE"}, {"BLOCKYSIZE=1"}, {"BLOCKYSIZE=3", "COMPRESS=LZW"}, {"BIGTIFF=YES"},
             {"ENDIANNESS=BIG"}, {"INTERLEAVE=BAND"}, {"COMPRESS=ZSTD"}}, true, false, true},
        {"HFA", "img", {U8, U16, I16, U32, I32, F32, F64, I8}, {{}, {"COMPRESSED=YES"}, {"BLOCKSIZE=32"}}, true, false, false},
        {"ENVI", "img", {U8, U16, I16, U32, I32, F32, F64, I64, U64}, {{}, {"INTERLEAVE=BIL"}, {"INTERLEAVE=BIP"}}, true, false, false},
        {"EHdr", "bil", {U8, U16, I16, U32, I32, F32}, {{}}, true, false, false},
        {"SAGA", "sdat", {U8, U16, I16, U32, I32, F32, F64}, {{}}, true, false, false},
        {"ERS", "ers", {U8, U16, I16, U32, I32, F32, F64}, {{}}, true, false, false},
        {"GSBG", "grd", {F32}, {{}}, false, false, true},
        {"RMF", "mtw", {I32, F64}, {{"MTW=YES"}}, true, false, false},
        {"AAIGrid", "asc", {I32, F32}, {{}}, true, true, false},
    };
    return f;
}

static std::unique_ptr<fern::io::gdal::GDALClient> client;
static int file_nr = 0;

static double random_value(Rng& r, int t) {
    static double const lo[] = {0, 0, -32768, 0, -2147483648.0, 0, 0, -128, 0, 0, 0};
    static double const hi[] = {255, 65535, 32767, 4294967295.0, 2147483647.0, 0, 0, 127, 0, 0, 0};
    switch(t) {
        case F32: case F64: case CF32:
            switch(r.below(12)) {
                case 0: return std::numeric_limits<double>::quiet_NaN();
                case 1: return std::numeric_limits<double>::infinity();
                case 2: return t == F64 ? std::numeric_limits<double>::max() : double(std::numeric_limits<float>::max());
                case 3: return t == F64 ? -std::numeric_limits<double>::max() : -double(std::numeric_limits<float>::max());
                case 4: return -0.0;
                case 5: return double(float(r.real()));
                case 6: return t == F64 ? r.real() : 0.25;
                default: return double(r.range(-20, 20));
            }
        case I64: case U64: return double(r.range(0, 100));
        default:
            switch(r.below(5)) {
                case 0: return lo[t];
                case 1: return hi[t];
                case 2: return double(r.range(int64_t(lo[t]), int64_t(hi[t])));
                default: return double(std::max<int64_t>(int64_t(lo[t]), r.range(-9, 20)));
            }
    }
}
template<class T> static void put_as(std::vector<unsigned char>& v, size_t i, double d) { T t = static_cast<T>(d); memcpy(&v[i * sizeof(T)], &t, sizeof t); }
static void put_value(std::vector<unsigned char>& v, size_t i, int t, double d) {
    switch(t) {
        case U8: put_as<uint8_t>(v, i, d); break;
        case U16: put_as<uint16_t>(v, i, d); break;
        case I16: put_as<int16_t>(v, i, d); break;
        case U32: put_as<uint32_t>(v, i, d); break;
        case I32: put_as<int32_t>(v, i, d); break;
        case F32: put_as<float>(v, i, d); break;
        case F64: put_as<double>(v, i, d); break;
        case I8: put_as<int8_t>(v, i, d); break;
        case I64: put_as<int64_t>(v, i, d); break;
        case U64: put_as<uint64_t>(v, i, d); break;
        case CF32: put_as<float>(v, 2 * i, d); put_as<float>(v, 2 * i + 1, 1); break;
    }
}

// Makes a raster file with the real drivers, in memory.  Returns false if the
// format cannot hold this.
static bool make_raster(Rng& r, File& f, Format const& fm, int type) {
    f.format = fm.driver;
    f.type = type;
    f.reports = fm.reports;
    switch(r.below(4)) {
        case 0: f.rows = int(r.range(1, 4)); f.cols = int(r.range(1, 4)); break;
        case 1: f.rows = int(r.range(1, 70)); f.cols = int(r.range(1, 5)); break;
        case 2: f.rows = int(r.range(1, 5)); f.cols = int(r.range(1, 70)); break;
        default: f.rows = int(r.range(5, 50)); f.cols = int(r.range(5, 50)); break;
    }
    bool const multi = !fm.copy && f.format != "GSBG" && f.format != "SAGA" && f.format != "RMF" && f.format != "AAIGrid";
    f.bands = multi && r.chance(0.2) ? int(r.range(2, 3)) : 1;
    size_t const n = size_t(f.rows) * size_t(f.cols);
    if(fm.no_data && r.chance(0.7)) {
        f.has_no_data = true;
        switch(r.below(8)) {
            case 0: f.no_data = -9999; break;
            case 1: f.no_data = type == F32 || type == F64 ? std::numeric_limits<double>::quiet_NaN() : 255; break;
            case 2: f.no_data = 1.5; break;
            case 3: f.no_data = 1e6; break;
            case 4: f.no_data = 300; break;
            default: f.no_data = random_value(r, type); break;
        }
    }
    std::vector<unsigned char> v(n * type_size[type]);
    for(size_t i = 0; i < n; ++i) {
        double d = random_value(r, type);
        if(f.has_no_data && r.chance(0.2)) {
            // Also values the no-data value turns into when it is squeezed into the type.
            double lo = type == U8 ? 0 : type == U16 ? 0 : type == I16 ? -32768 : type == U32 ? 0 : type == I32 ? -2147483648.0 : type == I8 ? -128 : -1e300;
            double hi = type == U8 ? 255 : type == U16 ? 65535 : type == I16 ? 32767 : type == U32 ? 4294967295.0 : type == I32 ? 2147483647.0 : type == I8 ? 127 : 1e300;
            if(type == F32 || type == F64) d = f.no_data;
            else if(!std::isfinite(f.no_data)) d = 0;
            else if(r.chance(0.5)) d = std::trunc(std::max(lo, std::min(hi, f.no_data)));
            else d = double(static_cast<uint64_t>(static_cast<int64_t>(f.no_data)) & (uint64_t(hi - lo)) ) + lo;
            if(type == U8) d = std::fmod(std::fmod(std::trunc(std::isfinite(f.no_data) ? f.no_data : 0), 256) + 256, 256);
        }
        if((type == F32 || type == CF32) && std::isfinite(d) && std::abs(d) > 3.4028234663852886e38) d = 0;
        put_value(v, i, type, d);
    }
    f.values = v;

    std::string const base = "/vsimem/g/f." + std::string(fm.extension);
    VSIRmdirRecursive("/vsimem/g");
    VSIMkdir("/vsimem/g", 0755);
    auto* driver = GetGDALDriverManager()->GetDriverByName(fm.copy ? "MEM" : fm.driver);
    if(!driver) return false;
    char** options = nullptr;
    auto const& choice = fm.options[r.below(fm.options.size())];
    for(auto o : choice) { options = CSLAddString(options, o); f.options += std::string(f.options.empty() ? "" : ",") + o; }
    GDALDataset* ds = driver->Create(fm.copy ? "" : base.c_str(), f.cols, f.rows, f.bands, gdal_type[type], fm.copy ? nullptr : options);
    if(!ds) { CSLDestroy(options); return false; }
    bool ok = true;
    double transformation[6] = {0, 1, 0, 0, 0, -1};
    ds->SetGeoTransform(transformation);
    if(f.has_no_data && ds->GetRasterBand(1)->SetNoDataValue(f.no_data) != CE_None) ok = false;
    for(int b = f.bands; b >= 1; --b) {
        std::vector<unsigned char> w = v;
        if(b > 1) std::fill(w.begin(), w.end(), static_cast<unsigned char>(b));
        if(ds->GetRasterBand(b)->RasterIO(GF_Write, 0, 0, f.cols, f.rows, w.data(), f.cols, f.rows, gdal_type[type], 0, 0) != CE_None) ok = false;
    }
    if(fm.copy) {
        auto* to = GetGDALDriverManager()->GetDriverByName(fm.driver);
        GDALDataset* c = to ? to->CreateCopy(base.c_str(), ds, FALSE, options, nullptr, nullptr) : nullptr;
        GDALClose(ds);
        ds = c;
    }
    CSLDestroy(options);
    if(!ds) return false;
    GDALClose(ds);
    if(!ok) return false;
    // What a healthy read gives.
    ds = static_cast<GDALDataset*>(GDALOpen(base.c_str(), GA_ReadOnly));
    if(!ds) return false;
    auto* band = ds->GetRasterBand(1);
    ok = band->GetRasterDataType() == gdal_type[type] && ds->GetRasterXSize() == f.cols && ds->GetRasterYSize() == f.rows;
    if(ok) {
        std::vector<unsigned char> back(v.size());
        ok = band->RasterIO(GF_Read, 0, 0, f.cols, f.rows, back.data(), f.cols, f.rows, gdal_type[type], 0, 0) == CE_None;
        if(fm.copy) f.values = back;
        else if(back != v) ok = false;
        int has = 0;
        double nd = 0;
        if(type != I64 && type != U64) nd = band->GetNoDataValue(&has);
        f.has_no_data = has != 0;
        f.no_data = nd;
    }
    GDALClose(ds);
    if(!ok) return false;
    std::string const dir = "/simdisk/d" + std::to_string(file_nr) + "/";
    char** names = VSIReadDir("/vsimem/g");
    for(char** p = names; p && *p; ++p) {
        std::string name = *p;
        if(name == "." || name == ".." || name.find("aux.xml") != std::string::npos) {
            // Information beside the file may get lost without notice.
            if(name.find("aux.xml") != std::string::npos) ok = false;
            continue;
        }
        vsi_l_offset size = 0;
        GByte* b = VSIGetMemFileBuffer(("/vsimem/g/" + name).c_str(), &size, FALSE);
        if(b) f.parts.emplace_back(dir + name, std::string(reinterpret_cast<char*>(b), size_t(size)));
    }
    CSLDestroy(names);
    VSIRmdirRecursive("/vsimem/g");
    f.path = dir + "f." + fm.extension;
    ++file_nr;
    return ok;
}

static File make_file(Rng& r, std::string const& format = "") {
    int const nr = file_nr;
    for(int attempt = 0; attempt < 50; ++attempt) {
        File f;
        file_nr = nr;
        auto const& fs = formats();
        Format const* chosen = r.chance(0.4) ? &fs[0] : &fs[r.below(fs.size())];
        if(!format.empty()) for(auto const& one : fs) if(format == one.driver) chosen = &one;
        Format const& fm = *chosen;
        if(!make_raster(r, f, fm, fm.types[r.below(fm.types.size())])) continue;
        if(r.chance(0.75)) return f;
        switch(r.below(10)) {
            case 0: f.kind = MISSING; f.parts.clear(); break;
            case 1: f.kind = IS_DIRECTORY; f.parts.clear(); break;
            case 2: f.kind = FORBIDDEN; f.error = r.chance(0.5) ? EACCES : r.chance(0.5) ? EIO : ELOOP; break;
            case 3: {
                f.kind = JUNK;
                std::string s;
                for(int64_t i = r.range(1, 3000); i > 0; --i) s += char(r.chance(0.5) ? r.below(256) : 'a' + r.below(26));
                for(auto& p : f.parts) p.second = s;
                break;
            }
            case 4: f.kind = EMPTY; for(auto& p : f.parts) p.second.clear(); break;
            case 5:
                f.kind = NO_BANDS;
                f.path = "/simdisk/v" + std::to_string(file_nr) + "/f.vrt";
                f.parts = {{f.path, "<VRTDataset rasterXSize=\"" + std::to_string(f.cols) + "\" rasterYSize=\"" + std::to_string(f.rows) + "\"></VRTDataset>"}};
                break;
            case 6: f.kind = LONG_NAME; f.path = "/simdisk/" + std::string(300, 'n') + ".tif"; f.parts.clear(); break;
            case 7: f.kind = BELOW_A_FILE; f.path = f.parts[0].first + "/x.tif"; break;
            default:
                f.kind = TRUNCATED;
                if(!fm.reports) continue;
                for(auto& p : f.parts) if(p.first == f.path || r.chance(0.3)) p.second.resize(size_t(r.below(p.second.size() + 1)));
                break;
        }
        return f;
    }
    harness_error("no raster file could be made");
}

// ---- reading -----------------------------------------------------------------------
struct Case { File file; int place = 0; int destination; int more_rows = 0, more_cols = 0; bool ask_type = false;
    bool good() const { return ask_type || (destination == file.type && !more_rows && !more_cols); }
};
struct Plan { std::vector<Case> cases; };

static std::string where(Case const& c) {
    std::ostringstream s;
    File const& f = c.file;
    s << f.format << (f.options.empty() ? "" : " ") << f.options << " " << kind_name[f.kind] << " " << type_name[f.type] << " " << f.rows << "x" << f.cols
      << (f.bands > 1 ? " (bands)" : "");
    if(f.has_no_data) s << " no-data " << f.no_data;
    if(c.ask_type) { s << ", value type"; return s.str(); }
    s << " into " << type_name[c.destination];
    if(c.more_rows || c.more_cols) s << " " << f.rows + c.more_rows << "x" << f.cols + c.more_cols;
    return s.str();
}

template<class T>
static bool do_read(Case const& c, std::string* problem) {
    // true: normal return.
    using Raster = fern::MaskedRaster<T, 2>;
    using Policy = fern::algorithm::MarkNoDataByValue<typename Raster::Mask>;
    File const& f = c.file;
    typename Raster::Transformation transformation{{0.0, 1.0, 0.0, 1.0}};
    Raster raster(fern::extents[size_t(f.rows + c.more_rows)][size_t(f.cols + c.more_cols)], transformation);
    size_t const n = size_t(f.rows + c.more_rows) * size_t(f.cols + c.more_cols);
    memset(raster.data(), 0x5a, n * sizeof(T));
    Policy policy(raster.mask());
    fern::io::gdal::read(policy, fern::DataName(f.path + ":/band"), raster);
    std::vector<T> expected(n);
    if(c.more_rows || c.more_cols) { *problem = "a raster of other extents than the file's is read"; return true; }
    if(c.destination != f.type || f.values.size() != n * sizeof(T)) {
        *problem = "a band of type " + std::string(type_name[f.type]) + " is read into a destination of type " + type_name[c.destination];
        return true;
    }
    memcpy(expected.data(), f.values.data(), n * sizeof(T));
    for(size_t i = 0; i < n && problem->empty(); ++i) {
        bool const want = f.has_no_data && is_no_data(expected[i], f.no_data);
        bool const masked = raster.mask().data()[i];
        std::ostringstream s;
        if(masked != want)
            s << "cell " << i / size_t(f.cols) << ", " << i % size_t(f.cols) << " holds " << +expected[i] << " and is " << (masked ? "" : "not ") << "marked as no-data";
        else if(!want && memcmp(&expected[i], raster.data() + i, sizeof(T)) != 0 && !(expected[i] != expected[i] && raster.data()[i] != raster.data()[i]))
            s << "cell " << i / size_t(f.cols) << ", " << i % size_t(f.cols) << " is " << +raster.data()[i] << " instead of " << +expected[i];
        *problem = s.str();
    }
    return true;
}

// GDAL's own message about a tag it could not read and goes on without.
static bool no_data_tag_lost;
static void on_gdal_error(CPLErr e, CPLErrorNum n, char const* m) {
    static bool const show = getenv("GDAL_ERRORS") != nullptr;
    if(show) fprintf(stderr, "[%d %d %s]\n", e, n, m);
    if(e == CE_Warning && strstr(m, "IO error during reading of \"GDALNoDataValue\"; tag ignored")) no_data_tag_lost = true;
}

static std::string ctx;
static void one_read(Case const& c, bool last) {
    File const& f = c.file;
    ctx = "reading " + where(c);
    context(ctx.c_str());
    std::string problem, kind;
    bool returned = false;
    int outcome = 0;
    uint64_t const failed = simfs::failed();
    {
        Suspend q;
        errno = 0;
        no_data_tag_lost = false;
        try {
            if(c.ask_type) {
                GDALDataType const t = fern::io::gdal::gdal_value_type(fern::DataName(f.path + ":/band"));
                returned = true;
                if(t != gdal_type[f.type]) problem = std::string("the value type is ") + GDALGetDataTypeName(t) + " instead of " + GDALGetDataTypeName(gdal_type[f.type]);
            }
            else switch(c.destination) {
                case U8: returned = do_read<uint8_t>(c, &problem); break;
                case U16: returned = do_read<uint16_t>(c, &problem); break;
                case I16: returned = do_read<int16_t>(c, &problem); break;
                case U32: returned = do_read<uint32_t>(c, &problem); break;
                case I32: returned = do_read<int32_t>(c, &problem); break;
                case F32: returned = do_read<float>(c, &problem); break;
                case F64: returned = do_read<double>(c, &problem); break;
            }
            if(!problem.empty()) kind = "wrong-contents";
            outcome = 1;
        }
        catch(fern::IOError const& e) {
            outcome = 2;
            if(e.message().find(f.path) == std::string::npos) { kind = "wrong-error"; problem = "the I/O error does not name the file: " + e.message(); }
        }
        catch(std::exception const& e) { kind = "wrong-exception"; problem = std::string(typeid(e).name()) + ": " + e.what(); }
        catch(...) { kind = "wrong-exception"; problem = "an exception of unknown type"; }
    }
    event(uint64_t(outcome));
    bool const disturbed = simfs::failed() != failed;
    if(kind == "wrong-contents" && disturbed && !f.reports) { probe("contents not judged: driver without error reports"); kind.clear(); }
    if(kind == "wrong-contents" && problem.find("not marked as no-data") != std::string::npos && f.format == "GTiff" && no_data_tag_lost
       && known_finding("C13-gtiff-no-data-tag")) kind.clear();
    if(!kind.empty()) violation(kind, problem);
    if(returned && f.kind != HEALTHY && f.kind != TRUNCATED) violation("wrong-return", std::string("reading a file that is ") + kind_name[f.kind] + " returns normally");
    if(!returned && !disturbed && f.kind == HEALTHY && c.good()) violation("read-fails", "reading a healthy file without any fault throws an I/O error");
    if(simfs::open_handles() != 0) violation("left-open", "still open after the read: " + simfs::open_names());
    if(returned) { if(disturbed) probe("read succeeded in spite of faults"); else probe("read succeeded"); }
    else { if(disturbed) probe("I/O error with faults"); else probe("I/O error without faults"); }
    if(returned && f.kind == TRUNCATED) probe("truncation without effect");
    if(f.kind == TRUNCATED && !returned) probe("truncation noticed");
    (void)last;
}

// Files of the same place follow each other.
static void install(Case const* (&current)[8], Case const& c) {
    Case const*& there = current[c.place];
    if(there == &c) return;
    if(there) {
        simfs::remove(there->file.path);
        for(auto const& p : there->file.parts) simfs::remove(p.first);
        probe("a file is replaced by another one");
    }
    there = &c;
    if(c.file.kind == IS_DIRECTORY) simfs::make_directory(c.file.path);
    if(c.file.kind == FORBIDDEN) simfs::forbid(c.file.path, c.file.error);
    for(auto const& p : c.file.parts) if(c.file.kind != FORBIDDEN || p.first != c.file.path) simfs::put(p.first, p.second);
}

static void body(Plan const& plan) {
    simfs::reset();
    Case const* current[8] = {};
    for(auto const& c : plan.cases) { install(current, c); one_read(c, false); }
    stop_faults();
    simfs::heal();
    for(auto const& c : plan.cases) { install(current, c); one_read(c, true); }
    Suspend q;
    int n = 0;
    GDALDataset::GetOpenDatasets(&n);
    if(n != 0) { Resume r; violation("left-open", "GDAL still holds " + std::to_string(n) + " open datasets"); }
}

sim::Scenario sim::make_scenario(Rng& rng, uint64_t) {
    auto plan = std::make_shared<Plan>();
    file_nr = 0;
    int const n = int(rng.range(1, 3));
    for(int i = 0; i < n; ++i) {
        Case c;
        if(i && rng.chance(0.4)) {
            // In the place of the one before, if possible with its name.
            c.place = plan->cases.back().place;
            file_nr = c.place;
            c.file = make_file(rng, rng.chance(0.8) ? plan->cases.back().file.format : "");
        }
        else {
            c.place = i ? plan->cases.back().place + 1 : 0;
            file_nr = c.place;
            c.file = make_file(rng);
        }
        c.destination = c.file.type < NR_SUPPORTED && rng.chance(0.85) ? c.file.type : int(rng.below(NR_SUPPORTED));
        if(rng.chance(0.1)) c.ask_type = true;
        else if(rng.chance(0.1)) {
            // Other extents, also with as many cells.
            int64_t const which = rng.range(0, 3);
            if(which == 0) { c.more_rows = c.file.cols - c.file.rows; c.more_cols = c.file.rows - c.file.cols; }
            if(which != 1) c.more_rows = std::max<int>(1 - c.file.rows, which == 0 ? c.more_rows : int(rng.range(-2, 2)));
            if(which >= 1 && which != 2) c.more_cols = std::max<int>(1 - c.file.cols, int(rng.range(-2, 2)));
        }
        plan->cases.push_back(c);
    }
    Scenario sc;
    for(auto const& c : plan->cases) sc.description += (sc.description.empty() ? "" : "; ") + where(c);
    swarm_schedule(rng, sc.params);
    static double const ps[] = {0.01, 0.04, 0.15, 0.5};
    // The driver of the text format loops forever after a failing read.
    bool text = false;
    for(auto const& c : plan->cases) if(c.file.format == "AAIGrid") text = true;
    if(rng.chance(0.85))
        for(Fault k : {F_IO_ERROR, F_IO_SHORT, F_IO_EINTR, F_IO_EOF, F_IO_DELAY}) {
            if(!rng.chance(0.5) || (text && k != F_IO_DELAY)) continue;
            sc.params.p_fault[k] = ps[rng.below(4)];
            sc.params.max_faults[k] = k == F_IO_EOF ? 1 : uint64_t(rng.range(1, 6));
        }
    sc.params.max_time_ns = 3600ll * 1000000000ll;
    sc.body = [plan] { body(*plan); };
    return sc;
}

void sim::warm_up() {
    // Nothing of the machine's own configuration.
    CPLSetConfigOption("GDAL_PAM_ENABLED", "YES");
    CPLSetConfigOption("GDAL_NUM_THREADS", "1");
    CPLSetConfigOption("PROJ_NETWORK", "OFF");
    client.reset(new fern::io::gdal::GDALClient);
    CPLSetErrorHandler(on_gdal_error);
    formats();
    // Drivers of formats that do not occur here are only asked whether a file
    // is theirs, and some of them judge by uninitialised memory after a
    // failing read.
    auto* manager = GetGDALDriverManager();
    for(int i = manager->GetDriverCount() - 1; i >= 0; --i) {
        std::string const name = manager->GetDriver(i)->GetDescription();
        bool keep = name == "MEM" || name == "VRT" || name == "PNG" || name == "BMP" || name == "PCRaster";
        for(auto const& f : formats()) keep = keep || name == f.driver;
        if(!keep) manager->DeregisterDriver(manager->GetDriver(i));
    }
    // All drivers and types once, without faults.
    Rng rng(1);
    std::vector<int> made;
    for(auto const& fm : formats()) {
        int ok = 0;
        for(int i = 0; i < 30 && ok < 3; ++i) { File f; if(make_raster(rng, f, fm, fm.types[rng.below(fm.types.size())])) ++ok; }
        if(!ok) fprintf(stderr, "no file of format %s could be made\n", fm.driver);
    }
}

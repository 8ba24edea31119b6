// C15: every dataset is closed exactly once, by the handle that owns it.
#include "driver.h"
#include "simfs.h"

#include <algorithm>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <netcdf.h>
#include <netcdf_mem.h>
#include <set>
#include <sstream>

#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/io_error.h"
#include "fern/algorithm/policy/dont_mark_no_data.h"
#include "fern/io/gdal/dataset.h"
#include "fern/io/gdal/gdal_client.h"
#include "fern/io/gdal/read.h"
#include "fern/io/netcdf/coards/read.h"
#include "fern/io/netcdf/coards/dataset.h"
#include "fern/io/netcdf/core/attribute.h"
#include "fern/io/netcdf/core/dataset.h"
#include "fern/io/netcdf/core/variable.h"

using namespace sim;
namespace fg = fern::io::gdal;
namespace fn = fern::io::netcdf;

// ---- what closing a dataset that is not open would do -------------------------------
static std::string trouble;
static std::set<void*> seen_datasets;
static std::set<int> seen_ids;

static bool dataset_is_open(void* p) {
    int n = 0;
    GDALDataset** all = GDALDataset::GetOpenDatasets(&n);
    return std::find(all, all + n, p) != all + n;
}
#if defined(GDAL_VERSION_NUM) && GDAL_VERSION_NUM >= 3070000
using CloseResult = CPLErr;
#else
using CloseResult = void;
#endif
extern "C" CloseResult GDALClose(GDALDatasetH p) {
    static auto f = reinterpret_cast<CloseResult (*)(GDALDatasetH)>(dlsym(RTLD_NEXT, "GDALClose"));
    if(p && seen_datasets.count(p) && !dataset_is_open(p)) {
        trouble = "a GDAL dataset that is closed already is closed again";
        return CloseResult();
    }
    return f(p);
}
extern "C" int nc_close(int id) {
    static auto f = reinterpret_cast<int (*)(int)>(dlsym(RTLD_NEXT, "nc_close"));
    int const e = f(id);
    if(e == NC_EBADID && seen_ids.count(id)) trouble = "a NetCDF dataset that is closed already is closed again";
    return e;
}

// ---- files ---------------------------------------------------------------------------
struct Image { std::string extension, bytes; int cols = 0, rows = 0; double value = 0; bool hdf = false; };
static std::vector<Image> rasters, tables;
enum Kind { HEALTHY, MISSING, JUNK, FORBIDDEN, TRUNCATED };
static char const* const kind_name[] = {"healthy", "missing", "junk", "forbidden", "truncated"};
struct File { std::string path, bytes; Kind kind = HEALTHY; Image const* image = nullptr; };

enum Op { OPEN, OPEN_BY_NAME, OPEN_AND_ASSIGN, MOVE_CONSTRUCT, MOVE_ASSIGN, SELF_MOVE, SWAP, DESTROY, USE, THROW_IN_SCOPE, PASS_THROUGH, WHOLE_READ, VECTOR, OPEN_FOR_UPDATE, CLIENT, NO_CLIENT, NR_OPS };
static char const* const op_name[] = {"open", "open by name", "open and assign", "move-construct", "move-assign", "self-move", "swap", "destroy", "use", "throw in scope", "pass through", "whole read", "vector", "open for update", "new client", "delete client"};
static size_t const NR_SLOTS = 3, NR_CLIENTS = 4;
struct Step { Op op; bool netcdf; size_t a, b, file; uint64_t seed; };
struct Plan { std::vector<File> rasters, tables; std::vector<Step> steps; size_t first_clients; bool clients; };
// Registering drivers takes long: in histories that do not come and go as
// clients, this one lives on.
static std::unique_ptr<fern::io::gdal::GDALClient> standing;

// ---- one kind of handle ---------------------------------------------------------------
struct Gdal {
    using Handle = fg::DatasetHandle;
    using Key = GDALDataset*;
    static char const* name() { return "GDAL"; }
    static Handle open(std::string const& path) { return fg::open_dataset(path, GA_ReadOnly); }
    static Handle open_by_name(std::string const& path) { return fg::open_dataset(fern::DataName(path), GA_ReadOnly); }
    static Handle open_for_update(std::string const& path) { return fg::open_dataset(path, GA_Update); }
    static Key key(Handle& h) { Key k = h.operator->(); seen_datasets.insert(k); return k; }
    static bool is_open(Key k) { return dataset_is_open(k); }
    static void use(Handle& h, File const& f, bool disturbed) {
        if(f.path != h->GetDescription()) violation("wrong-dataset", std::string("the handle of ") + f.path + " refers to " + h->GetDescription());
        if(!disturbed && f.kind == HEALTHY && (h->GetRasterXSize() != f.image->cols || h->GetRasterYSize() != f.image->rows))
            violation("wrong-dataset", "the dataset has other extents than the file");
        auto* band = fg::raster_band(h, 1);
        double v = 0;
        if(band->RasterIO(GF_Read, 0, 0, 1, 1, &v, 1, 1, GDT_Float64, 0, 0, nullptr) == CE_None && !disturbed && f.kind == HEALTHY && v != f.image->value)
            violation("wrong-dataset", "the dataset has other values than the file");
    }
    static void provoke(Handle& h) { fg::raster_band(h, 99); }
    static void whole_read(File const& f, uint64_t seed) {
        if(seed % 3 == 0) { fg::gdal_value_type(fern::DataName(f.path)); return; }
        // The right extents, other ones, the right type, another one.
        fern::MaskedRaster<double, 2>::Transformation transformation{{0.0, 1.0, 0.0, 1.0}};
        fern::MaskedRaster<double, 2> values(fern::extents[size_t(f.image->rows)][size_t(f.image->cols) + (seed % 4 == 0)], transformation);
        fern::MaskedRaster<int32_t, 2> others(fern::extents[size_t(f.image->rows)][size_t(f.image->cols)], transformation);
        fern::algorithm::DontMarkNoData policy;
        if(seed % 5 == 0) fg::read(policy, fern::DataName(f.path), others);
        else fg::read(policy, fern::DataName(f.path), values);
    }
    // Every open dataset of the simulated disk must have an owner.
    static void others(std::set<Key> const& owned) {
        int n = 0;
        GDALDataset** all = GDALDataset::GetOpenDatasets(&n);
        for(int i = 0; i < n; ++i)
            if(!owned.count(all[i]) && strncmp(all[i]->GetDescription(), "/simdisk/", 9) == 0) {
                std::string const d = all[i]->GetDescription();
                violation("left-open", "a GDAL dataset without an owner is open: " + d);
            }
    }
};
struct NetCDF {
    using Handle = fn::DatasetHandle;
    using Key = int;
    static char const* name() { return "NetCDF"; }
    static Handle open(std::string const& path) { return fn::open_dataset(path); }
    static Handle open_by_name(std::string const& path) { return fn::open_dataset(path, NC_NOWRITE); }
    static Handle open_for_update(std::string const& path) { return fn::open_dataset(path); }
    static Key key(Handle& h) { seen_ids.insert(h.ncid()); return h.ncid(); }
    static bool is_open(Key k) { int n; return nc_inq_nvars(k, &n) != NC_EBADID; }
    static void use(Handle& h, File const& f, bool disturbed) {
        if(fn::dataset_pathname(h) != f.path) violation("wrong-dataset", "the handle of " + f.path + " refers to " + fn::dataset_pathname(h));
        if(disturbed || f.kind != HEALTHY) return;
        if(!fn::conforms_to_coards(h) || !fn::contains_variable(h, "mass") || fn::contains_variable(h, "none")) violation("wrong-dataset", "the dataset has other contents than the file");
        int const id = fn::variable_id(h, "mass");
        double v = 0;
        fern::algorithm::DontMarkNoData policy;
        try { fn::read_variable(policy, h, id, v); }
        catch(fern::IOError const&) { return; }        // A fault just now.
        if(v != f.image->value && simfs::failed() == 0) violation("wrong-dataset", "the dataset has other values than the file");
    }
    static void provoke(Handle&) { throw fern::IOError("x", "y"); }
    static void whole_read(File const& f, uint64_t seed) {
        double v;
        fern::algorithm::DontMarkNoData policy;
        char const* const names[] = {":/mass", ":/none", ":/age", ":/row", "", ":mass"};
        fn::read_coards(policy, fern::DataName(f.path + names[seed % 6]), v);
    }
    static void others(std::set<Key> const& owned) {
        // The library forgets some that it failed to open or close.
        if(simfs::failed()) return;
        for(int id : seen_ids) if(!owned.count(id) && is_open(id)) violation("left-open", "a NetCDF dataset without an owner is open");
    }
};

template<class T> struct Machine {
    using Handle = typename T::Handle;
    using Key = typename T::Key;
    struct Slot { std::unique_ptr<Handle> handle; bool owns = false; Key key{}; File const* file = nullptr; };
    std::vector<Slot> slots;
    bool disturbed = false;                            // Some dataset is from a failing disk.
    Machine(): slots(NR_SLOTS) {}

    void audit(std::vector<Slot> const* more = nullptr) {
        if(!trouble.empty()) { std::string const t = trouble; trouble.clear(); violation("closed-twice", t); }
        std::set<Key> owned;
        auto look = [&](Slot const& s) {
            if(!s.owns) return;
            if(!T::is_open(s.key)) violation("closed-early", std::string("the ") + T::name() + " dataset of a handle that owns it is closed");
            if(!owned.insert(s.key).second) violation("owned-twice", std::string("two handles own one ") + T::name() + " dataset");
        };
        for(auto const& s : slots) look(s);
        if(more) for(auto const& s : *more) look(s);
        T::others(owned);
        if(owned.size() > 1) probe("several datasets open");
    }
    bool any_open() const { for(auto const& s : slots) if(s.owns) return true; return false; }
    void drop(Slot& s) { s.handle.reset(); s.owns = false; }
    void own(Slot& s, File const& f) { s.owns = true; s.key = T::key(*s.handle); s.file = &f; if(simfs::failed()) disturbed = true; }
    static void pass(Slot& to, Slot& from) { to.owns = from.owns; to.key = from.key; to.file = from.file; from.owns = false; }
    static Handle through(Handle h, int n) { if(n == 0) return h; return through(std::move(h), n - 1); }

    void step(Step const& st, File const& f) {
        Slot& a = slots[st.a];
        Slot& b = slots[st.b];
        Rng r(st.seed);
        try {
            switch(st.op) {
                case OPEN: drop(a); a.handle.reset(new Handle(T::open(f.path))); own(a, f); break;
                case OPEN_BY_NAME: drop(a); a.handle.reset(new Handle(T::open_by_name(f.path))); own(a, f); break;
                case OPEN_FOR_UPDATE: drop(a); a.handle.reset(new Handle(T::open_for_update(f.path))); own(a, f); break;
                case OPEN_AND_ASSIGN:
                    if(!a.handle) break;
                    *a.handle = T::open(f.path);
                    own(a, f);
                    probe("dataset replaced");
                    break;
                case MOVE_CONSTRUCT:
                    if(&a == &b || !a.handle) break;
                    drop(b);
                    b.handle.reset(new Handle(std::move(*a.handle)));
                    pass(b, a);
                    if(b.owns) probe("dataset passed on");
                    break;
                case MOVE_ASSIGN:
                    if(&a == &b || !a.handle || !b.handle) break;
                    *b.handle = std::move(*a.handle);
                    pass(b, a);
                    if(b.owns) probe("dataset passed on");
                    break;
                case SELF_MOVE: {
                    if(!a.owns) break;
                    Handle& same = *a.handle;
                    *a.handle = std::move(same);
                    a.owns = T::is_open(a.key);                       // Either is fine.
                    break;
                }
                case SWAP:
                    if(&a == &b || !a.handle || !b.handle) break;
                    std::swap(*a.handle, *b.handle);
                    std::swap(a.owns, b.owns); std::swap(a.key, b.key); std::swap(a.file, b.file);
                    break;
                case DESTROY: drop(a); break;
                case USE: if(a.owns) { T::use(*a.handle, *a.file, disturbed || simfs::failed()); probe("dataset used"); } break;
                case THROW_IN_SCOPE: {
                    Handle h = T::open(f.path);
                    T::key(h);
                    Handle g(std::move(h));
                    T::provoke(g);
                    break;
                }
                case PASS_THROUGH:
                    if(!a.handle) break;
                    *a.handle = through(std::move(*a.handle), int(r.below(4)));
                    break;
                case WHOLE_READ: T::whole_read(f, st.seed); break;
                case VECTOR: {
                    std::vector<Handle> v;
                    std::vector<Slot> m;
                    for(int64_t i = r.range(1, 6); i > 0; --i) {
                        v.push_back(T::open(f.path));
                        m.emplace_back();
                        m.back().owns = true; m.back().key = T::key(v.back()); m.back().file = &f;
                    }
                    audit(&m);
                    for(int64_t i = r.range(0, 4); i > 0 && !v.empty(); --i) {
                        size_t const at = r.below(v.size());
                        switch(r.below(4)) {
                            case 0: v.erase(v.begin() + long(at)); m.erase(m.begin() + long(at)); break;
                            case 1: std::rotate(v.begin(), v.begin() + long(at), v.end()); std::rotate(m.begin(), m.begin() + long(at), m.end()); break;
                            case 2: std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); break;
                            default: v.pop_back(); m.pop_back(); break;
                        }
                        audit(&m);
                    }
                    if(r.chance(0.3)) throw std::string("with datasets in a vector");
                    break;
                }
                default: break;
            }
            event(3);
        }
        catch(fern::IOError const&) { event(4); probe("I/O error"); if(a.owns && !a.handle) a.owns = false; }
        catch(std::string const&) { event(5); }
        audit();
    }
};

static std::string ctx;
static int (*quiet_hdf)(int64_t, void*, void*);

static void body(Plan const& plan) {
    simfs::reset();
    for(auto const* fs : {&plan.rasters, &plan.tables})
        for(auto const& f : *fs) {
            if(f.kind == MISSING) continue;
            if(f.kind == FORBIDDEN) simfs::forbid(f.path, EACCES);
            else simfs::put(f.path, f.bytes);
        }
    Suspend q;
    if(quiet_hdf) quiet_hdf(0, nullptr, nullptr);      // Per thread.
    seen_datasets.clear(); seen_ids.clear(); trouble.clear();
    {
        std::vector<std::unique_ptr<fg::GDALClient>> clients(NR_CLIENTS);
        size_t nr_clients = plan.clients ? 0 : 1;
        if(plan.clients) standing.reset();
        for(size_t i = 0; i < plan.first_clients; ++i) { clients[i].reset(new fg::GDALClient); ++nr_clients; }
        Machine<Gdal> gdal;
        Machine<NetCDF> netcdf;
        auto drivers = [&] {
            auto* m = GetGDALDriverManager();
            if(nr_clients > 0 && (!m->GetDriverByName("GTiff") || !m->GetDriverByName("GSBG"))) violation("drivers-gone", "drivers are not registered although a client exists");
            if(nr_clients == 0 && m->GetDriverCount() != 0) violation("drivers-left", "drivers are registered after the last client is gone");
        };
        drivers();
        size_t nr = 0;
        for(auto const& st : plan.steps) {
            std::ostringstream s;
            s << "step " << nr++ << ": " << op_name[st.op] << (st.op < CLIENT ? st.netcdf ? " NetCDF" : " GDAL" : "") << " " << st.a << " " << st.b << " file " << st.file;
            ctx = s.str();
            context(ctx.c_str());
            if(st.op == CLIENT) {
                auto& c = clients[st.a % NR_CLIENTS];
                if(!c) { c.reset(new fg::GDALClient); ++nr_clients; }
            }
            else if(st.op == NO_CLIENT) {
                auto& c = clients[st.a % NR_CLIENTS];
                // The drivers must outlive the datasets.
                if(c && (nr_clients > 1 || !gdal.any_open())) { c.reset(); --nr_clients; if(!nr_clients) probe("last client gone"); }
            }
            else if(st.netcdf) netcdf.step(st, plan.tables[st.file]);
            else if(nr_clients) gdal.step(st, plan.rasters[st.file]);
            drivers();
        }
        ctx = "destroying everything"; context(ctx.c_str());
        for(auto& s : gdal.slots) { gdal.drop(s); gdal.audit(); }
        for(auto& s : netcdf.slots) { netcdf.drop(s); netcdf.audit(); }
        // Libraries may leave a file open that they failed to open or close.
        if(simfs::failed() == 0 && simfs::open_handles() && plan.rasters.size() + plan.tables.size() > 0) {
            bool truncated = false;
            for(auto const* fs : {&plan.rasters, &plan.tables}) for(auto const& f : *fs) { uint64_t n; truncated = truncated || simfs::truncated(f.path, &n); }
            if(!truncated) violation("left-open", "files are open although no dataset is: " + simfs::open_names());
        }
        for(auto& c : clients) if(c) { c.reset(); --nr_clients; drivers(); }
        if(plan.clients) standing.reset(new fg::GDALClient);
    }
}

sim::Scenario sim::make_scenario(Rng& rng, uint64_t) {
    auto plan = std::make_shared<Plan>();
    bool const hdf = rng.chance(0.3);
    auto make = [&](std::vector<Image> const& images, std::vector<File>& to, char const* prefix, bool second) {
        size_t const n = size_t(rng.range(1, 4));
        while(to.size() < n) {
            File f;
            f.image = &images[rng.below(images.size())];
            if(second && f.image->hdf && !hdf) continue;
            f.path = "/simdisk/" + std::string(prefix) + std::to_string(to.size()) + f.image->extension;
            f.bytes = f.image->bytes;
            if(rng.chance(0.15)) f.kind = Kind(rng.range(1, 4));
            if(f.kind == JUNK) for(auto& c : f.bytes) c = char(rng.below(256));
            if(f.kind == TRUNCATED) f.bytes.resize(rng.below(f.bytes.size()));
            to.push_back(f);
        }
    };
    make(rasters, plan->rasters, "r", false);
    make(tables, plan->tables, "t", true);
    double const netcdf = rng.real();
    bool const clients = plan->clients = rng.chance(0.2);
    plan->first_clients = clients ? size_t(rng.range(0, 2)) : 0;
    double weight[NR_OPS], total = 0;
    for(int i = 0; i < NR_OPS; ++i) {
        weight[i] = rng.chance(0.3) ? 0 : rng.real();
        if(i <= OPEN_AND_ASSIGN || i == USE) weight[i] += 0.4;
        if(i == MOVE_CONSTRUCT || i == MOVE_ASSIGN) weight[i] += 0.3;
        if(i == OPEN_FOR_UPDATE || i == WHOLE_READ || i == VECTOR) weight[i] *= 0.5;
        if(i == CLIENT || i == NO_CLIENT) weight[i] = clients ? weight[i] : 0;
        total += weight[i];
    }
    for(int64_t n = rng.range(2, 24); n > 0; --n) {
        Step st;
        double x = rng.real() * total;
        int op = 0;
        while(op < NR_OPS - 1 && x >= weight[op]) x -= weight[op++];
        st.op = Op(op);
        st.netcdf = rng.chance(netcdf);
        st.a = rng.below(NR_SLOTS); st.b = rng.below(NR_SLOTS);
        st.file = rng.below(st.netcdf ? plan->tables.size() : plan->rasters.size());
        st.seed = rng.next();
        plan->steps.push_back(st);
    }
    Scenario sc;
    std::ostringstream d;
    d << plan->first_clients << " clients, files";
    for(auto const* fs : {&plan->rasters, &plan->tables}) for(auto const& f : *fs) d << " " << f.path.substr(9) << " (" << kind_name[f.kind] << ")";
    d << ":";
    for(auto const& st : plan->steps) d << " " << op_name[st.op] << (st.netcdf ? " n" : " g") << st.a << st.b << "/" << st.file << ";";
    sc.description = d.str();
    swarm_schedule(rng, sc.params);
    static double const ps[] = {0.003, 0.01, 0.04, 0.2};
    if(rng.chance(0.7))
        for(Fault k : {F_IO_ERROR, F_IO_SHORT, F_IO_EINTR, F_IO_EOF, F_IO_DELAY}) {
            if(!rng.chance(0.5)) continue;
            // libnetcdf crashes when closing an HDF5 file after a failing read fails.
            if(hdf && (k == F_IO_ERROR || k == F_IO_EOF)) continue;
            sc.params.p_fault[k] = ps[rng.below(4)];
            sc.params.max_faults[k] = k == F_IO_EOF ? 1 : uint64_t(rng.range(1, 8));
        }
    sc.params.max_time_ns = 3600ll * 1000000000ll;
    sc.body = [plan] { body(*plan); };
    return sc;
}

static std::string make_raster(char const* driver, char const* extension, int cols, int rows, double value) {
    std::string const path = std::string("/vsimem/f") + extension;
    auto* d = GetGDALDriverManager()->GetDriverByName(driver);
    if(!d) return "";
    auto* ds = d->Create(path.c_str(), cols, rows, 1, driver[1] == 'T' ? GDT_Float64 : GDT_Float32, nullptr);
    if(!ds) return "";
    std::vector<double> v(size_t(cols * rows), value);
    bool const ok = ds->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, cols, rows, v.data(), cols, rows, GDT_Float64, 0, 0, nullptr) == CE_None;
    GDALClose(ds);
    vsi_l_offset n = 0;
    GByte* p = VSIGetMemFileBuffer(path.c_str(), &n, TRUE);
    std::string bytes(reinterpret_cast<char*>(p), size_t(n));
    VSIFree(p);
    return ok ? bytes : "";
}

void sim::warm_up() {
    setenv("HDF5_USE_FILE_LOCKING", "TRUE", 1);
    CPLSetConfigOption("GDAL_PAM_ENABLED", "NO");
    CPLSetConfigOption("GDAL_NUM_THREADS", "1");
    // Drivers of formats that do not occur here are only asked whether a file
    // is theirs, and some of them judge by uninitialised memory.
    GDALAllRegister();
    std::string skip;
    auto* manager = GetGDALDriverManager();
    for(int i = 0; i < manager->GetDriverCount(); ++i) {
        std::string const name = manager->GetDriver(i)->GetDescription();
        if(name != "GTiff" && name != "GSBG" && name != "MEM" && name != "VRT") skip += (skip.empty() ? "" : ",") + name;
    }
    CPLSetConfigOption("GDAL_SKIP", skip.c_str());
    while(manager->GetDriverCount()) { auto* d = manager->GetDriver(0); manager->DeregisterDriver(d); GDALDestroyDriver(d); }
    standing.reset(new fg::GDALClient);
    CPLSetErrorHandler(CPLQuietErrorHandler);
    int k = 0;
    for(char const* driver : {"GTiff", "GSBG", "GTiff"}) {
        Image i;
        i.extension = driver[1] == 'T' ? ".tif" : ".grd";
        i.cols = 2 + k; i.rows = 3 + k; i.value = 7.5 + k++;
        i.bytes = make_raster(driver, i.extension.c_str(), i.cols, i.rows, i.value);
        if(i.bytes.empty()) fprintf(stderr, "no raster could be made with %s\n", driver);
        else rasters.push_back(i);
    }
    nc_initialize();
    quiet_hdf = reinterpret_cast<int (*)(int64_t, void*, void*)>(dlsym(RTLD_DEFAULT, "H5Eset_auto2"));
    for(int mode : {0, NC_64BIT_OFFSET, NC_NETCDF4}) {
        int nc, dim, id, other, row;
        Image i;
        i.extension = ".nc"; i.value = 3.25 + k++; i.hdf = mode == NC_NETCDF4;
        int e = nc_create_mem("sim.nc", mode, 1024, &nc);
        e += nc_put_att_text(nc, NC_GLOBAL, "Conventions", 6, "COARDS");
        e += nc_def_dim(nc, "x", 3, &dim);
        e += nc_def_var(nc, "mass", NC_DOUBLE, 0, nullptr, &id);
        e += nc_def_var(nc, "age", NC_INT, 0, nullptr, &other);
        e += nc_def_var(nc, "row", NC_DOUBLE, 1, &dim, &row);
        e += nc_enddef(nc);
        e += nc_put_var_double(nc, id, &i.value);
        NC_memio m;
        memset(&m, 0, sizeof m);
        e += nc_close_memio(nc, &m);
        i.bytes.assign(static_cast<char*>(m.memory), m.size);
        free(m.memory);
        if(e) fprintf(stderr, "no NetCDF file could be made\n");
        else tables.push_back(i);
    }
    // First uses, without faults.
    char path[] = "/tmp/fern-sim-XXXXXX";
    int const fd = mkstemp(path);
    if(fd < 0) return;
    close(fd);
    for(auto const* images : {&rasters, &tables})
        for(auto const& i : *images) {
            FILE* f = fopen(path, "wb");
            fwrite(i.bytes.data(), 1, i.bytes.size(), f);
            fclose(f);
            try { if(images == &rasters) fg::gdal_value_type(fern::DataName(path)); else fn::conforms_to_coards(fn::open_dataset(path)); }
            catch(std::exception const& e) { fprintf(stderr, "warm-up: %s\n", e.what()); }
        }
    unlink(path);
    // Whatever is still open hides the ids that the runs are to see first.
    for(int i = 1; i <= 16; ++i) static_cast<void>(nc_close(i << 16));
}

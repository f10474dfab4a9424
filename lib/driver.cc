// Command driver used by the checks in /verif: it exposes the public C++ and C interfaces of the library
// under test (compiled from /repo's working tree) through a line protocol, so that the explorers in
// /verif/checks can enumerate operation sequences against the real code.
//
// Input: one command per line, fields separated by TAB.  "#" alone starts a new script (all objects are
// destroyed, faults cleared).  Output: exactly one line per command:  "OK\tfield\t..." or "EXC\ttype\tmessage".
// The outcome of a command that terminates the process (assert, sanitizer report, signal) is seen by the
// explorer as a missing answer line.

#include "geomodelgrids/serial/Query.hh"
#include "geomodelgrids/serial/Model.hh"
#include "geomodelgrids/serial/ModelInfo.hh"
#include "geomodelgrids/serial/Block.hh"
#include "geomodelgrids/serial/Surface.hh"
#include "geomodelgrids/serial/HDF5.hh"
#include "geomodelgrids/serial/Hyperslab.hh"
#include "geomodelgrids/utils/ErrorHandler.hh"
#include "geomodelgrids/utils/Indexing.hh"
#include "geomodelgrids/utils/CRSTransformer.hh"
#include "geomodelgrids/utils/GeoTiff.hh"
#include "geomodelgrids/utils/constants.hh"
extern "C" {
#include "geomodelgrids/serial/cquery.h"
#include "geomodelgrids/utils/cerrorhandler.h"
}
#include "faults.hh"

#include <csignal>
#include <cxxabi.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include <getopt.h>

using namespace geomodelgrids;

int query_main(int, char**);
int queryelev_main(int, char**);
int borehole_main(int, char**);
int isosurface_main(int, char**);
int info_main(int, char**);

typedef std::vector<std::string> Args;

static std::map<std::string, std::unique_ptr<serial::Query> > g_query;
static std::map<std::string, std::unique_ptr<serial::Model> > g_model;
static std::map<std::string, std::unique_ptr<serial::HDF5> > g_h5;
static std::map<std::string, std::unique_ptr<serial::Block> > g_block;
static std::map<std::string, std::unique_ptr<serial::Surface> > g_surface;
static std::map<std::string, std::unique_ptr<serial::Hyperslab> > g_slab;
static std::map<std::string, std::unique_ptr<utils::Indexing> > g_index;
static std::map<std::string, std::unique_ptr<utils::ErrorHandler> > g_eh;
static std::map<std::string, std::unique_ptr<utils::CRSTransformer> > g_crs;
static std::map<std::string, std::unique_ptr<utils::GeoTiff> > g_tiff;
static std::map<std::string, void*> g_c;
static std::map<std::string, size_t> g_nval;

static std::string g_out;

static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '\n') { r += "\\n"; } else if (c == '\t') { r += "\\t"; } else if (c == '\\') { r += "\\\\"; } else if (c == '\r') { r += "\\r"; } else { r += char(c); }
    }
    return r;
}

static std::string unesc(const std::string& s) {
    if (s.find('\\') == std::string::npos) { return s; }
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\\' && i+1 < s.size()) {
            ++i;
            r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i] == 'r' ? '\r' : s[i];
        } else { r += s[i]; }
    }
    return r;
}

static double num(const std::string& s) {
    if (s == "nan") { return NAN; }
    return strtod(s.c_str(), nullptr);
}

static void put(const std::string& s) { g_out += '\t'; g_out += esc(s); }
static void put(const char* s) { put(std::string(s ? s : "<null>")); }
static void put(double v) { char b[40]; snprintf(b, sizeof(b), "\t%.17g", v); g_out += b; }
static void putI(long v) { char b[40]; snprintf(b, sizeof(b), "\t%ld", v); g_out += b; }
static void putV(const std::vector<std::string>& v) {
    putI(long(v.size()));
    for (auto& s : v) { put(s); }
}
static void putA(const double* v, size_t n) {
    if (!v) { putI(0); return; }
    putI(long(n));
    for (size_t i = 0; i < n; ++i) { put(v[i]); }
}

template<typename T> static T& get(std::map<std::string, std::unique_ptr<T> >& m, const std::string& id) {
    auto it = m.find(id);
    if (it == m.end() || !it->second) { fprintf(stderr, "DRIVER: no object '%s'\n", id.c_str()); _exit(97); }
    return *it->second;
}

static Args list(const Args& a, size_t* pos) {
    Args r;
    const size_t n = size_t(atol(a.at((*pos)++).c_str()));
    for (size_t i = 0; i < n; ++i) { r.push_back(unesc(a.at((*pos)++))); }
    return r;
}

static void clearAll() {
    for (auto& c : g_c) { if (c.second) { geomodelgrids_squery_destroy(&c.second); } }
    g_c.clear();
    g_nval.clear();
    g_query.clear();
    g_model.clear();
    g_block.clear();
    g_surface.clear();
    g_slab.clear();
    g_h5.clear();
    g_index.clear();
    g_eh.clear();
    g_crs.clear();
    g_tiff.clear();
    faults::clear();
}

static void putBlock(const serial::Block& b) {
    put(b.getName());
    const size_t* d = b.getDims();
    putI(long(d[0]));putI(long(d[1]));putI(long(d[2]));putI(long(b.getNumValues()));
    put(b.getResolutionX());put(b.getResolutionY());put(b.getResolutionZ());
    put(b.getZTop());put(b.getZBottom());
    putA(b.getCoordinatesX(), d[0]);putA(b.getCoordinatesY(), d[1]);putA(b.getCoordinatesZ(), d[2]);
}

static void putSurface(const serial::Surface& s) {
    const size_t* d = s.getDims();
    putI(long(d[0]));putI(long(d[1]));
    put(s.getResolutionX());put(s.getResolutionY());
    putA(s.getCoordinatesX(), d[0]);putA(s.getCoordinatesY(), d[1]);
}

static serial::Query::SquashingEnum squashEnum(const std::string& s) {
    if (s == "none") { return serial::Query::SQUASH_NONE; }
    if (s == "top") { return serial::Query::SQUASH_TOP_SURFACE; }
    if (s == "topo") { return serial::Query::SQUASH_TOPOGRAPHY_BATHYMETRY; }
    return serial::Query::SquashingEnum(atoi(s.c_str()));
}

static long g_limit = -1;

static int runApp(const Args& a) {
    // app NAME STDOUT STDERR N args...
    size_t pos = 4;
    Args args = list(a, &pos);
    const std::string name = a.at(1);
    const std::string outf = unesc(a.at(2)), errf = unesc(a.at(3));
    fflush(stdout);
    const pid_t pid = fork();
    if (0 == pid) {
        int o = open(outf.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
        int e = open(errf.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644);
        dup2(o, 1);dup2(e, 2);
        alarm(30);
        if (g_limit < 0) {
            struct rlimit lim = { 64 << 20, 64 << 20 };
            setrlimit(RLIMIT_FSIZE, &lim);
        }
        std::vector<char*> argv;
        const std::string prog = std::string("geomodelgrids_") + name;
        argv.push_back(const_cast<char*>(prog.c_str()));
        for (auto& s : args) { argv.push_back(const_cast<char*>(s.c_str())); }
        argv.push_back(nullptr);
        const int argc = int(argv.size())-1;
        optind = 1;
        int rc = 96;
        if (name == "query") { rc = query_main(argc, argv.data()); }
        if (name == "queryelev") { rc = queryelev_main(argc, argv.data()); }
        if (name == "borehole") { rc = borehole_main(argc, argv.data()); }
        if (name == "isosurface") { rc = isosurface_main(argc, argv.data()); }
        if (name == "info") { rc = info_main(argc, argv.data()); }
        std::cout.flush();
        std::cerr.flush();
        fflush(nullptr);
        _exit(rc);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFEXITED(status)) { return WEXITSTATUS(status); }
    return 1000 + WTERMSIG(status);
}

static void doCommand(const Args& a) {
    const std::string& c = a.at(0);
    const std::string id = a.size() > 1 ? a[1] : "";

    // ---- Query (C++)
    if (c == "q.new") {
        g_query[id] = std::make_unique<serial::Query>();
    } else if (c == "q.del") {
        g_query.erase(id);
    } else if (c == "q.init") { // id crs nm models.. nv values..
        size_t pos = 3;
        const std::string crs = unesc(a.at(2));
        Args models = list(a, &pos);
        Args values = list(a, &pos);
        g_nval[id] = values.size();
        get(g_query, id).initialize(models, values, crs);
    } else if (c == "q.names") {
        putV(get(g_query, id).getValueNames());
    } else if (c == "q.query") { // id x y z (values prefilled with sentinel)
        const size_t n = get(g_query, id).getValueNames().size();
        std::vector<double> v(n+2, 7777.0);
        const int rc = get(g_query, id).query(v.data(), num(a.at(2)), num(a.at(3)), num(a.at(4)));
        putI(rc);
        for (size_t i = 0; i < n; ++i) { put(v[i]); }
        if (v[n] != 7777.0 || v[n+1] != 7777.0) { put("OVERRUN"); }
    } else if (c == "q.qnull") {
        putI(get(g_query, id).query(nullptr, num(a.at(2)), num(a.at(3)), num(a.at(4))));
    } else if (c == "q.top") {
        put(get(g_query, id).queryTopElevation(num(a.at(2)), num(a.at(3))));
    } else if (c == "q.topo") {
        put(get(g_query, id).queryTopoBathyElevation(num(a.at(2)), num(a.at(3))));
    } else if (c == "q.minelev") {
        get(g_query, id).setSquashMinElev(num(a.at(2)));
    } else if (c == "q.squash") {
        get(g_query, id).setSquashing(squashEnum(a.at(2)));
    } else if (c == "q.final") {
        get(g_query, id).finalize();
    } else if (c == "q.err") {
        auto& e = get(g_query, id).getErrorHandler();
        putI(e->getStatus());
        put(e->getMessage());
    } else if (c == "q.reset") {
        get(g_query, id).getErrorHandler()->resetStatus();
    } else if (c == "q.log") {
        get(g_query, id).getErrorHandler()->setLogFilename(unesc(a.at(2)).c_str());

        // ---- Query (C)
    } else if (c == "c.new") {
        g_c[id] = geomodelgrids_squery_create();
    } else if (c == "c.del") {
        geomodelgrids_squery_destroy(&g_c[id]);
        putI(g_c[id] == nullptr);
        g_c.erase(id);
    } else if (c == "c.init") {
        size_t pos = 3;
        const std::string crs = unesc(a.at(2));
        Args models = list(a, &pos);
        Args values = list(a, &pos);
        std::vector<const char*> m, v;
        for (auto& s : models) { m.push_back(s.c_str()); }
        for (auto& s : values) { v.push_back(s.c_str()); }
        g_nval[id] = values.size();
        putI(geomodelgrids_squery_initialize(g_c[id], m.data(), int(m.size()), v.data(), int(v.size()), crs.c_str()));
    } else if (c == "c.query") {
        const size_t n = g_nval[id];
        std::vector<double> v(n+2, 7777.0);
        const int rc = geomodelgrids_squery_query(g_c[id], v.data(), num(a.at(2)), num(a.at(3)), num(a.at(4)));
        putI(rc);
        for (size_t i = 0; i < n; ++i) { put(v[i]); }
        if (v[n] != 7777.0 || v[n+1] != 7777.0) { put("OVERRUN"); }
    } else if (c == "c.qnull") {
        putI(geomodelgrids_squery_query(g_c[id], nullptr, num(a.at(2)), num(a.at(3)), num(a.at(4))));
    } else if (c == "c.top") {
        put(geomodelgrids_squery_queryTopElevation(g_c[id], num(a.at(2)), num(a.at(3))));
    } else if (c == "c.topo") {
        put(geomodelgrids_squery_queryTopoBathyElevation(g_c[id], num(a.at(2)), num(a.at(3))));
    } else if (c == "c.minelev") {
        putI(geomodelgrids_squery_setSquashMinElev(g_c[id], num(a.at(2))));
    } else if (c == "c.squash") {
        const std::string& s = a.at(2);
        const int v = s == "none" ? GEOMODELGRIDS_SQUASH_NONE : s == "top" ? GEOMODELGRIDS_SQUASH_TOP_SURFACE :
                      s == "topo" ? GEOMODELGRIDS_SQUASH_TOPOGRAPHY_BATHYMETRY : atoi(s.c_str());
        putI(geomodelgrids_squery_setSquashing(g_c[id], v));
    } else if (c == "c.final") {
        putI(geomodelgrids_squery_finalize(g_c[id]));
    } else if (c == "c.err") {
        void* e = geomodelgrids_squery_getErrorHandler(g_c[id]);
        putI(geomodelgrids_cerrorhandler_getStatus(e));
        put(geomodelgrids_cerrorhandler_getMessage(e));
    } else if (c == "c.reset") {
        geomodelgrids_cerrorhandler_resetStatus(geomodelgrids_squery_getErrorHandler(g_c[id]));
    } else if (c == "c.log") {
        geomodelgrids_cerrorhandler_setLogFilename(geomodelgrids_squery_getErrorHandler(g_c[id]), unesc(a.at(2)).c_str());
    } else if (c == "c.logname") {
        put(geomodelgrids_cerrorhandler_getLogFilename(geomodelgrids_squery_getErrorHandler(g_c[id])));
    } else if (c == "c.logon") {
        geomodelgrids_cerrorhandler_setLoggingOn(geomodelgrids_squery_getErrorHandler(g_c[id]), atoi(a.at(2).c_str()));
    } else if (c == "c.null") { // every C entry point with a NULL handle
        double v[4] = {1, 2, 3, 4};
        const char* names[1] = {"x"};
        putI(geomodelgrids_squery_initialize(nullptr, names, 1, names, 1, "EPSG:4326"));
        putI(geomodelgrids_squery_setSquashMinElev(nullptr, 1.0));
        putI(geomodelgrids_squery_setSquashing(nullptr, 0));
        putI(geomodelgrids_squery_query(nullptr, v, 0, 0, 0));
        putI(geomodelgrids_squery_finalize(nullptr));
        put(geomodelgrids_squery_queryTopElevation(nullptr, 0, 0));
        put(geomodelgrids_squery_queryTopoBathyElevation(nullptr, 0, 0));
        putI(geomodelgrids_squery_getErrorHandler(nullptr) == nullptr);
        geomodelgrids_squery_destroy(nullptr);
        void* np = nullptr;
        geomodelgrids_squery_destroy(&np);

        // ---- Model
    } else if (c == "m.new") {
        g_model[id] = std::make_unique<serial::Model>();
    } else if (c == "m.del") {
        g_model.erase(id);
    } else if (c == "m.crs") {
        get(g_model, id).setInputCRS(unesc(a.at(2)));
    } else if (c == "m.open") {
        get(g_model, id).open(unesc(a.at(2)).c_str(), serial::Model::READ);
    } else if (c == "m.load") {
        get(g_model, id).loadMetadata();
    } else if (c == "m.init") {
        get(g_model, id).initialize();
    } else if (c == "m.close") {
        get(g_model, id).close();
    } else if (c == "m.contains") {
        putI(get(g_model, id).contains(num(a.at(2)), num(a.at(3)), num(a.at(4))));
    } else if (c == "m.query") {
        const double* v = get(g_model, id).query(num(a.at(2)), num(a.at(3)), num(a.at(4)));
        const size_t n = get(g_model, id).getBlocks().at(0)->getNumValues();
        putA(v, n);
    } else if (c == "m.top") {
        put(get(g_model, id).queryTopElevation(num(a.at(2)), num(a.at(3))));
    } else if (c == "m.topo") {
        put(get(g_model, id).queryTopoBathyElevation(num(a.at(2)), num(a.at(3))));
    } else if (c == "m.meta") {
        const serial::Model& m = get(g_model, id);
        putV(m.getValueNames());
        putV(m.getValueUnits());
        putI(m.getDataLayout());
        putA(m.getDims(), 3);
        putA(m.getOrigin(), 2);
        put(m.getYAzimuth());
        put(m.getCRSString());
    } else if (c == "m.info") {
        auto& i = get(g_model, id).getInfo();
        if (!i) { put("<noinfo>"); } else {
            put(i->getTitle());put(i->getId());put(i->getDescription());putV(i->getKeywords());put(i->getHistory());
            put(i->getComment());put(i->getCreatorName());put(i->getCreatorInstitution());put(i->getCreatorEmail());
            put(i->getAcknowledgement());putV(i->getAuthors());putV(i->getReferences());put(i->getRepositoryName());
            put(i->getRepositoryURL());put(i->getRepositoryDOI());put(i->getVersion());put(i->getLicense());put(i->getAuxiliary());
        }
    } else if (c == "m.blocks") {
        auto& b = get(g_model, id).getBlocks();
        putI(long(b.size()));
        for (auto& p : b) { if (p) { putBlock(*p); } else { put("<null>"); } }
    } else if (c == "m.surfaces") {
        auto& t = get(g_model, id).getTopSurface();
        auto& g = get(g_model, id).getTopoBathy();
        putI(t ? 1 : 0);if (t) { putSurface(*t); }
        putI(g ? 1 : 0);if (g) { putSurface(*g); }

        // ---- HDF5, Block, Surface, Hyperslab
    } else if (c == "h.new") {
        g_h5[id] = std::make_unique<serial::HDF5>();
    } else if (c == "h.open") {
        get(g_h5, id).open(unesc(a.at(2)).c_str(), H5F_ACC_RDONLY);
    } else if (c == "h.cache") {
        get(g_h5, id).setCache(size_t(atol(a.at(2).c_str())), size_t(atol(a.at(3).c_str())), num(a.at(4)));
    } else if (c == "h.close") {
        get(g_h5, id).close();
    } else if (c == "h.isopen") {
        putI(get(g_h5, id).isOpen());
    } else if (c == "h.group") {
        putI(get(g_h5, id).hasGroup(a.at(2).c_str()));
    } else if (c == "h.dataset") {
        putI(get(g_h5, id).hasDataset(a.at(2).c_str()));
    } else if (c == "h.attr") {
        putI(get(g_h5, id).hasAttribute(a.at(2).c_str(), a.at(3).c_str()));
    } else if (c == "h.dims") {
        hsize_t* d = nullptr;int n = 0;
        get(g_h5, id).getDatasetDims(&d, &n, a.at(2).c_str());
        putI(n);
        for (int i = 0; i < n; ++i) { putI(long(d[i])); }
        delete[] d;
    } else if (c == "h.list") {
        std::vector<std::string> v;
        get(g_h5, id).getGroupDatasets(&v, a.at(2).c_str());
        putV(v);
    } else if (c == "h.rdbl") {
        double v = 0;
        get(g_h5, id).readAttribute(a.at(2).c_str(), a.at(3).c_str(), H5T_NATIVE_DOUBLE, (void*)&v);
        put(v);
    } else if (c == "h.rvec") {
        double* v = nullptr;size_t n = 0;
        get(g_h5, id).readAttribute(a.at(2).c_str(), a.at(3).c_str(), H5T_NATIVE_DOUBLE, (void**)&v, &n);
        putA(v, n);
        delete[] (char*)v;
    } else if (c == "h.rstr") {
        put(get(g_h5, id).readAttribute(a.at(2).c_str(), a.at(3).c_str()));
    } else if (c == "h.rstrs") {
        std::vector<std::string> v;
        get(g_h5, id).readAttribute(a.at(2).c_str(), a.at(3).c_str(), &v);
        putV(v);
    } else if (c == "h.slab") { // id path ndims origin.. dims..
        const size_t nd = size_t(atol(a.at(3).c_str()));
        std::vector<hsize_t> o, d;
        size_t tot = 1;
        for (size_t i = 0; i < nd; ++i) { o.push_back(hsize_t(atoll(a.at(4+i).c_str()))); }
        for (size_t i = 0; i < nd; ++i) { d.push_back(hsize_t(atoll(a.at(4+nd+i).c_str())));tot *= d.back(); }
        std::vector<double> v(tot, 7777.0);
        get(g_h5, id).readDatasetHyperslab(v.data(), a.at(2).c_str(), o.data(), d.data(), int(nd), H5T_NATIVE_DOUBLE);
        putA(v.data(), tot);
    } else if (c == "b.new") {
        g_block[id] = std::make_unique<serial::Block>(a.at(2).c_str());
    } else if (c == "b.load") {
        get(g_block, id).loadMetadata(&get(g_h5, a.at(2)));
    } else if (c == "b.slab") {
        std::vector<size_t> d;
        for (size_t i = 2; i < a.size(); ++i) { d.push_back(size_t(atol(a[i].c_str()))); }
        get(g_block, id).setHyperslabDims(d.data(), d.size());
    } else if (c == "b.open") {
        get(g_block, id).openQuery(&get(g_h5, a.at(2)));
    } else if (c == "b.query") {
        serial::Block& b = get(g_block, id);
        const double* v = b.query(num(a.at(2)), num(a.at(3)), num(a.at(4)));
        putA(v, b.getNumValues());
    } else if (c == "b.close") {
        get(g_block, id).closeQuery();
    } else if (c == "b.meta") {
        putBlock(get(g_block, id));
    } else if (c == "s.new") {
        g_surface[id] = std::make_unique<serial::Surface>(a.at(2).c_str());
    } else if (c == "s.load") {
        get(g_surface, id).loadMetadata(&get(g_h5, a.at(2)));
    } else if (c == "s.slab") {
        std::vector<size_t> d;
        for (size_t i = 2; i < a.size(); ++i) { d.push_back(size_t(atol(a[i].c_str()))); }
        get(g_surface, id).setHyperslabDims(d.data(), d.size());
    } else if (c == "s.open") {
        get(g_surface, id).openQuery(&get(g_h5, a.at(2)));
    } else if (c == "s.query") {
        put(get(g_surface, id).query(num(a.at(2)), num(a.at(3))));
    } else if (c == "s.close") {
        get(g_surface, id).closeQuery();
    } else if (c == "hs.new") { // id h5 path dims..
        std::vector<hsize_t> d;
        for (size_t i = 4; i < a.size(); ++i) { d.push_back(hsize_t(atoll(a[i].c_str()))); }
        g_slab[id] = std::make_unique<serial::Hyperslab>(&get(g_h5, a.at(2)), a.at(3).c_str(), d.data(), d.size());
    } else if (c == "hs.interp" || c == "hs.nearest") { // id nv idx..
        const size_t n = size_t(atol(a.at(2).c_str()));
        std::vector<double> v(n+1, 7777.0), ix;
        for (size_t i = 3; i < a.size(); ++i) { ix.push_back(num(a[i])); }
        ix.shrink_to_fit();
        if (c == "hs.interp") { get(g_slab, id).interpolate(v.data(), ix.data()); } else { get(g_slab, id).nearest(v.data(), ix.data()); }
        putA(v.data(), n);
        if (v[n] != 7777.0) { put("OVERRUN"); }

        // ---- Indexing
    } else if (c == "ix.u") {
        g_index[id] = std::make_unique<utils::IndexingUniform>(num(a.at(2)));
    } else if (c == "ix.v") { // id A|D x...
        std::vector<double> x;
        for (size_t i = 3; i < a.size(); ++i) { x.push_back(num(a[i])); }
        g_index[id] = std::make_unique<utils::IndexingVariable>(x.empty() ? nullptr : x.data(), x.size(),
                                                                a.at(2) == "A" ? utils::IndexingVariable::ASCENDING : utils::IndexingVariable::DESCENDING);
    } else if (c == "ix.get") {
        put(get(g_index, id).getIndex(num(a.at(2))));

        // ---- ErrorHandler
    } else if (c == "e.new") {
        g_eh[id] = std::make_unique<utils::ErrorHandler>();
    } else if (c == "e.del") {
        g_eh.erase(id);
    } else if (c == "e.log") {
        get(g_eh, id).setLogFilename(unesc(a.at(2)).c_str());
    } else if (c == "e.logname") {
        put(get(g_eh, id).getLogFilename());
    } else if (c == "e.logon") {
        get(g_eh, id).setLoggingOn(atoi(a.at(2).c_str()) != 0);
    } else if (c == "e.reset") {
        get(g_eh, id).resetStatus();
    } else if (c == "e.get") {
        putI(get(g_eh, id).getStatus());
        put(get(g_eh, id).getMessage());
    } else if (c == "e.error") {
        get(g_eh, id).setError(unesc(a.at(2)).c_str());
    } else if (c == "e.warning") {
        get(g_eh, id).setWarning(unesc(a.at(2)).c_str());
    } else if (c == "e.message") {
        get(g_eh, id).logMessage(unesc(a.at(2)).c_str());
    } else if (c == "e.c") { // the same object through the C interface: e.c id op [arg]
        void* h = (void*)&get(g_eh, id);
        const std::string& op = a.at(2);
        if (op == "log") { geomodelgrids_cerrorhandler_setLogFilename(h, unesc(a.at(3)).c_str()); }
        else if (op == "logname") { put(geomodelgrids_cerrorhandler_getLogFilename(h)); }
        else if (op == "logon") { geomodelgrids_cerrorhandler_setLoggingOn(h, atoi(a.at(3).c_str())); }
        else if (op == "reset") { geomodelgrids_cerrorhandler_resetStatus(h); }
        else if (op == "get") { putI(geomodelgrids_cerrorhandler_getStatus(h));put(geomodelgrids_cerrorhandler_getMessage(h)); }

        // ---- CRS
    } else if (c == "t.new") {
        g_crs[id] = std::make_unique<utils::CRSTransformer>();
        if (a.size() > 2) { g_crs[id]->setSrc(unesc(a.at(2)).c_str()); }
        if (a.size() > 3) { g_crs[id]->setDest(unesc(a.at(3)).c_str()); }
        g_crs[id]->initialize();
    } else if (c == "t.reinit") {
        get(g_crs, id).setSrc(unesc(a.at(2)).c_str());
        get(g_crs, id).setDest(unesc(a.at(3)).c_str());
        get(g_crs, id).initialize();
    } else if (c == "t.raw") {
        g_crs[id] = std::make_unique<utils::CRSTransformer>();
    } else if (c == "t.src") {
        get(g_crs, id).setSrc(unesc(a.at(2)).c_str());
    } else if (c == "t.dest") {
        get(g_crs, id).setDest(unesc(a.at(2)).c_str());
    } else if (c == "t.init") {
        get(g_crs, id).initialize();
    } else if (c == "t.xy") {
        g_crs[id].reset(utils::CRSTransformer::createGeoToXYAxisOrder(unesc(a.at(2)).c_str()));
    } else if (c == "t.fwd" || c == "t.inv" || c == "t.fwd2" || c == "t.inv2") {
        double x = 7777, y = 7777, z = 7777;
        double* pz = c.size() == 5 ? &z : nullptr;
        (void)pz;
        const bool two = c.size() == 6;
        const double X = num(a.at(2)), Y = num(a.at(3)), Z = num(a.at(4));
        if (c[2] == 'f') { get(g_crs, id).transform(&x, &y, two ? nullptr : &z, X, Y, Z); }
        else { get(g_crs, id).inverse_transform(&x, &y, two ? nullptr : &z, X, Y, Z); }
        put(x);put(y);put(z);
    } else if (c == "t.units") {
        std::string x, y, z;
        const std::string want = a.size() > 2 ? a[2] : "xyz"; // which units to ask for
        const auto p = [&](std::string& s, char ch) { return want.find(ch) == std::string::npos ? nullptr : &s; };
        utils::CRSTransformer::getCRSUnits(p(x, 'x'), p(y, 'y'), p(z, 'z'), unesc(a.at(1)).c_str());
        put(x);put(y);put(z);

        // ---- GeoTiff
    } else if (c == "g.new") {
        g_tiff[id] = std::make_unique<utils::GeoTiff>();
    } else if (c == "g.del") {
        g_tiff.erase(id);
    } else if (c == "g.size") { // rows cols bands
        utils::GeoTiff& g = get(g_tiff, id);
        g.setNumRows(size_t(atol(a.at(2).c_str())));g.setNumCols(size_t(atol(a.at(3).c_str())));g.setNumBands(size_t(atol(a.at(4).c_str())));
    } else if (c == "g.labels") {
        size_t pos = 2;
        get(g_tiff, id).setBandLabels(list(a, &pos));
    } else if (c == "g.crs") {
        get(g_tiff, id).setCRS(unesc(a.at(2)).c_str());
    } else if (c == "g.bbox") {
        get(g_tiff, id).setBBox(num(a.at(2)), num(a.at(3)), num(a.at(4)), num(a.at(5)));
    } else if (c == "g.nodata") {
        get(g_tiff, id).setNoDataValue(float(num(a.at(2))));
    } else if (c == "g.create") {
        get(g_tiff, id).create(unesc(a.at(2)).c_str());
    } else if (c == "g.fill") { // start value; band buffer filled with start + i
        utils::GeoTiff& g = get(g_tiff, id);
        float* b = g.getBands();
        const size_t n = g.getNumRows() * g.getNumCols() * g.getNumBands();
        if (!b) { put("<null>"); } else { for (size_t i = 0; i < n; ++i) { b[i] = float(num(a.at(2)) + double(i)); } putI(long(n)); }
    } else if (c == "g.write") {
        get(g_tiff, id).write();
    } else if (c == "g.read") {
        get(g_tiff, id).read(unesc(a.at(2)).c_str());
    } else if (c == "g.close") {
        get(g_tiff, id).close();
    } else if (c == "g.get") {
        utils::GeoTiff& g = get(g_tiff, id);
        const size_t n = g.getNumRows() * g.getNumCols() * g.getNumBands();
        putI(long(g.getNumRows()));putI(long(g.getNumCols()));putI(long(g.getNumBands()));
        putV(g.getBandLabels());
        put(g.getCRS());
        double x0, x1, y0, y1;
        g.getBBox(&x0, &x1, &y0, &y1);
        put(x0);put(x1);put(y0);put(y1);
        float* b = g.getBands();
        if (!b) { putI(0); } else { putI(long(n));for (size_t i = 0; i < n; ++i) { put(double(b[i])); } }

        // ---- applications, faults
    } else if (c == "app") {
        putI(runApp(a));
    } else if (c == "f.set") { // name nth (1-based, from now) persistent(0/1)
        faults::set(a.at(1), atol(a.at(2).c_str()), a.size() > 3 && a[3] == "1");
    } else if (c == "f.clear") {
        faults::clear();
    } else if (c == "f.count") { // counts since the last f.zero
        putI(long(faults::counts().size()));
        for (auto& p : faults::counts()) { put(p.first);putI(p.second); }
        putI(faults::fired());
    } else if (c == "f.zero") {
        faults::zero();
    } else if (c == "x.read") {
        FILE* f = fopen(unesc(a.at(1)).c_str(), "rb");
        if (!f) { put("<nofile>"); } else {
            std::string t;
            char b[4096];
            size_t n;
            while ((n = fread(b, 1, sizeof(b), f)) > 0) { t.append(b, n); }
            fclose(f);
            put(t);
        }
    } else if (c == "x.rm") {
        putI(unlink(unesc(a.at(1)).c_str()));
    } else if (c == "echo") {
        for (size_t i = 1; i < a.size(); ++i) { put(a[i]); }
    } else {
        fprintf(stderr, "DRIVER: unknown command '%s'\n", c.c_str());
        _exit(97);
    }
}

static std::string tname(const std::exception& e) {
    int st = 0;
    char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string r = d ? d : typeid(e).name();
    free(d);
    return r;
}

int main(int argc, char** argv) {
    std::ios::sync_with_stdio(false);
    // Answers go to the original stdout; the code under test gets stderr as its stdout.
    const int fd = dup(1);
    dup2(2, 1);
    FILE* ans = fdopen(fd, "w");
    const bool interactive = argc > 1 && 0 == strcmp(argv[1], "-i");
    std::string line;
    while (std::getline(std::cin, line)) {
        Args a;
        size_t p = 0;
        while (true) {
            const size_t q = line.find('\t', p);
            if (q == std::string::npos) { a.push_back(line.substr(p));break; }
            a.push_back(line.substr(p, q-p));
            p = q+1;
        }
        if (a[0] == "#") {
            g_out = "OK";
            // a failing destructor is reported like any other outcome
            try { clearAll(); } catch (const std::exception& e) { g_out = "EXC\t" + tname(e) + "\t" + esc(e.what()); }
        } else {
            if (a[0] == "app") { fflush(ans); }
            g_out = "OK";
            // lim N COMMAND...: files may not grow beyond N bytes while the command runs (a full disk)
            g_limit = -1;
            struct rlimit saved;
            if (a[0] == "lim") {
                g_limit = atol(a.at(1).c_str());
                a.erase(a.begin(), a.begin()+2);
                fflush(ans);
                signal(SIGXFSZ, SIG_IGN);
                getrlimit(RLIMIT_FSIZE, &saved);
                struct rlimit lim = { rlim_t(g_limit), saved.rlim_max };
                setrlimit(RLIMIT_FSIZE, &lim);
            }
            try {
                doCommand(a);
            } catch (const std::out_of_range& e) {
                g_out = std::string("EXC\tstd::out_of_range\t") + esc(e.what());
            } catch (const std::exception& e) {
                g_out = "EXC\t" + tname(e) + "\t" + esc(e.what());
            } catch (...) {
                g_out = "EXC\t?\tunknown exception";
            }
            if (g_limit >= 0) {
                setrlimit(RLIMIT_FSIZE, &saved);
                signal(SIGXFSZ, SIG_DFL);
            }
        }
        g_out += '\n';
        fwrite(g_out.data(), 1, g_out.size(), ans);
        if (interactive || true) { fflush(ans); }
    }
    fflush(ans);
    try { clearAll(); } catch (...) {}
    fflush(nullptr);
    _exit(0);
}

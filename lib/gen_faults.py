"""Generate faults.cc: --wrap wrappers for the HDF5 calls whose failure the checks inject."""
# name -> (return type, parameter types, failing value)
FN = {
    "H5Fopen": ("hid_t", ["const char*", "unsigned", "hid_t"], "-1"),
    "H5Dopen2": ("hid_t", ["hid_t", "const char*", "hid_t"], "-1"),
    "H5Dget_space": ("hid_t", ["hid_t"], "-1"),
    "H5Dread": ("herr_t", ["hid_t", "hid_t", "hid_t", "hid_t", "hid_t", "void*"], "-1"),
    "H5Screate_simple": ("hid_t", ["int", "const hsize_t*", "const hsize_t*"], "-1"),
    "H5Sselect_hyperslab": ("herr_t", ["hid_t", "H5S_seloper_t", "const hsize_t*", "const hsize_t*", "const hsize_t*", "const hsize_t*"], "-1"),
    "H5Aopen_by_name": ("hid_t", ["hid_t", "const char*", "const char*", "hid_t", "hid_t"], "-1"),
    "H5Aread": ("herr_t", ["hid_t", "hid_t", "void*"], "-1"),
    "H5Aget_type": ("hid_t", ["hid_t"], "-1"),
    "H5Aget_space": ("hid_t", ["hid_t"], "-1"),
    "H5Lexists": ("htri_t", ["hid_t", "const char*", "hid_t"], "-1"),
    "H5Oopen": ("hid_t", ["hid_t", "const char*", "hid_t"], "-1"),
    "H5Oget_info": ("herr_t", ["hid_t", "H5O_info_t*"], "-1"),
    "H5Gget_info": ("herr_t", ["hid_t", "H5G_info_t*"], "-1"),
    "H5Lget_name_by_idx": ("ssize_t", ["hid_t", "const char*", "H5_index_t", "H5_iter_order_t", "hsize_t", "char*", "size_t", "hid_t"], "-1"),
    "H5Aexists_by_name": ("htri_t", ["hid_t", "const char*", "const char*", "hid_t"], "-1"),
    "H5Gopen2": ("hid_t", ["hid_t", "const char*", "hid_t"], "-1"),
}

def main(out):
    s = ['#include "faults.hh"', "#include <hdf5.h>",
         "namespace faults {",
         "static std::map<std::string,long> g_count; static std::string g_name; static long g_left=0; static bool g_pers=false; static long g_fired=0;",
         "void set(const std::string& n,long k,bool p){g_name=n;g_left=k;g_pers=p;}",
         "void clear(){g_name.clear();g_left=0;g_pers=false;g_fired=0;}",
         "void zero(){g_count.clear();g_fired=0;}",
         "long fired(){return g_fired;}",
         "const std::map<std::string,long>& counts(){return g_count;}",
         "static bool hit(const char* n){ ++g_count[n]; if(g_name.empty()||(g_name!=n&&g_name!=\"*\")||g_left<=0) return false;"
         " if(--g_left>0) return false; ++g_fired; if(g_pers) g_left=1; return true; }",
         "}"]
    for n, (r, ps, bad) in FN.items():
        decl = ", ".join(f"{t} a{i}" for i, t in enumerate(ps))
        call = ", ".join(f"a{i}" for i in range(len(ps)))
        s.append(f'extern "C" {r} __real_{n}({decl});')
        s.append(f'extern "C" {r} __wrap_{n}({decl}) {{ if (faults::hit("{n}")) return {bad}; return __real_{n}({call}); }}')
    open(out, "w").write("\n".join(s) + "\n")

WRAPFLAGS = " ".join(f"-Wl,--wrap={n}" for n in FN)

if __name__ == "__main__":
    import sys
    main(sys.argv[1])

// Fault injection at the HDF5 boundary (link-time --wrap of the calls made by the code under test).
#pragma once
#include <map>
#include <string>
namespace faults {
void set(const std::string& name, long nth, bool persistent);
void clear();
void zero();
long fired();
const std::map<std::string, long>& counts();
}

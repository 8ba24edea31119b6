// Simulated disk: files under /simdisk/ live in memory, and every call on them
// is a point at which the simulator may inject a fault.  The C library's file
// functions are interposed; other paths go to the real ones.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace simfs {

static char const* const PREFIX = "/simdisk/";

void reset();                                        // An empty disk, nothing open.
void put(std::string const& path, std::string const& bytes);
void make_directory(std::string const& path);
void forbid(std::string const& path, int error);     // Looking it up fails like this.
void remove(std::string const& path);
void heal();                                         // Bad sectors and truncations are undone.

int open_handles();
std::string open_names();
uint64_t calls();                                    // Calls on the disk since reset().
uint64_t reads();
uint64_t bytes_read();
uint64_t failed();                                   // Calls made to fail since reset().
uint64_t errors(std::string const& path);            // Calls on this file that failed with an error.
uint64_t interrupts(std::string const& path);        // Reads of it that were interrupted.
void spare(std::string const& path);                 // No faults on this file.
bool truncated(std::string const& path, uint64_t* size);  // By an injected fault.
struct Hole { std::string path; uint64_t from, to; };
std::vector<Hole> const& holes();                    // What short reads did not deliver.

} // namespace simfs

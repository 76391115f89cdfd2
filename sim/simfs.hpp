// Simulated disk: files live in memory, writes can fail, be short or be cut off by a crash of the writing process.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace simfs {
extern bool active;              // relative paths belong to the simulated disk
extern unsigned short_ppm;       // per write: fewer bytes than asked for
extern long crashAt;             // crash the calling process at the n-th step of its disk activity from now on (-1: never)
extern long fullAfter;           // the disk is full after that many more bytes (-1: never)
extern long failOpen;            // the n-th open for writing fails (-1: never)
extern std::function<void()> onCrash; // does not return
extern bool hit;                 // a fault occurred
void reset();                    // an empty disk without faults
bool exists(const std::string &path);
std::vector<unsigned char> content(const std::string &path);
void put(const std::string &path, const std::vector<unsigned char> &data);
std::vector<std::string> list();
} // namespace simfs

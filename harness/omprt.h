#pragma once
#include <vector>
#include <string>
#include <algorithm>
// The stand-in OpenMP runtime: threads of a region, the choices at its scheduling points, whether its events are kept.
void omprt_set(int threads, const std::vector<unsigned>& choices, bool log);
long omprt_moves();
std::vector<std::string> omprt_events();
bool omprt_active();
extern "C" int omprt_reports;

// One observation of the library, made by each instruction-set build.
#pragma once
#include <string>
#include <vector>
struct P04Job
{
  std::string text;
  unsigned sw = 0;
  std::vector<size_t> cuts;
  bool typed = false;
  std::vector<std::string> strings; // to serialize
};
struct P04Build
{
  const char *name;
  std::string (*run)(const P04Job &);
};

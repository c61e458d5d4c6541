// Runs the real program.
#pragma once
#include "api.hpp"
#include <map>
namespace prog {
using std::string; using std::vector;
struct Run { int status = 0; bool have = false; string out, console; bool ok() const { return status == 0; } };   // status: exit status, 1000 + signal
// runs groot in a private current directory; the output is read from outFile and removed
Run run(const vector<string> &args, const string &outFile, const std::map<string, string> &env = {}, bool keep = false);
string dir();                                              // private directory of this process (ends with '/')
void put(const string &path, const string &text); string get(const string &path); bool exists(const string &path); void del(const string &path);
}

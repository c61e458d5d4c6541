// Access to the code under test, through its public driver interface only.
#pragma once
#include <nlohmann/json.hpp>
#include <set>
#include <string>
#include <vector>
namespace api {
using json = nlohmann::json; using std::string; using std::vector; using std::set;
struct Out { vector<json> list; set<json> items; string problem; vector<long> ecs; string raw; };
// sets the context from <dir>/<files of metadata>, runs the jobs (a null json = default job) and reads the report
Out runTool(const json &metadata, const string &dir, const vector<json> &jobs, bool lint = false, const string &cwd = "");
// as runTool with the lint option, in a private current directory; the text of lint.json as the program leaves it
Out runLint(const json &metadata, const string &dir, const vector<json> &jobs, string &lintText);
void scratchInit(); const string &scratch(); // private directory, removed at exit of the creating process
string fileFor(const string &text);          // name (below scratch) of a file with this content
}

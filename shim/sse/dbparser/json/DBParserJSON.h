// Stand-in for the JSON database parser: calls back with the (keyword, documents) pairs that the harness provides for the path.
#pragma once
#include <functional>
#include <list>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace sse {
namespace dbparser {
namespace model {
using Index = std::vector<std::pair<std::string, std::list<unsigned>>>;
inline std::map<std::string, Index>& indexes() { static std::map<std::string, Index> m; return m; }
inline std::map<std::string, bool>& malformed() { static std::map<std::string, bool> m; return m; } // (found at the end of the file)
}
class DBParserJSON
{
public:
    explicit DBParserJSON(const std::string& f) : f_(f) {}
    explicit DBParserJSON(const char* f) : f_(f) {}
    void addCallbackList(std::function<void(std::string, std::list<unsigned>)> cb) { l_.push_back(std::move(cb)); }
    void addCallbackPair(std::function<void(std::string, unsigned)> cb) { p_.push_back(std::move(cb)); }
    void parse()
    {
        auto it = model::indexes().find(f_);
        if (it == model::indexes().end()) throw std::runtime_error("cannot open " + f_);
        for (const auto& e : it->second) {
            for (const auto& cb : l_) cb(e.first, e.second);
            for (unsigned d : e.second)
                for (const auto& cb : p_) cb(e.first, d);
        }
        if (model::malformed()[f_]) throw std::runtime_error("malformed " + f_);
    }
private:
    std::string f_;
    std::vector<std::function<void(std::string, std::list<unsigned>)>> l_;
    std::vector<std::function<void(std::string, unsigned)>> p_;
};
} // namespace dbparser
} // namespace sse

// A stand-in for the part of the ROS interface the option parser uses: named parameters which override the configuration files.
#ifndef VERIF_ROSMOCK_H
#define VERIF_ROSMOCK_H
#include <map>
#include <string>
#include <variant>
#include <vector>
namespace ros {
class NodeHandle {
public:
  typedef std::variant<bool, int, double, std::string, std::vector<double>, std::vector<int>> Value;
  std::map<std::string, Value> params;
  mutable std::map<std::string, int> asked;
  template <class T> bool getParam(const std::string &name, T &v) const {
    asked[name]++;
    auto it = params.find(name);
    if (it == params.end() || !std::holds_alternative<T>(it->second))
      return false;
    v = std::get<T>(it->second);
    return true;
  }
  template <class T> T param(const std::string &name, const T &dflt) const {
    T v = dflt;
    getParam(name, v);
    return v;
  }
};
} // namespace ros
#endif

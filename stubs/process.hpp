// Declaration-only stand-in for tiny-process-library's process.hpp (the library
// is not installed here).  Same public interface as eidheim/tiny-process-library
// v2.0.4 as far as buildcc uses it.  Used only to parse execute.cpp.
#ifndef TINY_PROCESS_LIBRARY_HPP_
#define TINY_PROCESS_LIBRARY_HPP_
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <unordered_map>
#include <vector>
namespace TinyProcessLib {
struct Config {
  std::size_t buffer_size = 131072;
  bool inherit_file_descriptors = false;
};
class Process {
public:
  typedef int id_type;
  typedef std::string string_type;
  Process(const string_type &command, const string_type &path = string_type(),
          std::function<void(const char *bytes, size_t n)> read_stdout = nullptr,
          std::function<void(const char *bytes, size_t n)> read_stderr = nullptr,
          bool open_stdin = false, const Config &config = {}) noexcept;
  ~Process() noexcept;
  id_type get_id() const noexcept;
  int get_exit_status() noexcept;
  bool try_get_exit_status(int &exit_status) noexcept;
};
} // namespace TinyProcessLib
#endif

/* Declaration-only stand-in for mio (not available offline); parsed, never linked. */
#pragma once
#include <string>
#include <system_error>
#include <cstddef>
namespace mio {
class mmap_source {
public:
  mmap_source() = default;
  mmap_source(const std::string&);
  mmap_source(mmap_source&&);
  mmap_source& operator=(mmap_source&&);
  bool is_open() const noexcept; bool is_mapped() const noexcept; bool empty() const noexcept;
  std::size_t size() const noexcept; std::size_t length() const noexcept; std::size_t mapped_length() const noexcept;
  const char* data() const noexcept; const char* begin() const noexcept; const char* end() const noexcept;
  const char* cbegin() const noexcept; const char* cend() const noexcept;
  const char& operator[](std::size_t) const noexcept;
  void map(const std::string&, std::error_code&);
  void unmap();
};
template <class S> mmap_source make_mmap_source(const S&, std::error_code&);
template <class S> mmap_source make_mmap_source(const S&, std::size_t, std::size_t, std::error_code&);
}

#pragma once
// stand-in for the absent HighFive headers: enough to type-check hdf5.hpp; nothing is executed
#include <string>
#include <vector>
namespace HighFive {
  struct FileAccessProps { template <class T> void add(const T&) {} };
  struct DataTransferProps { template <class T> void add(const T&) {} };
  struct DataSpace { std::vector<size_t> d; DataSpace() = default; explicit DataSpace(const std::vector<size_t>& v) : d(v) {} template <class... T> explicit DataSpace(T&&...) {} };
  template <class T> struct AtomicType {};
  struct DataSet { template <class... T> void write_raw(T&&...) {} DataSet select(const std::vector<size_t>&, const std::vector<size_t>&) { return {}; } template <class T> void write(const T&) {} };
  struct File { enum { Overwrite = 1, ReadOnly = 2 }; template <class... T> explicit File(T&&...) {} template <class T, class... A> DataSet createDataSet(A&&...) { return {}; } template <class... A> DataSet createDataSet(A&&...) { return {}; } template <class... T> void createGroup(T&&...) {} };
  struct UseCollectiveIO {}; struct MPIOCollectiveMetadata {};
}
namespace H5Easy { using File = HighFive::File; template <class... T> void dump(T&&...) {} }
